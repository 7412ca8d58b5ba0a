// ---- holdings
pub open spec fn hand_mask(h: RangeCombo) -> u64 { (1u64 << (h.0 as u64)) | (1u64 << (h.1 as u64)) }
pub open spec fn or_all(m: Seq<u64>) -> u64 decreases m.len() { if m.len() == 0 { 0 } else { or_all(m.drop_last()) | m.last() } }
pub open spec fn apart(m: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] m[i] & #[trigger] m[j] == 0 }
// t picks one hand of each of the players ps
pub open spec fn picks(rs: Seq<HandRange>, ps: Seq<int>, t: Seq<int>) -> bool {
    t.len() == ps.len() && forall|k: int| 0 <= k < ps.len() ==> 0 <= #[trigger] ps[k] < rs.len() && 0 <= t[k] < rs[ps[k]].hands.len()
}
pub open spec fn picked(rs: Seq<HandRange>, ps: Seq<int>, t: Seq<int>, k: int) -> RangeCombo { rs[ps[k]].hands@[t[k]] }
pub open spec fn masks(rs: Seq<HandRange>, ps: Seq<int>, t: Seq<int>) -> Seq<u64> { Seq::new(t.len(), |k: int| hand_mask(picked(rs, ps, t, k))) }
// a joint holding: no card twice
pub open spec fn joint(rs: Seq<HandRange>, ps: Seq<int>, t: Seq<int>) -> bool { picks(rs, ps, t) && apart(masks(rs, ps, t)) }
// c is the joint holding t
pub open spec fn shows(c: Combo, rs: Seq<HandRange>, ps: Seq<int>, t: Seq<int>) -> bool {
    &&& c.mask == or_all(masks(rs, ps, t))
    &&& forall|k: int| 0 <= k < ps.len() ==> #[trigger] c.hole_cards@[k] == (picked(rs, ps, t, k).0, picked(rs, ps, t, k).1, picked(rs, ps, t, k).2)
    &&& forall|k: int| 0 <= k < ps.len() ==> #[trigger] c.hands@[k] == hole_hand(picked(rs, ps, t, k).0, picked(rs, ps, t, k).1)
}
pub open spec fn members(g: CombinedRange) -> Seq<int> { Seq::new(g.player_count as nat, |k: int| g.players@[k] as int) }
// the group lists exactly the joint holdings of its players, each once
pub open spec fn group_lists(g: CombinedRange, rs: Seq<HandRange>, ts: Seq<Seq<int>>) -> bool {
    &&& 1 <= g.player_count <= 9 && g.size == g.combos.len() && ts.len() == g.combos.len()
    &&& forall|k: int| 0 <= k < g.player_count ==> #[trigger] g.players@[k] < rs.len()
    &&& forall|c: int| 0 <= c < ts.len() ==> joint(rs, members(g), #[trigger] ts[c]) && shows(g.combos@[c], rs, members(g), ts[c])
    &&& forall|c: int, d: int| 0 <= c < d < ts.len() ==> #[trigger] ts[c] != #[trigger] ts[d]
    &&& forall|t: Seq<int>| #[trigger] joint(rs, members(g), t) ==> ts.contains(t)
}
pub open spec fn is_group(g: CombinedRange, rs: Seq<HandRange>) -> bool { exists|ts: Seq<Seq<int>>| group_lists(g, rs, ts) }
// the groups gs[a], gs[b] have different players at x and y
pub open spec fn own_players(g: CombinedRange) -> bool { forall|x: int, y: int| 0 <= x < y < g.player_count ==> #[trigger] g.players@[x] != #[trigger] g.players@[y] }
pub open spec fn no_common(g: CombinedRange, h: CombinedRange) -> bool { forall|x: int, y: int| 0 <= x < g.player_count && 0 <= y < h.player_count ==> #[trigger] g.players@[x] != #[trigger] h.players@[y] }
pub open spec fn has_player(g: CombinedRange, p: int) -> bool { exists|k: int| 0 <= k < g.player_count && #[trigger] g.players@[k] == p }
pub open spec fn separate(gs: Seq<CombinedRange>) -> bool {
    &&& forall|a: int| 0 <= a < gs.len() ==> own_players(#[trigger] gs[a])
    &&& forall|a: int, b: int| 0 <= a < gs.len() && 0 <= b < gs.len() && a != b ==> no_common(#[trigger] gs[a], #[trigger] gs[b])
}
pub open spec fn players_of(gs: Seq<CombinedRange>, n: int) -> int decreases n { if n <= 0 { 0 } else { players_of(gs, n - 1) + gs[n - 1].player_count } }
// C12
pub open spec fn groups_of(gs: Seq<CombinedRange>, rs: Seq<HandRange>) -> bool {
    &&& forall|a: int| 0 <= a < gs.len() ==> is_group(#[trigger] gs[a], rs)
    &&& separate(gs)
    &&& forall|p: int| 0 <= p < rs.len() ==> placed(gs, p)
}
pub open spec fn placed(gs: Seq<CombinedRange>, p: int) -> bool { exists|a: int| 0 <= a < gs.len() && #[trigger] has_player(gs[a], p) }

pub open spec fn single(c: Combo, h: RangeCombo) -> bool { c.mask == hand_mask(h) && c.hole_cards@[0] == (h.0, h.1, h.2) && c.hands@[0] == hole_hand(h.0, h.1) }
// all cards are cards of the deck
pub open spec fn deck_cards(g: CombinedRange) -> bool { forall|c: int, k: int| #![trigger g.combos@[c].hole_cards@[k]] 0 <= c < g.combos.len() && 0 <= k < g.player_count ==> g.combos@[c].hole_cards@[k].0 < 52 && g.combos@[c].hole_cards@[k].1 < 52 && g.combos@[c].hole_cards@[k].0 != g.combos@[c].hole_cards@[k].1 }
