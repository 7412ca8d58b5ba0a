// ------------------------------------------------------------------------------------------
// What the calculations' steps give together.
proof fn lemma_mask_ones(x: u64)
    requires x < 0x10_0000_0000_0000,
    ensures ones(x, 64) == size(mask_cards(x)), 0 <= ones(x, 64) <= 64,
{
    lemma_ones_most(x, 64);
    lemma_ones_upto(x, 52);
    assert(cards_upto(x, 52) =~= mask_cards(x));
    lemma_high_zero(x, 64);
}
proof fn lemma_ones_most(x: u64, k: int)
    requires 0 <= k,
    ensures 0 <= ones(x, k) <= k,
    decreases k,
{ if k > 0 { lemma_ones_most(x, k - 1); } }
spec fn cards_upto(x: u64, k: int) -> Seq<bool> { Seq::new(52, |c: int| c < k && x & (1u64 << (c as u64)) != 0) }
proof fn lemma_ones_upto(x: u64, k: int)
    requires 0 <= k <= 52,
    ensures ones(x, k) == size(cards_upto(x, k)),
    decreases k,
{
    if k > 0 {
        lemma_ones_upto(x, k - 1);
        let (s, t) = (cards_upto(x, k - 1), cards_upto(x, k));
        if x & (1u64 << ((k - 1) as u64)) != 0 { lemma_insert(s, k - 1); assert(s.update(k - 1, true) =~= t); } else { assert(s =~= t); }
    } else { lemma_none(); assert(cards_upto(x, 0) =~= no_cards()); }
}
proof fn lemma_high_zero(x: u64, k: int)
    requires x < 0x10_0000_0000_0000, 52 <= k <= 64,
    ensures ones(x, k) == ones(x, 52),
    decreases k,
{ if k > 52 { lemma_high_zero(x, k - 1); let y = (k - 1) as u64; assert(x & (1u64 << y) == 0) by (bit_vector) requires x < 0x10_0000_0000_0000, 52 <= y, y < 64; } }
// ---- the hands that are left
proof fn lemma_kept(h: Seq<RangeCombo>, b: u64, d: u64)
    ensures kept(h, b, d).len() <= h.len(), forall|k: int| 0 <= k < kept(h, b, d).len() ==> clear(#[trigger] kept(h, b, d)[k], b) && clear(kept(h, b, d)[k], d) && h.contains(kept(h, b, d)[k]),
    decreases h.len(),
{
    reveal(Seq::filter);
    if h.len() > 0 {
        lemma_kept(h.drop_last(), b, d);
        let (s, t) = (kept(h.drop_last(), b, d), kept(h, b, d));
        assert forall|k: int| 0 <= k < t.len() implies clear(#[trigger] t[k], b) && clear(t[k], d) && h.contains(t[k]) by {
            if k < s.len() { assert(t[k] == s[k]); let j = choose|j: int| 0 <= j < h.drop_last().len() && h.drop_last()[j] == s[k]; assert(h[j] == t[k]); } else { assert(h[h.len() - 1] == t[k]); }
        }
    }
}
spec fn no_pair_twice(h: Seq<RangeCombo>) -> bool { forall|j: int, k: int| #![trigger h[j], h[k]] 0 <= j < k < h.len() ==> pair_index(h[j]) != pair_index(h[k]) }
proof fn lemma_kept_once(h: Seq<RangeCombo>, b: u64, d: u64)
    requires no_pair_twice(h),
    ensures no_pair_twice(kept(h, b, d)),
    decreases h.len(),
{
    reveal(Seq::filter);
    if h.len() > 0 {
        let g = h.drop_last();
        assert forall|j: int, k: int| #![trigger g[j], g[k]] 0 <= j < k < g.len() implies pair_index(g[j]) != pair_index(g[k]) by { assert(pair_index(h[j]) != pair_index(h[k])); }
        lemma_kept_once(g, b, d); lemma_kept(g, b, d);
        let (s, t) = (kept(g, b, d), kept(h, b, d));
        assert forall|j: int, k: int| #![trigger t[j], t[k]] 0 <= j < k < t.len() implies pair_index(t[j]) != pair_index(t[k]) by {
            assert(t[j] == s[j]);
            if k < s.len() { assert(t[k] == s[k]); } else { assert(t[k] == h[h.len() - 1]); assert(g.contains(s[j])); let i = choose|i: int| 0 <= i < g.len() && g[i] == s[j]; assert(pair_index(h[i]) != pair_index(h[h.len() - 1])); }
        }
    }
}
proof fn lemma_left_over(hs: Seq<HandRange>, ks: Seq<HandRange>, board: u64, dead: u64)
    requires fair_request(hs, board, dead), left_over(hs, ks, board, dead),
    ensures proper(ks), light(ks), once_each(ks), off_board(ks, mask_cards(board)), forall|p: int| 0 <= p < ks.len() ==> (#[trigger] ks[p]).hands.len() <= 0x4000_0000,
        forall|p: int, k: int| #![trigger ks[p].hands@[k]] 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() ==> disjoint(mask_cards(board | dead), pair((ks[p].hands@[k].0, ks[p].hands@[k].1, ks[p].hands@[k].2))),
{
    assert forall|p: int, k: int| #![trigger ks[p].hands@[k]] 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() implies deck_hand(ks[p].hands@[k]) && ks[p].hands@[k].2 <= 100 && !mask_cards(board)[ks[p].hands@[k].0 as int] && !mask_cards(board)[ks[p].hands@[k].1 as int]
        && disjoint(mask_cards(board | dead), pair((ks[p].hands@[k].0, ks[p].hands@[k].1, ks[p].hands@[k].2))) by {
        assert(ks[p].hands@ == kept(hs[p].hands@, board, dead));
        lemma_kept(hs[p].hands@, board, dead);
        let x = ks[p].hands@[k];
        assert(x == kept(hs[p].hands@, board, dead)[k]);
        let j = choose|j: int| 0 <= j < hs[p].hands@.len() && hs[p].hands@[j] == x;
        assert(deck_hand(hs[p].hands@[j]));
        assert(clear(x, board) && clear(x, dead));
        lemma_deck_or(board, dead);
        assert forall|c: int| 0 <= c < 52 implies !(#[trigger] mask_cards(board | dead)[c] && pair((x.0, x.1, x.2))[c]) by { assert(mask_cards(board)[x.0 as int] == has_bit(board, x.0)); assert(mask_cards(board)[x.1 as int] == has_bit(board, x.1)); assert(mask_cards(dead)[x.0 as int] == has_bit(dead, x.0)); assert(mask_cards(dead)[x.1 as int] == has_bit(dead, x.1)); }
        assert(mask_cards(board)[x.0 as int] == has_bit(board, x.0)); assert(mask_cards(board)[x.1 as int] == has_bit(board, x.1));
    }
    assert forall|p: int| 0 <= p < ks.len() implies (#[trigger] ks[p]).hands.len() <= 0x4000_0000 by { lemma_kept(hs[p].hands@, board, dead); }
    assert forall|p: int, j: int, k: int| #![trigger ks[p].hands@[j], ks[p].hands@[k]] 0 <= p < ks.len() && 0 <= j < k < ks[p].hands.len() implies pair_index(ks[p].hands@[j]) != pair_index(ks[p].hands@[k]) by {
        assert forall|a: int, b: int| #![trigger hs[p].hands@[a], hs[p].hands@[b]] 0 <= a < b < hs[p].hands.len() implies pair_index(hs[p].hands@[a]) != pair_index(hs[p].hands@[b]) by { }
        lemma_kept_once(hs[p].hands@, board, dead);
        assert(ks[p].hands@ == kept(hs[p].hands@, board, dead));
        let x = kept(hs[p].hands@, board, dead);
        assert(pair_index(x[j]) != pair_index(x[k]));
    }
}
// ---- with weights in lowest terms
proof fn lemma_reduced(ks: Seq<HandRange>, rs: Seq<HandRange>)
    requires reduced(ks, rs), proper(ks), light(ks), forall|p: int| 0 <= p < ks.len() ==> (#[trigger] ks[p]).hands.len() <= 0x4000_0000,
    ensures proper(rs), light(rs), forall|p: int| 0 <= p < rs.len() ==> (#[trigger] rs[p]).hands.len() == ks[p].hands.len(), forall|p: int| 0 <= p < rs.len() ==> (#[trigger] rs[p]).hands.len() <= 0x4000_0000,
        forall|p: int, k: int| #![trigger rs[p].hands@[k]] 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() ==> rs[p].hands@[k].0 == ks[p].hands@[k].0 && rs[p].hands@[k].1 == ks[p].hands@[k].1,
{
    assert forall|p: int| 0 <= p < rs.len() implies (#[trigger] rs[p]).hands.len() == ks[p].hands.len() by { assert(lowest(ks[p], rs[p])); }
    assert forall|p: int, k: int| #![trigger rs[p].hands@[k]] 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() implies rs[p].hands@[k].0 == ks[p].hands@[k].0 && rs[p].hands@[k].1 == ks[p].hands@[k].1 && rs[p].hands@[k].2 <= 100 && deck_hand(rs[p].hands@[k]) by {
        assert(lowest(ks[p], rs[p]));
        let (a, b) = (ks[p].hands@[k], rs[p].hands@[k]);
        assert(deck_hand(a) && a.2 <= 100);
        let g = gcd_to(ks[p].hands@, ks[p].hands.len() as int);
        if g > 1 { let w = a.2 as int; assert(w / g <= w) by (nonlinear_arith) requires w >= 0, g > 1; }
    }
}
spec fn some_left(hs: Seq<HandRange>, ks: Seq<HandRange>, m: int, board: u64, dead: u64) -> bool {
    &&& ks.len() == hs.len()
    &&& forall|p: int| 0 <= p < m ==> (#[trigger] ks[p]).hands@ == kept(hs[p].hands@, board, dead)
    &&& forall|p: int| m <= p < ks.len() ==> #[trigger] ks[p] == hs[p]
}
proof fn lemma_deck_64(hs: Seq<HandRange>, p: int)
    requires proper(hs), 0 <= p < hs.len(),
    ensures forall|k: int| 0 <= k < hs[p].hands.len() ==> (#[trigger] hs[p].hands@[k]).0 < 64 && hs[p].hands@[k].1 < 64,
{ assert forall|k: int| 0 <= k < hs[p].hands.len() implies (#[trigger] hs[p].hands@[k]).0 < 64 && hs[p].hands@[k].1 < 64 by { assert(deck_hand(hs[p].hands@[k])); } }
proof fn lemma_prepared(hs: Seq<HandRange>, ks: Seq<HandRange>, rs: Seq<HandRange>, board: u64, dead: u64)
    requires fair_request(hs, board, dead), left_over(hs, ks, board, dead), reduced(ks, rs),
    ensures prepared(hs, ks, rs, board, dead), proper(rs), light(rs), forall|p: int| 0 <= p < rs.len() ==> (#[trigger] rs[p]).hands.len() <= 0x4000_0000, proper(ks), light(ks), once_each(ks), off_board(ks, mask_cards(board)),
{ lemma_left_over(hs, ks, board, dead); lemma_reduced(ks, rs); }
// ---- C20
// a group without a joint holding: no deal is possible
proof fn lemma_no_deal(gs: Seq<CombinedRange>, a: int, ks: Seq<HandRange>, rs: Seq<HandRange>, board: u64, dead: u64)
    requires groups_of(gs, rs), 0 <= a < gs.len(), gs[a].size == 0, proper(ks), proper(rs), reduced(ks, rs), ks.len() <= 9, light(ks), forall|p: int| 0 <= p < ks.len() ==> (#[trigger] ks[p]).hands.len() <= 0x4000_0000,
    ensures no_deal(game(ks, board, dead)),
{
    let g = gs[a];
    lemma_reduced(ks, rs);
    assert(is_group(gs[a], rs));
    let ts = choose|ts: Seq<Seq<int>>| group_lists(g, rs, ts);
    let ps = members(g);
    let base = mask_cards(board | dead);
    assert forall|x: Seq<int>| #[trigger] one_of_each(ks, x) implies !fit(hands_at(ks, x), base) by {
        let hp = hands_at(ks, x);
        if fit(hp, base) {
            let t = Seq::new(g.player_count as nat, |k: int| x[g.players@[k] as int]);
            assert forall|k: int| 0 <= k < ps.len() implies 0 <= #[trigger] ps[k] < rs.len() && 0 <= t[k] < rs[ps[k]].hands.len() by { assert(g.players@[k] < rs.len()); assert(0 <= x[ps[k]] < ks[ps[k]].hands.len()); }
            let ms = masks(rs, ps, t);
            assert forall|i: int, j: int| 0 <= i < j < ms.len() implies #[trigger] ms[i] & #[trigger] ms[j] == 0 by {
                let (p, q) = (ps[i], ps[j]);
                assert(0 <= ps[i] < rs.len() && 0 <= ps[j] < rs.len());
                assert(own_players(gs[a])); assert(g.players@[i] != g.players@[j]);
                let (h, l) = (picked(rs, ps, t, i), picked(rs, ps, t, j));
                assert(h == rs[p].hands@[x[p]] && l == rs[q].hands@[x[q]]);
                assert(deck_hand(rs[p].hands@[x[p]]) && deck_hand(rs[q].hands@[x[q]]));
                assert(hp[p].0 == h.0 && hp[p].1 == h.1 && hp[q].0 == l.0 && hp[q].1 == l.1);
                assert(pair(hp[p]) =~= pair((h.0, h.1, h.2)) && pair(hp[q]) =~= pair((l.0, l.1, l.2)));
                if p < q { assert(disjoint(pair(hp[p]), pair(hp[q]))); lemma_masks_apart(h, l); }
                else { assert(disjoint(pair(hp[q]), pair(hp[p]))); lemma_masks_apart(l, h); let (u, v) = (ms[i], ms[j]); assert(u & v == v & u) by (bit_vector); }
            }
            assert(joint(rs, ps, t));
            assert(ts.contains(t));
        }
    }
}
// groups that all have joint holdings: every range has hands
proof fn lemma_some_hands(gs: Seq<CombinedRange>, ks: Seq<HandRange>, rs: Seq<HandRange>)
    requires groups_of(gs, rs), reduced(ks, rs), forall|a: int| 0 <= a < gs.len() ==> (#[trigger] gs[a]).size > 0,
    ensures forall|p: int| 0 <= p < ks.len() ==> (#[trigger] ks[p]).hands.len() > 0,
{
    assert forall|p: int| 0 <= p < ks.len() implies (#[trigger] ks[p]).hands.len() > 0 by {
        assert(lowest(ks[p], rs[p]));
        assert(placed(gs, p));
        let a = choose|a: int| 0 <= a < gs.len() && #[trigger] has_player(gs[a], p);
        let k = choose|k: int| 0 <= k < gs[a].player_count && #[trigger] gs[a].players@[k] == p;
        assert(is_group(gs[a], rs));
        let ts = choose|ts: Seq<Seq<int>>| group_lists(gs[a], rs, ts);
        assert(joint(rs, members(gs[a]), ts[0]));
        assert(members(gs[a])[k] == p);
    }
}
proof fn lemma_same_choices(ks: Seq<HandRange>, rs: Seq<HandRange>, p: int)
    requires reduced(ks, rs), 0 <= p,
    ensures hand_choices(ks, p) == hand_choices(rs, p),
    decreases ks.len() - p,
{ if p < ks.len() { lemma_same_choices(ks, rs, p + 1); assert(lowest(ks[p], rs[p])); } }
// ---- shuffled groups
// f and g: the new numbers of the old ones and back
pub open spec fn turns(f: Seq<int>, g: Seq<int>, n: int) -> bool { f.len() == n && g.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f[i] < n && g[f[i]] == i) && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] g[i] < n && f[g[i]] == i }
pub open spec fn rearranged(a: Seq<Combo>, b: Seq<Combo>) -> bool { a.len() == b.len() && exists|f: Seq<int>, g: Seq<int>| #[trigger] turns(f, g, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[f[i]] }
pub open spec fn reordered(a: CombinedRange, b: CombinedRange) -> bool { b.player_count == a.player_count && b.players == a.players && b.size == a.size && rearranged(a.combos@, b.combos@) }
// what the slices' shuffle of the rand crate does
#[verifier::external_body]
fn mixed(a: &mut Vec<Combo>, rng: &mut Gen)
    ensures rearranged(old(a)@, final(a)@),
{ unimplemented!() }
#[verifier::external_body]
fn thread_rng() -> (r: Gen) { unimplemented!() }
#[verifier::external_body]
fn seeded(g: &mut Gen) -> (r: Gen)
    ensures alone() ==> r.id@ == own_generator(),
{ unimplemented!() }
proof fn lemma_reordered(a: CombinedRange, b: CombinedRange, rs: Seq<HandRange>)
    requires is_group(a, rs), reordered(a, b),
    ensures is_group(b, rs),
{
    let ts = choose|ts: Seq<Seq<int>>| group_lists(a, rs, ts);
    let m = a.combos.len() as int;
    let (f, g) = choose|f: Seq<int>, g: Seq<int>| #[trigger] turns(f, g, m) && forall|i: int| 0 <= i < m ==> #[trigger] b.combos@[i] == a.combos@[f[i]];
    let us = Seq::new(m as nat, |c: int| ts[f[c]]);
    assert(members(a) =~= members(b));
    assert forall|k: int| 0 <= k < b.player_count implies #[trigger] b.players@[k] < rs.len() by { assert(a.players@[k] < rs.len()); }
    assert forall|c: int| 0 <= c < us.len() implies joint(rs, members(b), #[trigger] us[c]) && shows(b.combos@[c], rs, members(b), us[c]) by { let d = f[c]; assert(joint(rs, members(a), ts[d]) && shows(a.combos@[d], rs, members(a), ts[d])); }
    assert forall|c: int, d: int| 0 <= c < d < us.len() implies #[trigger] us[c] != #[trigger] us[d] by { let (x, y) = (f[c], f[d]); assert(g[x] == c && g[y] == d); if x < y { assert(ts[x] != ts[y]); } else { assert(ts[y] != ts[x]); } }
    assert forall|t: Seq<int>| #[trigger] joint(rs, members(b), t) implies us.contains(t) by { assert(ts.contains(t)); let j = choose|j: int| 0 <= j < ts.len() && ts[j] == t; assert(us[g[j]] == t); }
    assert(group_lists(b, rs, us));
}
proof fn lemma_one_shuffled(gs: Seq<CombinedRange>, hs: Seq<CombinedRange>, k: int, rs: Seq<HandRange>)
    requires groups_of(gs, rs), 0 <= k < gs.len(), hs.len() == gs.len(), reordered(gs[k], hs[k]), forall|a: int| 0 <= a < gs.len() && a != k ==> #[trigger] hs[a] == gs[a],
    ensures groups_of(hs, rs), forall|a: int| 0 <= a < gs.len() ==> (#[trigger] hs[a]).size == gs[a].size,
{
    assert forall|a: int| 0 <= a < hs.len() implies is_group(#[trigger] hs[a], rs) && own_players(hs[a]) by { assert(is_group(gs[a], rs)); assert(own_players(gs[a])); if a == k { lemma_reordered(gs[a], hs[a], rs); assert(own_players(hs[a])) by { assert forall|x: int, y: int| 0 <= x < y < hs[a].player_count implies #[trigger] hs[a].players@[x] != #[trigger] hs[a].players@[y] by { assert(gs[a].players@[x] != gs[a].players@[y]); } } } }
    assert forall|a: int, b: int| 0 <= a < hs.len() && 0 <= b < hs.len() && a != b implies no_common(#[trigger] hs[a], #[trigger] hs[b]) by { assert(no_common(gs[a], gs[b])); assert forall|x: int, y: int| 0 <= x < hs[a].player_count && 0 <= y < hs[b].player_count implies #[trigger] hs[a].players@[x] != #[trigger] hs[b].players@[y] by { assert(gs[a].players@[x] != gs[b].players@[y]); } }
    assert forall|p: int| 0 <= p < rs.len() implies placed(hs, p) by { assert(placed(gs, p)); let a = choose|a: int| 0 <= a < gs.len() && #[trigger] has_player(gs[a], p); let x = choose|x: int| 0 <= x < gs[a].player_count && #[trigger] gs[a].players@[x] == p; assert(hs[a].players@[x] == p); assert(has_player(hs[a], p)); }
}
