// ------------------------------------------------------------------------------------------
// Deals: one joint holding of each group, so one hand for each player.
pub open spec fn dealt_cards(h: (u8, u8, u8)) -> bool { h.0 < 52 && h.1 < 52 && h.0 != h.1 && h.2 <= 100 }
pub open spec fn pair(h: (u8, u8, u8)) -> Seq<bool> { two_cards(h.0 as int, h.1 as int) }
pub open spec fn in_combo(c: Combo, m: int, x: int) -> bool { exists|k: int| 0 <= k < m && pair(#[trigger] c.hole_cards@[k])[x] }
pub open spec fn combo_ok(c: Combo, m: int) -> bool {
    &&& 0 <= m <= 9 && c.mask < 0x10_0000_0000_0000
    &&& forall|k: int| 0 <= k < m ==> dealt_cards(#[trigger] c.hole_cards@[k])
    &&& forall|k: int| 0 <= k < m ==> holds(#[trigger] c.hands@[k], pair(c.hole_cards@[k]), 0)
    &&& forall|k: int, l: int| 0 <= k < l < m ==> disjoint(pair(#[trigger] c.hole_cards@[k]), pair(#[trigger] c.hole_cards@[l]))
    &&& forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(c.mask)[x] == in_combo(c, m, x)
}
pub open spec fn group_ok(g: CombinedRange, n: int) -> bool {
    &&& 1 <= g.player_count <= 9 && g.size == g.combos.len() && g.size > 0
    &&& forall|k: int| 0 <= k < g.player_count ==> #[trigger] g.players@[k] < n
    &&& forall|c: int| 0 <= c < g.combos.len() ==> combo_ok(#[trigger] g.combos@[c], g.player_count as int)
}
pub open spec fn groups_ok(gs: Seq<CombinedRange>, n: int) -> bool {
    &&& forall|a: int| 0 <= a < gs.len() ==> group_ok(#[trigger] gs[a], n)
    &&& separate(gs)
    &&& forall|p: int| 0 <= p < n ==> placed(gs, p)
}
// the group of player p and p's place in it
pub open spec fn at_seat(gs: Seq<CombinedRange>, p: int, a: int, k: int) -> bool { 0 <= a < gs.len() && 0 <= k < gs[a].player_count && gs[a].players@[k] == p }
pub open spec fn seat(gs: Seq<CombinedRange>, p: int) -> (int, int) { choose|s: (int, int)| #[trigger] at_seat(gs, p, s.0, s.1) }
proof fn lemma_seat(gs: Seq<CombinedRange>, n: int, p: int)
    requires groups_ok(gs, n), 0 <= p < n,
    ensures at_seat(gs, p, seat(gs, p).0, seat(gs, p).1), seat(gs, p).1 < 9, group_ok(gs[seat(gs, p).0], n),
{
    assert(placed(gs, p));
    let a = choose|a: int| 0 <= a < gs.len() && #[trigger] has_player(gs[a], p);
    let k = choose|k: int| 0 <= k < gs[a].player_count && #[trigger] gs[a].players@[k] == p;
    assert(at_seat(gs, p, (a, k).0, (a, k).1));
    assert(group_ok(gs[seat(gs, p).0], n));
}
proof fn lemma_own_seat(gs: Seq<CombinedRange>, n: int, p: int, a: int, k: int)
    requires groups_ok(gs, n), 0 <= p < n, at_seat(gs, p, a, k),
    ensures seat(gs, p) == (a, k),
{
    lemma_seat(gs, n, p);
    let (b, l) = seat(gs, p);
    if a != b { assert(no_common(gs[a], gs[b])); assert(gs[a].players@[k] != gs[b].players@[l]); }
    else { assert(own_players(gs[a])); if k < l { assert(gs[a].players@[k] != gs[a].players@[l]); } if l < k { assert(gs[a].players@[l] != gs[a].players@[k]); } }
}
// d: the number of the joint holding taken from each group
pub open spec fn choice(gs: Seq<CombinedRange>, d: Seq<int>) -> bool { d.len() == gs.len() && forall|a: int| 0 <= a < gs.len() ==> 0 <= #[trigger] d[a] < gs[a].combos.len() }
pub open spec fn taken_from(gs: Seq<CombinedRange>, d: Seq<int>, a: int) -> Combo { gs[a].combos@[d[a]] }
// the players' hands
pub open spec fn held_by(gs: Seq<CombinedRange>, d: Seq<int>, p: int) -> (u8, u8, u8) { taken_from(gs, d, seat(gs, p).0).hole_cards@[seat(gs, p).1] }
pub open spec fn held(gs: Seq<CombinedRange>, d: Seq<int>, n: int) -> Seq<HandWithIndex> { Seq::new(n as nat, |p: int| HandWithIndex { cards: held_by(gs, d, p), player_idx: p as usize }) }
// a deal: cards that are on the board or dead are not dealt, and no card twice
pub open spec fn legal(gs: Seq<CombinedRange>, d: Seq<int>, n: int, base: Seq<bool>) -> bool {
    &&& forall|p: int| 0 <= p < n ==> disjoint(base, pair(#[trigger] held_by(gs, d, p)))
    &&& forall|p: int, q: int| 0 <= p < q < n ==> disjoint(pair(#[trigger] held_by(gs, d, p)), pair(#[trigger] held_by(gs, d, q)))
}
pub open spec fn in_hand(gs: Seq<CombinedRange>, d: Seq<int>, n: int, k: int, x: int) -> bool { exists|p: int| 0 <= p < n && seat(gs, p).0 < k && pair(#[trigger] held_by(gs, d, p))[x] }
// the cards left for the board
pub open spec fn free_cards(gs: Seq<CombinedRange>, d: Seq<int>, n: int, base: Seq<bool>) -> Seq<bool> { Seq::new(52, |x: int| !base[x] && !in_hand(gs, d, n, gs.len() as int, x)) }
pub open spec fn weight_to(gs: Seq<CombinedRange>, d: Seq<int>, k: int) -> int decreases k { if k <= 0 { 1 } else { weight_to(gs, d, k - 1) * held_by(gs, d, k - 1).2 } }
proof fn lemma_weight_nonneg(gs: Seq<CombinedRange>, d: Seq<int>, k: int)
    ensures weight_to(gs, d, k) >= 0,
    decreases k,
{ if k > 0 { lemma_weight_nonneg(gs, d, k - 1); let (x, y) = (weight_to(gs, d, k - 1), held_by(gs, d, k - 1).2 as int); assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0; } }
proof fn lemma_held(gs: Seq<CombinedRange>, d: Seq<int>, n: int, p: int)
    requires groups_ok(gs, n), choice(gs, d), 0 <= p < n,
    ensures dealt_cards(held_by(gs, d, p)),
{ lemma_seat(gs, n, p); let (a, k) = seat(gs, p); assert(combo_ok(gs[a].combos@[d[a]], gs[a].player_count as int)); assert(dealt_cards(gs[a].combos@[d[a]].hole_cards@[k])); }
pub open spec fn p100(k: int) -> int decreases k { if k <= 0 { 1 } else { 100 * p100(k - 1) } }
proof fn lemma_weight_to(gs: Seq<CombinedRange>, d: Seq<int>, n: int, k: int)
    requires groups_ok(gs, n), choice(gs, d), 0 <= k <= n,
    ensures 0 <= weight_to(gs, d, k) <= p100(k), p100(k) >= 1,
    decreases k,
{
    if k > 0 {
        lemma_weight_to(gs, d, n, k - 1); lemma_held(gs, d, n, k - 1);
        let (x, y, z) = (weight_to(gs, d, k - 1), held_by(gs, d, k - 1).2 as int, p100(k - 1));
        assert(0 <= x * y <= 100 * z) by (nonlinear_arith) requires 0 <= x <= z, 0 <= y <= 100;
    }
}
proof fn lemma_p100(k: int) requires 0 <= k <= 9, ensures p100(k) <= 1_000_000_000_000_000_000, { reveal_with_fuel(p100, 11); assert(p100(9) == 1_000_000_000_000_000_000); }
// ---- the mask of the cards in use after the first k groups
pub open spec fn used_to(gs: Seq<CombinedRange>, d: Seq<int>, base: u64, k: int) -> u64 decreases k { if k <= 0 { base } else { used_to(gs, d, base, k - 1) | taken_from(gs, d, k - 1).mask } }
pub open spec fn fits_to(gs: Seq<CombinedRange>, d: Seq<int>, base: u64, k: int) -> bool { forall|i: int| 0 <= i < k ==> used_to(gs, d, base, i) & #[trigger] taken_from(gs, d, i).mask == 0 }
proof fn lemma_deck_or(a: u64, b: u64)
    ensures forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(a | b)[x] == (mask_cards(a)[x] || mask_cards(b)[x]),
{ assert forall|x: int| 0 <= x < 52 implies #[trigger] mask_cards(a | b)[x] == (mask_cards(a)[x] || mask_cards(b)[x]) by { let y = x as u64; assert((a | b) & (1u64 << y) != 0 <==> (a & (1u64 << y) != 0 || b & (1u64 << y) != 0)) by (bit_vector); } }
proof fn lemma_deck_and(a: u64, b: u64)
    requires b < 0x10_0000_0000_0000,
    ensures (a & b == 0) == disjoint(mask_cards(a), mask_cards(b)),
{
    if a & b == 0 { assert forall|x: int| 0 <= x < 52 implies !(#[trigger] mask_cards(a)[x] && mask_cards(b)[x]) by { let y = x as u64; assert(a & b == 0 ==> !(a & (1u64 << y) != 0 && b & (1u64 << y) != 0)) by (bit_vector); } }
    else {
        let m = a & b;
        assert(m < 0x10_0000_0000_0000) by (bit_vector) requires m == a & b, b < 0x10_0000_0000_0000;
        assert(1u64 << 52u64 == 0x10_0000_0000_0000) by (bit_vector);
        let y = some_bit(m, 52);
        let z = y as u64;
        assert(a & (1u64 << z) != 0 && b & (1u64 << z) != 0) by (bit_vector) requires a & b & (1u64 << z) != 0;
        assert(mask_cards(a)[y] && mask_cards(b)[y]);
    }
}
proof fn some_bit(m: u64, k: int) -> (r: int)
    requires m != 0, 0 <= k <= 52, m < 1u64 << (k as u64),
    ensures 0 <= r < k, m & (1u64 << (r as u64)) != 0,
    decreases k,
{
    let y = k as u64;
    if k == 0 { assert(1u64 << 0u64 == 1) by (bit_vector); 0 } else {
        let z = sub(y, 1);
        if m & (1u64 << z) != 0 { k - 1 } else { assert(m < 1u64 << z) by (bit_vector) requires m & (1u64 << z) == 0, m < 1u64 << y, z == sub(y, 1), 0 < y <= 52; some_bit(m, k - 1) }
    }
}
// the cards of the group's holding are those of its players
proof fn lemma_group_cards(gs: Seq<CombinedRange>, d: Seq<int>, n: int, a: int, x: int)
    requires groups_ok(gs, n), choice(gs, d), 0 <= a < gs.len(), 0 <= x < 52,
    ensures mask_cards(taken_from(gs, d, a).mask)[x] == exists|p: int| 0 <= p < n && seat(gs, p).0 == a && pair(#[trigger] held_by(gs, d, p))[x], taken_from(gs, d, a).mask < 0x10_0000_0000_0000,
{
    let c = taken_from(gs, d, a);
    assert(group_ok(gs[a], n)); assert(combo_ok(gs[a].combos@[d[a]], gs[a].player_count as int));
    if mask_cards(c.mask)[x] {
        let k = choose|k: int| 0 <= k < gs[a].player_count && pair(#[trigger] c.hole_cards@[k])[x];
        let p = gs[a].players@[k] as int;
        lemma_own_seat(gs, n, p, a, k);
        assert(pair(held_by(gs, d, p))[x]);
    }
    if exists|p: int| 0 <= p < n && seat(gs, p).0 == a && pair(#[trigger] held_by(gs, d, p))[x] {
        let p = choose|p: int| 0 <= p < n && seat(gs, p).0 == a && pair(#[trigger] held_by(gs, d, p))[x];
        lemma_seat(gs, n, p);
        assert(pair(c.hole_cards@[seat(gs, p).1])[x]);
    }
}
proof fn lemma_used_to(gs: Seq<CombinedRange>, d: Seq<int>, n: int, base: u64, k: int)
    requires groups_ok(gs, n), choice(gs, d), 0 <= k <= gs.len(),
    ensures forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(used_to(gs, d, base, k))[x] == (mask_cards(base)[x] || in_hand(gs, d, n, k, x)),
    decreases k,
{
    if k > 0 {
        lemma_used_to(gs, d, n, base, k - 1);
        lemma_deck_or(used_to(gs, d, base, k - 1), taken_from(gs, d, k - 1).mask);
        assert forall|x: int| 0 <= x < 52 implies #[trigger] mask_cards(used_to(gs, d, base, k))[x] == (mask_cards(base)[x] || in_hand(gs, d, n, k, x)) by {
            lemma_group_cards(gs, d, n, k - 1, x);
            assert(mask_cards(used_to(gs, d, base, k))[x] == (mask_cards(used_to(gs, d, base, k - 1))[x] || mask_cards(taken_from(gs, d, k - 1).mask)[x]));
            if in_hand(gs, d, n, k, x) { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 < k && pair(#[trigger] held_by(gs, d, p))[x]; if seat(gs, p).0 < k - 1 { assert(in_hand(gs, d, n, k - 1, x)); } }
            if in_hand(gs, d, n, k - 1, x) { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 < k - 1 && pair(#[trigger] held_by(gs, d, p))[x]; assert(in_hand(gs, d, n, k, x)); }
            if mask_cards(taken_from(gs, d, k - 1).mask)[x] { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 == k - 1 && pair(#[trigger] held_by(gs, d, p))[x]; assert(in_hand(gs, d, n, k, x)); }
        }
    } else {
        assert forall|x: int| 0 <= x < 52 implies !in_hand(gs, d, n, 0, x) by { if in_hand(gs, d, n, 0, x) { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 < 0 && pair(#[trigger] held_by(gs, d, p))[x]; lemma_seat(gs, n, p); } }
    }
}
// the masks show whether the deal is a legal one
proof fn lemma_legal_fits(gs: Seq<CombinedRange>, d: Seq<int>, n: int, base: u64, i: int)
    requires groups_ok(gs, n), choice(gs, d), legal(gs, d, n, mask_cards(base)), 0 <= i < gs.len(),
    ensures used_to(gs, d, base, i) & taken_from(gs, d, i).mask == 0,
{
    let (u, m) = (used_to(gs, d, base, i), taken_from(gs, d, i).mask);
    lemma_used_to(gs, d, n, base, i);
    lemma_group_cards(gs, d, n, i, 0);
    assert forall|x: int| 0 <= x < 52 implies !(#[trigger] mask_cards(u)[x] && mask_cards(m)[x]) by {
        if mask_cards(u)[x] && mask_cards(m)[x] {
            lemma_group_cards(gs, d, n, i, x);
            let q = choose|p: int| 0 <= p < n && seat(gs, p).0 == i && pair(#[trigger] held_by(gs, d, p))[x];
            if mask_cards(base)[x] { assert(disjoint(mask_cards(base), pair(held_by(gs, d, q)))); }
            else {
                let p = choose|p: int| 0 <= p < n && seat(gs, p).0 < i && pair(#[trigger] held_by(gs, d, p))[x];
                if p < q { assert(disjoint(pair(held_by(gs, d, p)), pair(held_by(gs, d, q)))); } else { assert(disjoint(pair(held_by(gs, d, q)), pair(held_by(gs, d, p)))); }
            }
        }
    }
    lemma_deck_and(u, m);
}
proof fn lemma_fits_two(gs: Seq<CombinedRange>, d: Seq<int>, n: int, base: u64, p: int, q: int)
    requires groups_ok(gs, n), choice(gs, d), fits_to(gs, d, base, gs.len() as int), 0 <= p < n, 0 <= q < n, p != q, seat(gs, p).0 <= seat(gs, q).0,
    ensures disjoint(pair(held_by(gs, d, p)), pair(held_by(gs, d, q))), disjoint(pair(held_by(gs, d, q)), pair(held_by(gs, d, p))), disjoint(mask_cards(base), pair(held_by(gs, d, q))),
{
    let (a, b) = (seat(gs, p).0, seat(gs, q).0);
    lemma_seat(gs, n, p); lemma_seat(gs, n, q);
    lemma_used_to(gs, d, n, base, b);
    let (u, m) = (used_to(gs, d, base, b), taken_from(gs, d, b).mask);
    lemma_group_cards(gs, d, n, b, 0);
    assert(u & m == 0);
    lemma_deck_and(u, m);
    let (s, t) = (pair(held_by(gs, d, p)), pair(held_by(gs, d, q)));
    assert forall|x: int| 0 <= x < 52 && t[x] implies !s[x] && !mask_cards(base)[x] by {
        lemma_group_cards(gs, d, n, b, x);
        assert(mask_cards(m)[x]);
        assert(!mask_cards(u)[x]);
        if s[x] {
            if a < b { assert(in_hand(gs, d, n, b, x)); }
            else {
                let c = taken_from(gs, d, a);
                assert(combo_ok(gs[a].combos@[d[a]], gs[a].player_count as int));
                let (k, l) = (seat(gs, p).1, seat(gs, q).1);
                assert(k != l);
                if k < l { assert(disjoint(pair(c.hole_cards@[k]), pair(c.hole_cards@[l]))); } else { assert(disjoint(pair(c.hole_cards@[l]), pair(c.hole_cards@[k]))); }
            }
        }
    }
}
proof fn lemma_fits_base(gs: Seq<CombinedRange>, d: Seq<int>, n: int, base: u64, q: int)
    requires groups_ok(gs, n), choice(gs, d), fits_to(gs, d, base, gs.len() as int), 0 <= q < n,
    ensures disjoint(mask_cards(base), pair(held_by(gs, d, q))),
{
    let b = seat(gs, q).0;
    lemma_seat(gs, n, q);
    lemma_used_to(gs, d, n, base, b);
    let (u, m) = (used_to(gs, d, base, b), taken_from(gs, d, b).mask);
    lemma_group_cards(gs, d, n, b, 0);
    assert(u & m == 0);
    lemma_deck_and(u, m);
    assert forall|x: int| 0 <= x < 52 implies !(#[trigger] mask_cards(base)[x] && pair(held_by(gs, d, q))[x]) by { if pair(held_by(gs, d, q))[x] { lemma_group_cards(gs, d, n, b, x); assert(mask_cards(m)[x]); assert(!mask_cards(u)[x]); } }
}
proof fn lemma_fits_legal(gs: Seq<CombinedRange>, d: Seq<int>, n: int, base: u64)
    requires groups_ok(gs, n), choice(gs, d), fits_to(gs, d, base, gs.len() as int),
    ensures legal(gs, d, n, mask_cards(base)), unused(used_to(gs, d, base, gs.len() as int)) =~= free_cards(gs, d, n, mask_cards(base)),
{
    assert forall|p: int| 0 <= p < n implies disjoint(mask_cards(base), pair(#[trigger] held_by(gs, d, p))) by { lemma_fits_base(gs, d, n, base, p); }
    assert forall|p: int, q: int| 0 <= p < q < n implies disjoint(pair(#[trigger] held_by(gs, d, p)), pair(#[trigger] held_by(gs, d, q))) by { if seat(gs, p).0 <= seat(gs, q).0 { lemma_fits_two(gs, d, n, base, p, q); } else { lemma_fits_two(gs, d, n, base, q, p); } }
    lemma_used_to(gs, d, n, base, gs.len() as int);
}
// ---- the groups made by CombinedRange::from_ranges are such groups
proof fn lemma_or_all(rs: Seq<HandRange>, ps: Seq<int>, t: Seq<int>, m: Seq<u64>, k: int)
    requires m == masks(rs, ps, t), picks(rs, ps, t), proper(rs), 0 <= k <= m.len(),
    ensures or_all(m.take(k)) < 0x10_0000_0000_0000, forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(or_all(m.take(k)))[x] == exists|i: int| 0 <= i < k && hole_has(#[trigger] picked(rs, ps, t, i), x),
    decreases k,
{
    if k > 0 {
        lemma_or_all(rs, ps, t, m, k - 1);
        let (a, b) = (or_all(m.take(k - 1)), m[k - 1]);
        assert(m.take(k).drop_last() =~= m.take(k - 1));
        assert(or_all(m.take(k)) == a | b);
        assert(0 <= ps[k - 1] < rs.len());
        lemma_hand_mask(picked(rs, ps, t, k - 1));
        assert((a | b) < 0x10_0000_0000_0000) by (bit_vector) requires a < 0x10_0000_0000_0000, b < 0x10_0000_0000_0000;
        lemma_deck_or(a, b);
        assert forall|x: int| 0 <= x < 52 implies #[trigger] mask_cards(or_all(m.take(k)))[x] == exists|i: int| 0 <= i < k && hole_has(#[trigger] picked(rs, ps, t, i), x) by {
            if mask_cards(b)[x] { assert(hole_has(picked(rs, ps, t, k - 1), x)); }
        }
    } else {
        assert(m.take(0).len() == 0);
        assert forall|x: int| 0 <= x < 52 implies !#[trigger] mask_cards(0)[x] by { let y = x as u64; assert(0u64 & (1u64 << y) == 0) by (bit_vector); }
    }
}
pub open spec fn hole_has(h: RangeCombo, x: int) -> bool { h.0 == x || h.1 == x }
proof fn lemma_hand_mask(h: RangeCombo)
    requires deck_hand(h),
    ensures hand_mask(h) < 0x10_0000_0000_0000, forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(hand_mask(h))[x] == hole_has(h, x),
{
    let (a, b) = (h.0 as u64, h.1 as u64);
    assert((1u64 << a) | (1u64 << b) < 0x10_0000_0000_0000) by (bit_vector) requires a < 52, b < 52;
    assert forall|x: int| 0 <= x < 52 implies #[trigger] mask_cards(hand_mask(h))[x] == hole_has(h, x) by { let y = x as u64; assert(((1u64 << a) | (1u64 << b)) & (1u64 << y) != 0 <==> a == y || b == y) by (bit_vector) requires a < 52, b < 52, y < 52; }
}
proof fn lemma_group_ok(g: CombinedRange, rs: Seq<HandRange>)
    requires is_group(g, rs), proper(rs), light(rs), g.size > 0,
    ensures group_ok(g, rs.len() as int),
{
    let ts = choose|ts: Seq<Seq<int>>| group_lists(g, rs, ts);
    let ps = members(g);
    let m = g.player_count as int;
    assert forall|c: int| 0 <= c < g.combos.len() implies combo_ok(#[trigger] g.combos@[c], m) by {
        let (x, t) = (g.combos@[c], ts[c]);
        assert(joint(rs, ps, t) && shows(x, rs, ps, t));
        let ms = masks(rs, ps, t);
        lemma_or_all(rs, ps, t, ms, m);
        assert(ms.take(m) =~= ms);
        assert forall|k: int| 0 <= k < m implies dealt_cards(#[trigger] x.hole_cards@[k]) && deck_hand(picked(rs, ps, t, k)) && x.hole_cards@[k] == (picked(rs, ps, t, k).0, picked(rs, ps, t, k).1, picked(rs, ps, t, k).2) by {
            assert(0 <= ps[k] < rs.len() && 0 <= t[k] < rs[ps[k]].hands.len());
            assert(deck_hand(rs[ps[k]].hands@[t[k]]));
        }
        assert forall|k: int| 0 <= k < m implies holds(#[trigger] x.hands@[k], pair(x.hole_cards@[k]), 0) by {
            assert(dealt_cards(x.hole_cards@[k]));
            let h = picked(rs, ps, t, k);
            assert(x.hands@[k] == hole_hand(h.0, h.1));
            lemma_hole_hand(h.0, h.1);
        }
        assert forall|k: int, l: int| 0 <= k < l < m implies disjoint(pair(#[trigger] x.hole_cards@[k]), pair(#[trigger] x.hole_cards@[l])) by {
            let (h, i) = (picked(rs, ps, t, k), picked(rs, ps, t, l));
            lemma_hand_mask(h); lemma_hand_mask(i);
            assert(ms[k] & ms[l] == 0);
            lemma_deck_and(ms[k], ms[l]);
            assert forall|y: int| 0 <= y < 52 implies !(#[trigger] pair(x.hole_cards@[k])[y] && pair(x.hole_cards@[l])[y]) by { assert(mask_cards(hand_mask(h))[y] == hole_has(h, y)); assert(mask_cards(hand_mask(i))[y] == hole_has(i, y)); }
        }
        assert forall|y: int| 0 <= y < 52 implies #[trigger] mask_cards(x.mask)[y] == in_combo(x, m, y) by {
            if mask_cards(x.mask)[y] { let i = choose|i: int| 0 <= i < m && hole_has(#[trigger] picked(rs, ps, t, i), y); assert(pair(x.hole_cards@[i])[y]); }
            if in_combo(x, m, y) { let i = choose|k: int| 0 <= k < m && pair(#[trigger] x.hole_cards@[k])[y]; assert(hole_has(picked(rs, ps, t, i), y)); }
        }
    }
}
pub open spec fn light(rs: Seq<HandRange>) -> bool { forall|p: int, k: int| #![trigger rs[p].hands@[k]] 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() ==> rs[p].hands@[k].2 <= 100 }
proof fn lemma_groups_ok(gs: Seq<CombinedRange>, rs: Seq<HandRange>)
    requires groups_of(gs, rs), proper(rs), light(rs), forall|a: int| 0 <= a < gs.len() ==> (#[trigger] gs[a]).size > 0,
    ensures groups_ok(gs, rs.len() as int),
{ assert forall|a: int| 0 <= a < gs.len() implies group_ok(#[trigger] gs[a], rs.len() as int) by { lemma_group_ok(gs[a], rs); } }
