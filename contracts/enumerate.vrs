// C13, C14, C16, C23: every deal once.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
use vstd::arithmetic::power2::*;
verus! {
global size_of usize == 8;
//@ floats
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ include simspec
//@ include world
//@ include indexspec
//@ include boardspec
//@ include divspec
//@ include rangesok
//@ include groups
//@ include dealspec
//@ include logspec
//@ include countspec
//@ include positions
//@ include threads
//@ import merge Simulator::get_preflop_combo_count
//@ import merge <Default for UnitResults>::default
//@ import merge SimulationResultsBatch::init
//@ import merge Simulator::update_results
//@ import combine CombinedRange::size
//@ import combine CombinedRange::combos
//@ import combine CombinedRange::players
//@ import combine CombinedRange::player_count
//@ import fastdiv DividerU64::divide_by
//@ import fastdiv DividerU64::divide
//@ import hand Hand::count
//@ import board Simulator::enumerate_board
//@ grw? std::cmp::min =>> cmp_min64
//@ grw? std::cmp::max =>> cmp_max64
//@ grw? self.reserve_batch($e) =>> self.reserve_batch($e, world)
//@ grw? &tx, =>> &tx, world,
//@ grw? self.stopped.load($e) =>> world.flag.load()
fn cmp_max64(a: u64, b: u64) -> (r: u64)
    ensures r == if a < b { b } else { a },
{ if a < b { b } else { a } }
// the log and the batch at hand hold the counts of the first m of the positions
pub open spec fn counted(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, ps: Seq<int>, m: int) -> bool {
    &&& h.len() == 1326 * t.n
    &&& forall|w: int| 0 <= w < 512 ==> log_wins(l, l.len() as int, w) + #[trigger] s.wins_by_mask@[w] == sum_all(t, ps, m)[w]
    &&& forall|i: int| 0 <= i < h.len() ==> unit_logged(l, l.len() as int, #[trigger] h[i], i, sum_of(t, ps, m, i))
}
proof fn lemma_counted_step(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, s2: SimulationResultsBatch, h2: Seq<UnitResults>, ps: Seq<int>, m: int)
    requires counted(t, l, s, h, ps, m), 0 <= m < ps.len(), 1 <= t.n <= 9, groups_ok(t.gs, t.n), ps[m] >= 0,
        dealt(s, h, s2, h2, slots_of(held(t.gs, picks_at(t.gs, ps[m]), t.n), t.n), t.n, showdowns(t, picks_at(t.gs, ps[m]))),
    ensures counted(t, l, s2, h2, ps, m + 1),
{
    let d = picks_at(t.gs, ps[m]);
    let (x, hs) = (showdowns(t, d), held(t.gs, d, t.n));
    let lookup = slots_of(hs, t.n);
    assert(sum_all(t, ps, m + 1) == plus(sum_all(t, ps, m), x));
    lemma_picks_at(t.gs, t.n, ps[m]);
    assert forall|p: int| 0 <= p < t.n implies #[trigger] lookup[p] == slot_in(t, d, p) && 1326 * p <= lookup[p] < 1326 * (p + 1) by { lemma_held(t.gs, d, t.n, p); theorem_bijection(); let y = held_by(t.gs, d, p); assert(0 <= index_of(y.0 as int, y.1 as int) < 1326); assert(hs[p].cards == y); }
    assert forall|i: int| 0 <= i < h2.len() implies unit_logged(l, l.len() as int, #[trigger] h2[i], i, sum_of(t, ps, m + 1, i)) by {
        let (p, z) = (i / 1326, showdowns_of(t, d, i));
        assert(0 <= p < t.n) by (nonlinear_arith) requires 0 <= i < 1326 * t.n, p == i / 1326;
        assert(sum_of(t, ps, m + 1, i) == plus(sum_of(t, ps, m, i), z));
        lemma_sums_are_tallies(t, ps, m, i);
        lemma_plus(sum_of(t, ps, m, i), z, p, 512);
        assert(unit_logged(l, l.len() as int, h[i], i, sum_of(t, ps, m, i)));
        if slot_in(t, d, p) == i { assert(lookup[p] == i); assert(tally_added(h[lookup[p] as int], h2[lookup[p] as int], x, p)); }
        else {
            assert forall|q: int| 0 <= q < t.n implies #[trigger] lookup[q] != i by { if lookup[q] == i { assert(q == p) by (nonlinear_arith) requires 1326 * q <= i < 1326 * (q + 1), p == i / 1326; } }
            assert(h2[i] == h[i]);
            lemma_zero_tally(p, 512);
        }
    }
}
proof fn lemma_counted_nothing(t: Table, s: SimulationResultsBatch, h: Seq<UnitResults>, ps: Seq<int>)
    requires fresh_batch(s, t.n), fresh_hands(h, t.n), 1 <= t.n <= 9,
    ensures counted(t, Seq::empty(), s, h, ps, 0),
{ assert forall|i: int| 0 <= i < h.len() implies unit_logged(Seq::empty(), 0, #[trigger] h[i], i, sum_of(t, ps, 0, i)) by { lemma_zero_tally(i / 1326, 512); assert(empty_unit(h[i])); } }
proof fn lemma_counted_push(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, ps: Seq<int>, m: int)
    requires counted(t, l, s, h, ps, m),
    ensures logged(t, l.push(Batch { s, h }), ps, m),
{
    let b = Batch { s, h };
    let l2 = l.push(b);
    let k = l.len() as int;
    assert(l2[k] == b);
    assert forall|w: int| 0 <= w < 512 implies #[trigger] log_wins(l2, l2.len() as int, w) == sum_all(t, ps, m)[w] by { lemma_log_push(l, b, k, w, 0); assert(log_wins(l, k, w) + s.wins_by_mask@[w] == sum_all(t, ps, m)[w]); }
    assert forall|i: int| 0 <= i < 1326 * t.n implies #[trigger] hand_total(l2, l2.len() as int, i) == all_of(sum_of(t, ps, m, i), 512) && hand_wins(l2, l2.len() as int, i) == won(sum_of(t, ps, m, i), i / 1326, 512)
        && hand_ties(l2, l2.len() as int, i) == tied(sum_of(t, ps, m, i), i / 1326, 512) && hand_shares(l2, l2.len() as int, i) == split(sum_of(t, ps, m, i), i / 1326, 512) by { lemma_log_push(l, b, k, 0, i); assert(unit_logged(l, k, h[i], i, sum_of(t, ps, m, i))); }
}
proof fn lemma_counted_again(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, ps: Seq<int>, m: int)
    requires logged(t, l, ps, m), fresh_batch(s, t.n), fresh_hands(h, t.n),
    ensures counted(t, l, s, h, ps, m),
{ assert forall|i: int| 0 <= i < h.len() implies unit_logged(l, l.len() as int, #[trigger] h[i], i, sum_of(t, ps, m, i)) by { assert(empty_unit(h[i])); assert(hand_total(l, l.len() as int, i) == all_of(sum_of(t, ps, m, i), 512)); } }
proof fn lemma_any_counted_again(t: Table, l: Seq<Batch>, ps: Seq<int>, m: int)
    requires logged(t, l, ps, m),
    ensures forall|s: SimulationResultsBatch, h: Seq<UnitResults>| fresh_batch(s, t.n) && fresh_hands(h, t.n) ==> #[trigger] counted(t, l, s, h, ps, m),
{ assert forall|s: SimulationResultsBatch, h: Seq<UnitResults>| fresh_batch(s, t.n) && fresh_hands(h, t.n) implies #[trigger] counted(t, l, s, h, ps, m) by { lemma_counted_again(t, l, s, h, ps, m); } }
proof fn lemma_no_more() ensures forall|x: int, y: int| x >= 0 && y >= 1 ==> 0 <= #[trigger] (x / y) <= x,
{ assert forall|x: int, y: int| x >= 0 && y >= 1 implies 0 <= #[trigger] (x / y) <= x by { vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(x, 1, y); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, y); } }
// ---- which winner sets there are
proof fn lemma_support(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, c: int, w: int)
    requires 1 <= hs.len() <= 9, w <= 0 || w >= p2(hs.len() as int), 0 <= c <= d.len(),
    ensures cnt(hs, b, d, r, c, w) == 0,
    decreases c,
{
    if r <= 0 { lemma_winner_set(strengths(b, hs)); }
    else if c > 0 { lemma_support(hs, b, d, r, c - 1, w); lemma_support(hs, b.update(c - 1, true), d, r - 1, c - 1, w); }
}
proof fn lemma_cnt_nonneg(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, c: int, w: int)
    ensures cnt(hs, b, d, r, c, w) >= 0,
    decreases c,
{ if r > 0 && c > 0 { lemma_cnt_nonneg(hs, b, d, r, c - 1, w); lemma_cnt_nonneg(hs, b.update(c - 1, true), d, r - 1, c - 1, w); } }
proof fn lemma_showdowns_support(t: Table, d: Seq<int>)
    requires 1 <= t.n <= 9,
    ensures tally(showdowns(t, d)), showdowns(t, d)[0] == 0, forall|w: int| 0 <= w < 512 ==> #[trigger] showdowns(t, d)[w] >= 0, forall|w: int| p2(t.n) <= w < 512 ==> #[trigger] showdowns(t, d)[w] == 0,
{
    lemma_p2(t.n);
    if legal(t.gs, d, t.n, t.base) {
        let hs = deal_of(held(t.gs, d, t.n), t.n);
        let f = free_cards(t.gs, d, t.n, t.base);
        let x = weight_to(t.gs, d, t.n);
        assert(x * 0 == 0);
        lemma_weight_nonneg(t.gs, d, t.n);
        assert forall|w: int| 0 <= w < 512 implies #[trigger] showdowns(t, d)[w] >= 0 by { lemma_cnt_nonneg(hs, t.board, f, 5 - size(t.board), 52, w); let y = cnt(hs, t.board, f, 5 - size(t.board), 52, w); assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0; }
        lemma_support(hs, t.board, f, 5 - size(t.board), 52, 0);
        assert forall|w: int| p2(t.n) <= w < 512 implies #[trigger] showdowns(t, d)[w] == 0 by { lemma_support(hs, t.board, f, 5 - size(t.board), 52, w); }
    }
}
//@ fn src/equity_calculator/simulator.rs <Default for HandWithIndex>::default
//@ inherent
//@ end
pub open spec fn up(k: int, r: int) -> int decreases r - k { if k >= r { 1 } else { (k + 1) * up(k + 1, r) } }
pub open spec fn fall(r: int, k: int) -> int decreases k { if k <= 0 { 1 } else { fall(r, k - 1) * (r - k + 1) } }
pub open spec fn p52(k: int) -> int decreases k { if k <= 0 { 1 } else { 52 * p52(k - 1) } }
proof fn lemma_fall(r: int, k: int)
    requires 0 <= k <= r,
    ensures fall(r, k) >= 1,
    decreases k,
{ if k > 0 { lemma_fall(r, k - 1); let (a, b) = (fall(r, k - 1), r - k + 1); assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; } }
proof fn lemma_up(k: int, r: int)
    requires 0 <= k <= r,
    ensures up(k, r) >= 1,
    decreases r - k,
{ if k < r { lemma_up(k + 1, r); let (a, b) = (up(k + 1, r), k + 1); assert(b * a >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; } }
proof fn lemma_small_products(r: int)
    requires 0 <= r <= 5,
    ensures fall(r, r) == up(0, r), forall|k: int| 0 <= k <= r ==> #[trigger] fall(r, k) >= 1 && up(k, r) >= 1 && p52(k) <= 380204032,
{
    assert(fall(0, 0) == up(0, 0) && fall(1, 1) == up(0, 1) && fall(2, 2) == up(0, 2) && fall(3, 3) == up(0, 3) && fall(4, 4) == up(0, 4) && fall(5, 5) == up(0, 5)) by (compute_only);
    assert(p52(0) == 1 && p52(1) == 52 && p52(2) == 2704 && p52(3) == 140608 && p52(4) == 7311616 && p52(5) == 380204032) by (compute_only);
    assert forall|k: int| 0 <= k <= r implies #[trigger] fall(r, k) >= 1 && up(k, r) >= 1 && p52(k) <= 380204032 by { lemma_fall(r, k); lemma_up(k, r); }
}
proof fn lemma_ones(x: u64, k: int) ensures ones(x, k) >= 0, decreases k, { if k > 0 { lemma_ones(x, k - 1); } }
//@ fn src/equity_calculator/simulator.rs Simulator::get_postflop_combo_count
//@ ret r
//@ spec
    requires sim_ok(*self),
    ensures r >= 1,
//@ at start
    proof { tables_cards(); lemma_fields(self.fixed_board, mask_cards(self.board_mask), 3); lemma_ones(self.dead_mask, 64); }
//@ at stmt `let mut postflop_combos` 1 after
    let ghost (c, r) = (cards_in_deck as int, board_cards_remaining as int);
    proof { lemma_small_products(r); }
//@ loop 1
    invariant 0 <= k__1 <= e__1, e__1 == r, r == board_cards_remaining, c == cards_in_deck, 0 <= r <= 5, r <= c <= 52, fall(r, k__1 as int) <= postflop_combos <= p52(k__1 as int),
        forall|k: int| 0 <= k <= r ==> #[trigger] fall(r, k) >= 1 && up(k, r) >= 1 && p52(k) <= 380204032, fall(r, r) == up(0, r),
    decreases e__1 - k__1,
//@ at loop 1 start
    proof {
        let k = k__1 - 1;
        let (x, a, b) = (postflop_combos as int, fall(r, k), p52(k));
        assert(fall(r, k + 1) >= 1);
        assert(a * (r - k) <= x * (c - k) <= 52 * b) by (nonlinear_arith) requires 1 <= a <= x <= b, 0 <= k < r <= c <= 52;
    }
//@ loop 2
    invariant 0 <= k__2 <= e__2, e__2 == r, r == board_cards_remaining, 0 <= r <= 5, up(k__2 as int, r) <= postflop_combos,
        forall|k: int| 0 <= k <= r ==> #[trigger] fall(r, k) >= 1 && up(k, r) >= 1 && p52(k) <= 380204032,
    decreases e__2 - k__2,
//@ at loop 2 start
    proof {
        let k = k__2 - 1;
        assert(fall(r, k) >= 1 && fall(r, k + 1) >= 1);
        let (x, u) = (postflop_combos as int, up(k + 1, r));
        assert(x / (k + 1) >= u) by (nonlinear_arith) requires x >= (k + 1) * u, k >= 0;
    }
//@ at tail
    proof { assert(fall(r, r) >= 1); }
//@ end
//@ fn src/equity_calculator/simulator.rs Simulator::reserve_batch
//@ ret r
//@ sig &self, batch_size: u64 =>> &self, batch_size: u64, world: &mut World
//@ rw let mut $one_p = self.enum_pos.lock().unwrap(); =>> world.pos.lock(); let $one_p = &mut world.pos.v;
//@ spec
    requires groups_ok(self.combined_ranges@, self.n_players as int), deals(self.combined_ranges@, self.combined_ranges.len() as int) + batch_size <= u64::MAX,
        batch_size > 0, old(world).pos.v <= old(world).pos.end@ == deals(self.combined_ranges@, self.combined_ranges.len() as int),
    ensures old(world).pos.v <= r.0 <= r.1 <= old(world).pos.end@, r.0 == final(world).pos.start@, final(world).pos.v == r.1, r.1 - r.0 <= batch_size, final(world).pos.end == old(world).pos.end, r.0 == r.1 ==> r.1 == old(world).pos.end@,
        alone() ==> r.0 == old(world).pos.v,
        final(world).taken@ == old(world).taken@ + span(r.0 as int, r.1 as int),
        final(world).results == old(world).results, final(world).out == old(world).out, final(world).flag == old(world).flag, final(world).log == old(world).log, final(world).steps == old(world).steps,
//@ at start
    proof { lemma_sizes(self.combined_ranges@, self.n_players as int); }
//@ at tail
    proof { world.taken@ = world.taken@ + span(r__.0 as int, r__.1 as int); }
//@ end
proof fn lemma_counted_prefix(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, ps: Seq<int>, qs: Seq<int>, m: int)
    requires counted(t, l, s, h, ps, m), 0 <= m <= ps.len(), m <= qs.len(), forall|k: int| 0 <= k < m ==> ps[k] == qs[k],
    ensures counted(t, l, s, h, qs, m),
{
    lemma_prefix(t, ps, qs, m, 0);
    assert forall|i: int| 0 <= i < h.len() implies unit_logged(l, l.len() as int, #[trigger] h[i], i, sum_of(t, qs, m, i)) by { lemma_prefix(t, ps, qs, m, i); assert(unit_logged(l, l.len() as int, h[i], i, sum_of(t, ps, m, i))); }
}
// the hands of the groups before a are filled in
pub open spec fn filled(hs: Seq<HandWithIndex>, gs: Seq<CombinedRange>, d: Seq<int>, n: int, a: int) -> bool { hs.len() == 9 && forall|p: int| 0 <= p < n && seat(gs, p).0 < a ==> (#[trigger] hs[p]).cards == held_by(gs, d, p) }
// those of the first k players of group a too
pub open spec fn filling(hs: Seq<HandWithIndex>, gs: Seq<CombinedRange>, d: Seq<int>, n: int, a: int, k: int) -> bool {
    filled(hs, gs, d, n, a) && forall|l: int| 0 <= l < k ==> hs[#[trigger] gs[a].players@[l] as int].cards == taken_from(gs, d, a).hole_cards@[l]
}
proof fn lemma_filling(hs: Seq<HandWithIndex>, hs2: Seq<HandWithIndex>, gs: Seq<CombinedRange>, d: Seq<int>, n: int, a: int, k: int)
    requires groups_ok(gs, n), n <= 9, 0 <= a < gs.len(), 0 <= k < gs[a].player_count, filling(hs, gs, d, n, a, k), hs2.len() == 9,
        forall|p: int| 0 <= p < 9 && p != gs[a].players@[k] ==> #[trigger] hs2[p] == hs[p], hs2[gs[a].players@[k] as int].cards == taken_from(gs, d, a).hole_cards@[k],
    ensures filling(hs2, gs, d, n, a, k + 1),
{
    let q = gs[a].players@[k] as int;
    assert(group_ok(gs[a], n));
    assert(q < n);
    assert(at_seat(gs, q, a, k));
    lemma_own_seat(gs, n, q, a, k);
    assert forall|p: int| 0 <= p < n && seat(gs, p).0 < a implies (#[trigger] hs2[p]).cards == held_by(gs, d, p) by { assert(p != q); assert(hs[p].cards == held_by(gs, d, p)); }
    assert forall|l: int| 0 <= l < k + 1 implies hs2[#[trigger] gs[a].players@[l] as int].cards == taken_from(gs, d, a).hole_cards@[l] by { if l < k { assert(gs[a].players@[l] < n); assert(own_players(gs[a])); assert(gs[a].players@[l] != gs[a].players@[k]); } }
}
proof fn lemma_filled(hs: Seq<HandWithIndex>, gs: Seq<CombinedRange>, d: Seq<int>, n: int, a: int)
    requires groups_ok(gs, n), 0 <= a < gs.len(), filling(hs, gs, d, n, a, gs[a].player_count as int),
    ensures filled(hs, gs, d, n, a + 1),
{ assert forall|p: int| 0 <= p < n && seat(gs, p).0 < a + 1 implies (#[trigger] hs[p]).cards == held_by(gs, d, p) by { lemma_seat(gs, n, p); if seat(gs, p).0 == a { let l = seat(gs, p).1; assert(hs[gs[a].players@[l] as int].cards == taken_from(gs, d, a).hole_cards@[l]); } } }
// a legal deal may be enumerated
proof fn lemma_ready(sim: Simulator, t: Table, d: Seq<int>, hs: Seq<HandWithIndex>, used: u64)
    requires sim_ok(sim), t == table(sim), choice(t.gs, d), filled(hs, t.gs, d, t.n, t.gs.len() as int), used == used_to(t.gs, d, sim.board_mask | sim.dead_mask, t.gs.len() as int),
        fits_to(t.gs, d, sim.board_mask | sim.dead_mask, t.gs.len() as int),
    ensures legal(t.gs, d, t.n, t.base), deal(hs, t.n, t.board, used), cards_of(sim.fixed_board.mask) == t.board,
        showdowns(t, d) == all_boards(deal_of(hs, t.n), t.board, unused(used), 5 - size(t.board), weight_to(t.gs, d, t.n)), slots_of(hs, t.n) == slots_of(held(t.gs, d, t.n), t.n),
        forall|p: int| 0 <= p < t.n ==> #[trigger] hs[p].cards == held_by(t.gs, d, p),
{
    let (gs, n, base) = (t.gs, t.n, sim.board_mask | sim.dead_mask);
    lemma_fits_legal(gs, d, n, base);
    lemma_deck_or(sim.board_mask, sim.dead_mask);
    lemma_used_to(gs, d, n, base, gs.len() as int);
    assert(cards_of(sim.fixed_board.mask) =~= t.board);
    assert forall|p: int| 0 <= p < n implies dealt_hand(#[trigger] hs[p]) && hs[p].cards == held_by(gs, d, p) && disjoint(t.board, cards_in(hs[p])) && mask_cards(used)[hs[p].cards.0 as int] && mask_cards(used)[hs[p].cards.1 as int] by {
        lemma_seat(gs, n, p); lemma_held(gs, d, n, p);
        let h = held_by(gs, d, p);
        assert(hs[p].cards == h);
        assert(disjoint(t.base, pair(h)));
        assert forall|x: int| 0 <= x < 52 implies !(#[trigger] t.board[x] && pair(h)[x]) by { assert(t.base[x] == (t.board[x] || mask_cards(sim.dead_mask)[x])); assert(!(t.base[x] && pair(h)[x])); }
        assert(pair(h)[h.0 as int] && pair(h)[h.1 as int]);
        assert(in_hand(gs, d, n, gs.len() as int, h.0 as int) && in_hand(gs, d, n, gs.len() as int, h.1 as int));
    }
    assert forall|c: int| 0 <= c < 52 && #[trigger] t.board[c] implies mask_cards(used)[c] by { assert(t.base[c]); }
    let hd = held(gs, d, n);
    assert(deal_of(hs, n) =~= deal_of(hd, n)) by { assert forall|p: int| 0 <= p < n implies deal_of(hs, n)[p] == deal_of(hd, n)[p] by { assert(hs[p].cards == held_by(gs, d, p)); } }
    assert(slots_of(hs, n) =~= slots_of(hd, n)) by { assert forall|p: int| 0 <= p < 9 implies slots_of(hs, n)[p] == slots_of(hd, n)[p] by { if p < n { assert(hs[p].cards == held_by(gs, d, p)); } } }
}
// one position more is counted
proof fn lemma_next_position(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, s2: SimulationResultsBatch, h2: Seq<UnitResults>, ps: Seq<int>, m: int)
    requires counted(t, l, s, h, ps, m), batch_ok(s, h, t.n), 0 <= m < ps.len(), 1 <= t.n <= 9, groups_ok(t.gs, t.n), ps[m] >= 0,
        legal(t.gs, picks_at(t.gs, ps[m]), t.n, t.base) ==> dealt(s, h, s2, h2, slots_of(held(t.gs, picks_at(t.gs, ps[m]), t.n), t.n), t.n, showdowns(t, picks_at(t.gs, ps[m]))),
        !legal(t.gs, picks_at(t.gs, ps[m]), t.n, t.base) ==> s2 == s && h2 == h,
    ensures counted(t, l, s2, h2, ps, m + 1), batch_ok(s2, h2, t.n),
{
    let d = picks_at(t.gs, ps[m]);
    let lookup = slots_of(held(t.gs, d, t.n), t.n);
    lemma_picks_at(t.gs, t.n, ps[m]);
    lemma_own_slots(t, d);
    if !legal(t.gs, d, t.n, t.base) { lemma_dealt_zero(s, h, lookup, t.n); }
    lemma_counted_step(t, l, s, h, s2, h2, ps, m);
    lemma_showdowns_support(t, d);
    lemma_batch_step(s, h, s2, h2, lookup, t.n, showdowns(t, d));
}
//@ fn src/equity_calculator/simulator.rs Simulator::enumerate_all
//@ sig &self, tx: Sender<u8> =>> &self, tx: Sender<u8>, world: &mut World
//@ rw? &player_hands, =>> player_hands.as_slice(),
//@ rw let $one_v: Vec<DividerU64> = self.combined_ranges.iter().map(|$one_c| $e).collect(); =>> let mut $one_v: Vec<DividerU64> = Vec::new(); { let mut i__: usize = 0; while i__ < self.combined_ranges.len() invariant i__ <= self.combined_ranges.len(), $one_v.len() == i__, sim_ok(*self), forall|a: int| 0 <= a < i__ ==> stands_for(#[trigger] $one_v@[a], self.combined_ranges@[a].size as u64), decreases self.combined_ranges.len() - i__ { let $one_c = &self.combined_ranges[i__]; proof { assert(group_ok(self.combined_ranges@[i__ as int], self.n_players as int)); } $one_v.push($e); i__ += 1; } }
//@ spec
    requires sim_ok(*self), self.calc_exact, consistent(old(world).results), old(world).results.wins.len() == self.n_players,
        deals(self.combined_ranges@, self.combined_ranges.len() as int) + 2000000 <= u64::MAX, old(world).pos.v <= old(world).pos.end@ == deals(self.combined_ranges@, self.combined_ranges.len() as int),
        old(world).log@.len() == 0, old(world).taken@.len() == 0, old(world).out.sent@.len() == 0, !old(world).flag.set@, !old(world).flag.own@, old(world).flag.since@ == 0, old(world).steps@.len() == 0,
    ensures consistent(final(world).results), thread_done(*self, *final(world)), steps_ok(final(world).log@, final(world).steps@, self.n_players as int), !cancelled() ==> !final(world).flag.set@,
        final(world).flag.since@ <= most_holdings(), // [C26]
        forall|i: int| 0 <= i < final(world).taken@.len() ==> 0 <= #[trigger] final(world).taken@[i] < deals(self.combined_ranges@, self.combined_ranges.len() as int),
        percentages(final(world).out.sent@),
        alone() ==> final(world).taken@ == span(old(world).pos.v as int, final(world).pos.v as int) && grown(old(world).results, final(world).results, final(world).log@)
            && climbs(final(world).out.sent@, final(world).pos.v as int, final(world).pos.end@) && (!final(world).flag.set@ ==> final(world).out.sent@.len() > 0 && final(world).out.sent@.last() == 100),
//@ at start
    let ghost w0 = *world;
    let ghost n = self.n_players as int;
    let ghost gs = self.combined_ranges@;
    let ghost t = table(*self);
    let ghost total = deals(gs, gs.len() as int);
    let ghost base = self.board_mask | self.dead_mask;
    let ghost mut m = 0int;
    let ghost mut w1 = *world;
    let ghost mut s1: SimulationResultsBatch = arbitrary();
    let ghost mut h1: Seq<UnitResults> = arbitrary();
    let ghost mut d: Seq<int> = arbitrary();
    proof { lemma_sizes(gs, n); lemma_deals(gs, gs.len() as int, gs.len() as int); }
//@ at loop 2 pre
    proof {
        lemma_fresh_batch(stats, hand_stats@, n);
        assert(world.log@ =~= Seq::<Batch>::empty());
        lemma_counted_nothing(t, stats, hand_stats@, world.taken@);
        assert(world.taken@ =~= span(w0.pos.v as int, w0.pos.v as int));
    }
//@ loop 2
    invariant_except_break !world.flag.set@, world.flag.since@ + (enum_end - enum_pos) <= most_holdings(), enum_pos <= enum_end <= total, enum_end <= world.pos.v || enum_pos == enum_end, m == world.taken@.len() - (enum_end - enum_pos), forall|i: int| m <= i < world.taken@.len() ==> #[trigger] world.taken@[i] == enum_pos + (i - m),
    invariant sim_ok(*self), self.calc_exact, n == self.n_players, gs == self.combined_ranges@, t == table(*self), total == deals(gs, gs.len() as int), base == self.board_mask | self.dead_mask, 0 < total, total + 2000000 <= u64::MAX, forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).size > 0,
        fast_dividers.len() == gs.len(), forall|a: int| 0 <= a < gs.len() ==> stands_for(#[trigger] fast_dividers@[a], gs[a].size as u64), postflop_combos >= 1,
        w0.pos.v <= world.pos.v <= world.pos.end@, world.pos.end@ == total, consistent(world.results), world.results.wins.len() == n, 0 <= m <= world.taken@.len(),
        forall|i: int| 0 <= i < world.taken@.len() ==> 0 <= #[trigger] world.taken@[i] < total,
        hand_stats.len() == 1326 * n, batch_ok(stats, hand_stats@, n), counted(t, world.log@, stats, hand_stats@, world.taken@, m), percentages(world.out.sent@), steps_ok(world.log@, world.steps@, n), !world.flag.own@, !cancelled() ==> !world.flag.set@, 0 <= world.flag.since@ <= most_holdings(),
        alone() ==> world.taken@ == span(w0.pos.v as int, world.pos.v as int) && climbs(world.out.sent@, world.pos.v as int, total) && grown(w0.results, world.results, world.log@),
    ensures world.flag.set@ || (m == world.taken@.len() && world.pos.v == total),
    decreases total - world.pos.v, enum_end - enum_pos,
//@ at loop 2 post
    proof { w1 = *world; s1 = stats; h1 = hand_stats@; }
//@ at stmt `let (p, e) =` 1 before
    proof { w1 = *world; lemma_no_more(); }
//@ at stmt `let (p, e) =` 1 after
    proof {
        lemma_counted_prefix(t, world.log@, stats, hand_stats@, w1.taken@, world.taken@, m);
        if alone() {
            assert(world.taken@ =~= span(w0.pos.v as int, world.pos.v as int));
            lemma_climbs(w1.out.sent@, world.out.sent@, w1.pos.v as int, world.pos.v as int, total);
        }
    }
//@ at stmt `let mut rand_enum_pos` 1 before
    proof { d = picks_at(gs, enum_pos as int); lemma_picks_at(gs, n, enum_pos as int); s1 = stats; h1 = hand_stats@; assert(world.taken@[m] == enum_pos); assert(may_work(world.flag, most_holdings())); world.flag.since@ = world.flag.since@ + 1; }
//@ loop 3
    invariant_except_break ok, fits_to(gs, d, base, k__3 as int), used_cards_mask == used_to(gs, d, base, k__3 as int), rand_enum_pos == quot(gs, enum_pos as int, k__3 as int), filled(player_hands@, gs, d, n, k__3 as int),
    invariant 0 <= k__3 <= e__3, e__3 == gs.len(), sim_ok(*self), n == self.n_players, gs == self.combined_ranges@, base == self.board_mask | self.dead_mask, d == picks_at(gs, enum_pos as int), choice(gs, d),
        fast_dividers.len() == gs.len(), forall|a: int| 0 <= a < gs.len() ==> stands_for(#[trigger] fast_dividers@[a], gs[a].size as u64),
    ensures ok ==> fits_to(gs, d, base, gs.len() as int) && used_cards_mask == used_to(gs, d, base, gs.len() as int) && filled(player_hands@, gs, d, n, gs.len() as int),
        !ok ==> !legal(gs, d, n, mask_cards(base)),
    decreases e__3 - k__3,
//@ at loop 3 pre
    proof { assert forall|p: int| 0 <= p < n && seat(gs, p).0 < 0 implies (#[trigger] player_hands@[p]).cards == held_by(gs, d, p) by { lemma_seat(gs, n, p); } }
//@ at loop 3 start
    let ghost a = k__3 - 1;
    proof {
        assert(group_ok(gs[a], n));
        assert(stands_for(fast_dividers@[a], gs[a].size as u64));
        lemma_quot(gs, n, enum_pos as int, a);
        let (x, y) = (rand_enum_pos as int, gs[a].size as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
        assert(0 <= (x / y) * y <= x && x - (x / y) * y == x % y && 0 <= x % y < y) by (nonlinear_arith) requires x == y * (x / y) + x % y, x >= 0, y > 0;
        assert(d[a] == digit(gs, enum_pos as int, a));
        if legal(gs, d, n, mask_cards(base)) { lemma_legal_fits(gs, d, n, base, a); }
    }
//@ loop 4
    invariant 0 <= k__4 <= e__4, e__4 == gs[a].player_count, 0 <= a < gs.len(), a == k__3 - 1, gs == self.combined_ranges@, groups_ok(gs, n), n <= 9, group_ok(gs[a], n), filling(player_hands@, gs, d, n, a, k__4 as int),
        i == a, *combo == taken_from(gs, d, a),
    decreases e__4 - k__4,
//@ at loop 4 start
    let ghost ph = player_hands@;
    proof { assert(gs[a].players@[k__4 - 1] < n); }
//@ at loop 4 end
    proof { lemma_filling(ph, player_hands@, gs, d, n, a, k__4 - 1); }
//@ at loop 4 post
    proof { lemma_filled(player_hands@, gs, d, n, a); }
//@ loop 5
    invariant 0 <= k__5 <= e__5, e__5 == n, n <= 9, n == self.n_players, groups_ok(gs, n), choice(gs, d), forall|p: int| 0 <= p < n ==> (#[trigger] player_hands@[p]).cards == held_by(gs, d, p), weight == weight_to(gs, d, k__5 as int),
    decreases e__5 - k__5,
//@ at loop 5 pre
    proof { lemma_ready(*self, t, d, player_hands@, used_cards_mask); }
//@ at loop 5 start
    proof { let p = k__5 - 1; assert(player_hands@[p].cards == held_by(gs, d, p)); lemma_weight_to(gs, d, n, p + 1); lemma_p100_up(p + 1); }
//@ at stmt `if stats.eval_count >= 10000` 1 before
    proof { lemma_next_position(t, world.log@, s1, h1, stats, hand_stats@, world.taken@, m); m = m + 1; w1 = *world; s1 = stats; h1 = hand_stats@; }
//@ at stmt `self.update_results` 1 after
    proof {
        lemma_counted_push(t, w1.log@, s1, h1, w1.taken@, m);
        lemma_any_fresh_batch(n); lemma_any_counted_again(t, world.log@, world.taken@, m);
        if alone() { lemma_climbs(w1.out.sent@, world.out.sent@, w1.pos.v as int, world.pos.v as int, total); lemma_grown(w0.results, w1.results, world.results, w1.log@, s1, h1); }
    }
//@ at end
    proof {
        lemma_counted_push(t, w1.log@, s1, h1, w1.taken@, m);
        assert(logged(t, world.log@, world.taken@, m));
        assert(percentages(world.out.sent@));
        if alone() { lemma_climbs(w1.out.sent@, world.out.sent@, w1.pos.v as int, world.pos.v as int, total); lemma_grown(w0.results, w1.results, world.results, w1.log@, s1, h1); if !world.flag.set@ { assert(percent(total, total) == 100) by (nonlinear_arith) requires total > 0; } }
    }
//@ end
} // verus!
fn main() {}
