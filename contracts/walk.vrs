// C15, C16, C24: the simulated deals.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ floats
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ include simspec
//@ include world
//@ include indexspec
//@ include boardspec
//@ include rangesok
//@ include groups
//@ include dealspec
//@ include logspec
//@ include walkspec
//@ import merge <Default for UnitResults>::default
//@ import merge SimulationResultsBatch::init
//@ import merge Simulator::update_results
//@ import combine CombinedRange::size
//@ import combine CombinedRange::combos
//@ import combine CombinedRange::players
//@ import combine CombinedRange::player_count
//@ import hand Hand::count
//@ import hand <Default for Hand>::default
//@ import count Simulator::evaluate_hands
//@ import cardindex get_card_index
//@ grw? &tx, =>> &tx, world,
//@ grw? self.stopped.load($e) =>> world.flag.load()
//@ grw? CARDS[$i] =>> cards_at($i)
//@ grw? Uniform<u8> =>> Uniform8
//@ grw? Uniform<usize> =>> UniformN
//@ grw? let $one_v: Uniform8 = Uniform::try_from(0..$e).unwrap(); =>> let $one_v: Uniform8 = below8($e);
//@ grw? let $one_v = Uniform::try_from(0..$e).unwrap(); =>> let $one_v = below($e);
pub struct Uniform8 { pub n: Ghost<int> }
pub struct UniformN { pub n: Ghost<int> }
pub open spec fn drawn(a: Gen, b: Gen, m: int, r: int) -> bool { 0 <= r < m && r == draw(a.id@, a.at@, m) && b.id == a.id && b.at@ == a.at@ + 1 }
#[verifier::external_body] fn below8(n: u8) -> (r: Uniform8) requires n > 0, ensures r.n@ == n, { unimplemented!() }
#[verifier::external_body] fn below(n: usize) -> (r: UniformN) requires n > 0, ensures r.n@ == n, { unimplemented!() }
impl Gen {
    #[verifier::external_body] fn sample(&mut self, d: &Uniform8) -> (r: u8) ensures drawn(*old(self), *final(self), d.n@, r as int), { unimplemented!() }
}
impl UniformN {
    #[verifier::external_body] fn sample(&self, g: &mut Gen) -> (r: usize) ensures drawn(*old(g), *final(g), self.n@, r as int), { unimplemented!() }
}
// ---- the board
pub open spec fn extended(b: Seq<bool>, c: Seq<bool>, u: Seq<bool>, r: int) -> bool {
    c.len() == 52 && size(c) == size(b) + r && (forall|x: int| 0 <= x < 52 && #[trigger] b[x] ==> c[x]) && (forall|x: int| 0 <= x < 52 && #[trigger] c[x] ==> b[x] || !u[x])
}
proof fn lemma_card_bit(u: u64, x: u64)
    requires x < 52,
    ensures (u & (1u64 << x) == 0) == !mask_cards(u)[x as int], forall|y: int| 0 <= y < 52 ==> #[trigger] mask_cards(u | (1u64 << x))[y] == (mask_cards(u)[y] || y == x),
{
    assert forall|y: int| 0 <= y < 52 implies #[trigger] mask_cards(u | (1u64 << x))[y] == (mask_cards(u)[y] || y == x) by { let z = y as u64; assert((u | (1u64 << x)) & (1u64 << z) != 0 <==> (u & (1u64 << z) != 0 || z == x)) by (bit_vector) requires x < 52, z < 52; }
}
//@ fn src/equity_calculator/simulator.rs randomize_board
//@ sig <R: Rng> =>>
//@ sig &mut R =>> &mut Gen
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires is_hand(*old(board), cards_of(old(board).mask)), size(cards_of(old(board).mask)) + cards_remaining <= 7, card_dist.n@ == 52, forall|x: int| 0 <= x < 52 && #[trigger] cards_of(old(board).mask)[x] ==> mask_cards(used_cards_mask)[x],
    ensures is_hand(*final(board), cards_of(final(board).mask)), extended(cards_of(old(board).mask), cards_of(final(board).mask), mask_cards(used_cards_mask), cards_remaining as int), final(rng).id == old(rng).id,
//@ at start
    let ghost b0 = cards_of(board.mask);
    let ghost u0 = mask_cards(used_cards_mask);
    proof { tables_cards(); }
//@ loop 1
    invariant 0 <= k__1 <= e__1, e__1 == cards_remaining, rng.id == old(rng).id, cards_ok(), size(b0) + cards_remaining <= 7, card_dist.n@ == 52, b0.len() == 52, is_hand(*board, cards_of(board.mask)), extended(b0, cards_of(board.mask), u0, k__1 as int),
        forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(used_cards_mask)[x] == (u0[x] || cards_of(board.mask)[x]),
    decreases e__1 - k__1,
//@ loop 2
    invariant card_dist.n@ == 52, rng.id == old(rng).id,
    ensures card < 52, card_mask == 1u64 << (card as u64), used_cards_mask & card_mask == 0,
//@ at stmt `used_cards_mask |= card_mask` 1 before
    proof { lemma_card_bit(used_cards_mask, card as u64); lemma_deal_card(*board, cards_of(board.mask), card as int); lemma_grow(b0, cards_of(board.mask), u0, k__1 - 1, card as int); }
//@ end
proof fn lemma_grow(b: Seq<bool>, c: Seq<bool>, u: Seq<bool>, r: int, x: int)
    requires b.len() == 52, c.len() == 52, 0 <= x < 52, extended(b, c, u, r), !c[x], !u[x], size(c) < 7, cards_ok(),
    ensures extended(b, c.update(x, true), u, r + 1),
{ lemma_insert(c, x); }

// ---- the players' hands
// at most one group for each player
proof fn lemma_few_groups(gs: Seq<CombinedRange>, n: int)
    requires groups_ok(gs, n), 0 <= n,
    ensures gs.len() <= n,
{
    let f = Seq::new(gs.len(), |a: int| gs[a].players@[0] as int);
    assert forall|a: int| 0 <= a < gs.len() implies 0 <= #[trigger] f[a] < n by { assert(group_ok(gs[a], n)); }
    assert forall|a: int, b: int| 0 <= a < gs.len() && 0 <= b < gs.len() && a != b implies f[a] != f[b] by { assert(group_ok(gs[a], n)); assert(group_ok(gs[b], n)); assert(no_common(gs[a], gs[b])); assert(gs[a].players@[0] != gs[b].players@[0]); }
    assert(f.no_duplicates());
    f.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert(f.to_set().subset_of(vstd::set_lib::set_int_range(0, n)));
    vstd::set_lib::lemma_len_subset(f.to_set(), vstd::set_lib::set_int_range(0, n));
}
// player p's hand, the slot of its record and its weight
pub open spec fn sits(h: Hand, i: usize, w: u8, c: (u8, u8, u8), p: int) -> bool { holds(h, pair(c), 0) && i == 1326 * p + index_of(c.0 as int, c.1 as int) && w == c.2 }
pub struct Seats { pub hands: Seq<Hand>, pub lookup: Seq<usize>, pub weights: Seq<u8> }
pub open spec fn in_seat(s: Seats, gs: Seq<CombinedRange>, d: Seq<int>, p: int) -> bool { sits(s.hands[p], s.lookup[p], s.weights[p], held_by(gs, d, p), p) }
pub open spec fn sized(s: Seats, n: int) -> bool { s.hands.len() == 9 && s.lookup.len() == 9 && s.weights.len() == 9 && forall|p: int| n <= p < 9 ==> #[trigger] s.weights[p] == 1 }
// the players of the groups in g have their hands of the deal d
pub open spec fn sitting(s: Seats, gs: Seq<CombinedRange>, d: Seq<int>, n: int, g: spec_fn(int) -> bool) -> bool { sized(s, n) && forall|p: int| 0 <= p < n && g(seat(gs, p).0) ==> #[trigger] in_seat(s, gs, d, p) }
// and the first k of group a
pub open spec fn seating(s: Seats, gs: Seq<CombinedRange>, d: Seq<int>, n: int, g: spec_fn(int) -> bool, a: int, k: int) -> bool { sitting(s, gs, d, n, g) && forall|l: int| 0 <= l < k ==> in_seat(s, gs, d, #[trigger] gs[a].players@[l] as int) }
pub open spec fn below_group(a: int) -> spec_fn(int) -> bool { |b: int| b < a }
pub open spec fn not_group(a: int) -> spec_fn(int) -> bool { |b: int| b != a }
pub open spec fn every_group() -> spec_fn(int) -> bool { |b: int| true }
proof fn lemma_seating(s: Seats, s2: Seats, gs: Seq<CombinedRange>, d: Seq<int>, n: int, g: spec_fn(int) -> bool, a: int, k: int)
    requires groups_ok(gs, n), n <= 9, 0 <= a < gs.len(), 0 <= k < gs[a].player_count, seating(s, gs, d, n, g, a, k), !g(a), sized(s2, n),
        forall|p: int| 0 <= p < 9 && p != gs[a].players@[k] ==> #[trigger] s2.hands[p] == s.hands[p] && s2.lookup[p] == s.lookup[p] && s2.weights[p] == s.weights[p],
        0 <= d[a] < gs[a].combos.len(),
        s2.hands[gs[a].players@[k] as int] == taken_from(gs, d, a).hands@[k],
        s2.weights[gs[a].players@[k] as int] == taken_from(gs, d, a).hole_cards@[k].2,
        s2.lookup[gs[a].players@[k] as int] == 1326 * gs[a].players@[k] + index_of(taken_from(gs, d, a).hole_cards@[k].0 as int, taken_from(gs, d, a).hole_cards@[k].1 as int),
    ensures seating(s2, gs, d, n, g, a, k + 1),
{
    let q = gs[a].players@[k] as int;
    assert(group_ok(gs[a], n));
    assert(q < n);
    assert(at_seat(gs, q, a, k));
    lemma_own_seat(gs, n, q, a, k);
    assert(combo_ok(gs[a].combos@[d[a]], gs[a].player_count as int));
    assert(holds(taken_from(gs, d, a).hands@[k], pair(taken_from(gs, d, a).hole_cards@[k]), 0));
    assert(in_seat(s2, gs, d, q));
    assert forall|p: int| 0 <= p < n && g(seat(gs, p).0) implies #[trigger] in_seat(s2, gs, d, p) by { assert(p != q); assert(in_seat(s, gs, d, p)); assert(s2.hands[p] == s.hands[p]); }
    assert forall|l: int| 0 <= l < k + 1 implies in_seat(s2, gs, d, #[trigger] gs[a].players@[l] as int) by {
        if l < k { let p = gs[a].players@[l] as int; assert(p < n); assert(own_players(gs[a])); assert(p != q); assert(in_seat(s, gs, d, p)); assert(s2.hands[p] == s.hands[p]); }
    }
}
proof fn lemma_seated(s: Seats, gs: Seq<CombinedRange>, d: Seq<int>, n: int, g: spec_fn(int) -> bool, a: int, h: spec_fn(int) -> bool)
    requires groups_ok(gs, n), 0 <= a < gs.len(), seating(s, gs, d, n, g, a, gs[a].player_count as int), forall|b: int| 0 <= b < gs.len() && #[trigger] h(b) ==> g(b) || b == a,
    ensures sitting(s, gs, d, n, h),
{ assert forall|p: int| 0 <= p < n && h(seat(gs, p).0) implies #[trigger] in_seat(s, gs, d, p) by { lemma_seat(gs, n, p); if seat(gs, p).0 == a { let l = seat(gs, p).1; assert(in_seat(s, gs, d, gs[a].players@[l] as int)); } } }
// another holding for group a does not concern the others
proof fn lemma_other_seats(s: Seats, gs: Seq<CombinedRange>, d: Seq<int>, e: Seq<int>, n: int, g: spec_fn(int) -> bool, h: spec_fn(int) -> bool, a: int)
    requires groups_ok(gs, n), sitting(s, gs, d, n, g), forall|b: int| 0 <= b < gs.len() && #[trigger] h(b) ==> g(b) && b != a, forall|b: int| 0 <= b < gs.len() && b != a ==> d[b] == e[b],
    ensures sitting(s, gs, e, n, h),
{ assert forall|p: int| 0 <= p < n && h(seat(gs, p).0) implies #[trigger] in_seat(s, gs, e, p) by { lemma_seat(gs, n, p); assert(in_seat(s, gs, d, p)); } }
proof fn lemma_same_used(gs: Seq<CombinedRange>, d: Seq<int>, e: Seq<int>, base: u64, k: int)
    requires 0 <= k <= gs.len(), forall|b: int| 0 <= b < k ==> d[b] == e[b],
    ensures used_to(gs, d, base, k) == used_to(gs, e, base, k), fits_to(gs, d, base, k) == fits_to(gs, e, base, k),
    decreases k,
{
    if k > 0 {
        lemma_same_used(gs, d, e, base, k - 1);
        assert forall|i: int| 0 <= i < k implies used_to(gs, d, base, i) == used_to(gs, e, base, i) && #[trigger] taken_from(gs, d, i) == taken_from(gs, e, i) by { lemma_same_used(gs, d, e, base, i); }
        assert forall|i: int| 0 <= i < k implies used_to(gs, d, base, i) == used_to(gs, e, base, i) && taken_from(gs, d, i) == #[trigger] taken_from(gs, e, i) by { lemma_same_used(gs, d, e, base, i); }
    }
}
pub open spec fn chosen(idx: Seq<usize>, m: nat) -> Seq<int> { Seq::new(m, |a: int| idx[a] as int) }
pub open spec fn used_by(gs: Seq<CombinedRange>, d: Seq<int>, n: int, base: Seq<bool>, used: u64) -> bool { forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(used)[x] == (base[x] || in_hand(gs, d, n, gs.len() as int, x)) }
// a legal deal, with the players seated
pub open spec fn standing(t: Table, d: Seq<int>, s: Seats, used: u64) -> bool { choice(t.gs, d) && legal(t.gs, d, t.n, t.base) && used_by(t.gs, d, t.n, t.base, used) && sitting(s, t.gs, d, t.n, every_group()) }
//@ fn src/equity_calculator/simulator.rs Simulator::randomize_hole_cards
//@ ret r
//@ sig <R: Rng> =>>
//@ sig &mut R =>> &mut Gen
//@ sig combo_indexes: &mut [usize] =>> combo_indexes: &mut [usize; 9]
//@ sig player_hands: &mut [Hand] =>> player_hands: &mut [Hand; 9]
//@ sig combo_weights: &mut [u8] =>> combo_weights: &mut [u8; 9]
//@ sig [usize;MAX_PLAYERS] =>> [usize; 9]
//@ sig [Uniform<usize>] =>> [UniformN]
//@ rw let mut ok; =>> let mut ok = true;
//@ spec
    requires sim_ok(*self), combo_dists.len() == self.combined_ranges.len(), forall|a: int| 0 <= a < combo_dists.len() ==> (#[trigger] combo_dists@[a]).n@ == self.combined_ranges@[a].size,
        forall|p: int| self.n_players <= p < 9 ==> #[trigger] old(combo_weights)@[p] == 1,
    ensures r ==> standing(table(*self), chosen(final(combo_indexes)@, self.combined_ranges@.len()), Seats { hands: final(player_hands)@, lookup: final(lookup)@, weights: final(combo_weights)@ }, *final(used_cards_mask)),
        !r ==> exists|at: Seq<int>| at.len() == 1000 && #[trigger] failures(self.combined_ranges@, self.n_players as int, mask_cards(self.board_mask | self.dead_mask), final(rng).id@, at),
        final(rng).id == old(rng).id,
//@ at start
    let ghost gs = self.combined_ranges@;
    let ghost n = self.n_players as int;
    let ghost base = self.board_mask | self.dead_mask;
    let ghost mut d: Seq<int> = arbitrary();
    let ghost mut at: Seq<int> = Seq::empty();
    let ghost mut c0 = 0int;
    let ghost id = rng.id@;
    proof { lemma_few_groups(gs, n); }
//@ loop 1
    invariant 0 <= k__1 <= e__1, e__1 == 1000, sim_ok(*self), gs == self.combined_ranges@, n == self.n_players, base == self.board_mask | self.dead_mask, gs.len() <= 9, combo_dists.len() == gs.len(), forall|a: int| 0 <= a < combo_dists.len() ==> (#[trigger] combo_dists@[a]).n@ == gs[a].size,
        forall|p: int| n <= p < 9 ==> #[trigger] combo_weights@[p] == 1, rng.id@ == id, old(rng).id@ == id,
        at.len() == k__1, failures(gs, n, mask_cards(base), id, at), forall|i: int| 0 <= i < at.len() ==> #[trigger] at[i] < rng.at@,
    decreases e__1 - k__1,
//@ at loop 2 pre
    proof { d = chosen(combo_indexes@, gs.len()); c0 = rng.at@; lemma_no_one(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, n); }
//@ loop 2
    invariant_except_break ok, fits_to(gs, d, base, k__2 as int), *used_cards_mask == used_to(gs, d, base, k__2 as int), sitting(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, n, below_group(k__2 as int)), rng.at@ == c0 + k__2,
    invariant 0 <= k__2 <= e__2, e__2 == gs.len(), sim_ok(*self), gs == self.combined_ranges@, n == self.n_players, base == self.board_mask | self.dead_mask, gs.len() <= 9, combo_dists.len() == gs.len(), forall|a: int| 0 <= a < combo_dists.len() ==> (#[trigger] combo_dists@[a]).n@ == gs[a].size,
        d == chosen(combo_indexes@, gs.len()), forall|a: int| 0 <= a < k__2 ==> 0 <= #[trigger] d[a] < gs[a].combos.len() && d[a] == draw(id, c0 + a, gs[a].size as int), rng.id@ == id,
        forall|p: int| n <= p < 9 ==> #[trigger] combo_weights@[p] == 1,
    ensures ok ==> fits_to(gs, d, base, gs.len() as int) && (forall|a: int| 0 <= a < gs.len() ==> 0 <= #[trigger] d[a] < gs[a].combos.len()) && d.len() == gs.len() && *used_cards_mask == used_to(gs, d, base, gs.len() as int) && sitting(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, n, below_group(gs.len() as int)),
        !ok ==> !legal(gs, attempt(gs, id, c0), n, mask_cards(base)) && rng.at@ > c0,
    decreases e__2 - k__2,
//@ at loop 2 start
    let ghost a = k__2 - 1;
    let ghost d0 = d;
    proof { assert(group_ok(gs[a], n)); }
//@ at stmt `let combo` 2 before
    proof {
        d = chosen(combo_indexes@, gs.len());
        assert forall|b: int| 0 <= b < gs.len() && b != a implies d[b] == d0[b] by {}
        assert(d[a] == draw(id, c0 + a, gs[a].size as int));
        lemma_same_used(gs, d0, d, base, a);
        lemma_other_seats(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d0, d, n, below_group(a), below_group(a), a);
        let e = attempt(gs, id, c0);
        lemma_same_used(gs, d, e, base, a);
        if legal(gs, e, n, mask_cards(base)) { assert(choice(gs, e)) by { assert forall|b: int| 0 <= b < gs.len() implies 0 <= #[trigger] e[b] < gs[b].combos.len() by { assert(group_ok(gs[b], n)); lemma_draw(id, c0 + b, gs[b].size as int); } } lemma_legal_fits(gs, e, n, base, a); }
    }
//@ loop 3
    invariant 0 <= k__3 <= e__3, e__3 == gs[a].player_count, 0 <= a < gs.len(), a == k__2 - 1, i == a, gs == self.combined_ranges@, groups_ok(gs, n), 0 <= n <= 9, group_ok(gs[a], n), *combo == taken_from(gs, d, a), 0 <= d[a] < gs[a].combos.len(),
        seating(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, n, below_group(a), a, k__3 as int),
    decreases e__3 - k__3,
//@ at loop 3 start
    let ghost s0 = Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ };
    proof { assert(gs[a].players@[k__3 - 1] < n); assert(combo_ok(gs[a].combos@[d[a]], gs[a].player_count as int)); assert(dealt_cards(combo.hole_cards@[k__3 - 1])); }
//@ at loop 3 end
    proof { lemma_seating(s0, Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, n, below_group(a), a, k__3 - 1); }
//@ at loop 3 post
    proof { lemma_seated(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, n, below_group(a), a, below_group(a + 1)); }
//@ at loop 2 post
    proof {
        if ok { lemma_everyone(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, n); lemma_fits_legal(gs, d, n, base); lemma_used_to(gs, d, n, base, gs.len() as int); }
        else { at = at.push(c0); }
    }
//@ end
pub axiom fn lemma_draw(g: int, k: int, m: int) requires m > 0, ensures 0 <= draw(g, k, m) < m;
proof fn lemma_no_one(s: Seats, gs: Seq<CombinedRange>, d: Seq<int>, n: int)
    requires groups_ok(gs, n), sized(s, n),
    ensures sitting(s, gs, d, n, below_group(0)),
{ assert forall|p: int| 0 <= p < n && below_group(0)(seat(gs, p).0) implies #[trigger] in_seat(s, gs, d, p) by { lemma_seat(gs, n, p); } }
proof fn lemma_everyone(s: Seats, gs: Seq<CombinedRange>, d: Seq<int>, n: int)
    requires groups_ok(gs, n), sitting(s, gs, d, n, below_group(gs.len() as int)),
    ensures sitting(s, gs, d, n, every_group()),
{ assert forall|p: int| 0 <= p < n && every_group()(seat(gs, p).0) implies #[trigger] in_seat(s, gs, d, p) by { lemma_seat(gs, n, p); assert(below_group(gs.len() as int)(seat(gs, p).0)); } }

// the log and the batch at hand hold the counts of the samples
pub open spec fn tallied(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, xs: Seq<Sample>) -> bool {
    &&& h.len() == 1326 * t.n
    &&& forall|w: int| 0 <= w < 512 ==> log_wins(l, l.len() as int, w) + #[trigger] s.wins_by_mask@[w] == outcomes(t, xs)[w]
    &&& forall|i: int| 0 <= i < h.len() ==> unit_logged(l, l.len() as int, #[trigger] h[i], i, outcomes_for(t, xs, i))
}
proof fn lemma_tallied_step(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, s2: SimulationResultsBatch, h2: Seq<UnitResults>, xs: Seq<Sample>, x: Sample, lookup: Seq<usize>)
    requires tallied(t, l, s, h, xs), batch_ok(s, h, t.n), 1 <= t.n <= 9, groups_ok(t.gs, t.n), fair(t, x), dealt(s, h, s2, h2, lookup, t.n, outcome(t, x)), own_slots(lookup, t.n, 1326 * t.n), forall|p: int| 0 <= p < t.n ==> #[trigger] lookup[p] == slot_in(t, x.d, p),
    ensures tallied(t, l, s2, h2, xs.push(x)), batch_ok(s2, h2, t.n),
{
    let y = outcome(t, x);
    let st = strengths(x.board, deal_of(held(t.gs, x.d, t.n), t.n));
    lemma_winner_set(st); lemma_p2(t.n); lemma_weight_nonneg(t.gs, x.d, t.n);
    lemma_batch_step(s, h, s2, h2, lookup, t.n, y);
    let ys = xs.push(x);
    assert(ys.drop_last() =~= xs);
    assert(ys.last() == x);
    assert(outcomes(t, ys) == plus(outcomes(t, xs), y));
    assert forall|w: int| 0 <= w < 512 implies log_wins(l, l.len() as int, w) + #[trigger] s2.wins_by_mask@[w] == outcomes(t, ys)[w] by { assert(s2.wins_by_mask@[w] == s.wins_by_mask@[w] + y[w]); }
    assert forall|i: int| 0 <= i < h2.len() implies unit_logged(l, l.len() as int, #[trigger] h2[i], i, outcomes_for(t, ys, i)) by {
        let (p, z) = (i / 1326, outcome_for(t, x, i));
        assert(0 <= p < t.n) by (nonlinear_arith) requires 0 <= i < 1326 * t.n, p == i / 1326;
        assert(outcomes_for(t, ys, i) == plus(outcomes_for(t, xs, i), z));
        lemma_outcomes_are_tallies(t, xs, i);
        lemma_plus(outcomes_for(t, xs, i), z, p, 512);
        assert(unit_logged(l, l.len() as int, h[i], i, outcomes_for(t, xs, i)));
        if slot_in(t, x.d, p) == i { assert(lookup[p] == i); assert(tally_added(h[lookup[p] as int], h2[lookup[p] as int], y, p)); }
        else {
            assert forall|q: int| 0 <= q < t.n implies #[trigger] lookup[q] != i by { if lookup[q] == i { assert(q == p) by (nonlinear_arith) requires 1326 * q <= i < 1326 * (q + 1), p == i / 1326; } }
            assert(h2[i] == h[i]);
            lemma_zero_tally(p, 512);
        }
    }
}
proof fn lemma_tallied_nothing(t: Table, s: SimulationResultsBatch, h: Seq<UnitResults>)
    requires fresh_batch(s, t.n), fresh_hands(h, t.n), 1 <= t.n <= 9,
    ensures tallied(t, Seq::empty(), s, h, Seq::empty()),
{ assert forall|i: int| 0 <= i < h.len() implies unit_logged(Seq::empty(), 0, #[trigger] h[i], i, outcomes_for(t, Seq::empty(), i)) by { lemma_zero_tally(i / 1326, 512); assert(empty_unit(h[i])); } }
proof fn lemma_tallied_push(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, xs: Seq<Sample>)
    requires tallied(t, l, s, h, xs),
    ensures recorded(t, l.push(Batch { s, h }), xs),
{
    let b = Batch { s, h };
    let l2 = l.push(b);
    let k = l.len() as int;
    assert(l2[k] == b);
    assert forall|w: int| 0 <= w < 512 implies #[trigger] log_wins(l2, l2.len() as int, w) == outcomes(t, xs)[w] by { lemma_log_push(l, b, k, w, 0); assert(log_wins(l, k, w) + s.wins_by_mask@[w] == outcomes(t, xs)[w]); }
    assert forall|i: int| 0 <= i < 1326 * t.n implies #[trigger] hand_total(l2, l2.len() as int, i) == all_of(outcomes_for(t, xs, i), 512) && hand_wins(l2, l2.len() as int, i) == won(outcomes_for(t, xs, i), i / 1326, 512)
        && hand_ties(l2, l2.len() as int, i) == tied(outcomes_for(t, xs, i), i / 1326, 512) && hand_shares(l2, l2.len() as int, i) == split(outcomes_for(t, xs, i), i / 1326, 512) by { lemma_log_push(l, b, k, 0, i); assert(unit_logged(l, k, h[i], i, outcomes_for(t, xs, i))); }
}
proof fn lemma_tallied_again(t: Table, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>, xs: Seq<Sample>)
    requires recorded(t, l, xs), fresh_batch(s, t.n), fresh_hands(h, t.n),
    ensures tallied(t, l, s, h, xs),
{ assert forall|i: int| 0 <= i < h.len() implies unit_logged(l, l.len() as int, #[trigger] h[i], i, outcomes_for(t, xs, i)) by { assert(empty_unit(h[i])); assert(hand_total(l, l.len() as int, i) == all_of(outcomes_for(t, xs, i), 512)); } }
proof fn lemma_any_tallied_again(t: Table, l: Seq<Batch>, xs: Seq<Sample>)
    requires recorded(t, l, xs),
    ensures forall|s: SimulationResultsBatch, h: Seq<UnitResults>| fresh_batch(s, t.n) && fresh_hands(h, t.n) ==> #[trigger] tallied(t, l, s, h, xs),
{ assert forall|s: SimulationResultsBatch, h: Seq<UnitResults>| fresh_batch(s, t.n) && fresh_hands(h, t.n) implies #[trigger] tallied(t, l, s, h, xs) by { lemma_tallied_again(t, l, s, h, xs); } }
// ---- what a seated deal and a board give
proof fn lemma_pair_size(a: int, b: int)
    requires 0 <= a < 52, 0 <= b < 52, a != b,
    ensures size(two_cards(a, b)) == 2,
{
    lemma_none();
    lemma_insert(no_cards(), a);
    let s = no_cards().update(a, true);
    lemma_insert(s, b);
    assert(s.update(b, true) =~= two_cards(a, b));
}
proof fn lemma_sample(sim: Simulator, d: Seq<int>, s: Seats, used: u64, c: Seq<bool>)
    requires sim_ok(sim), standing(table(sim), d, s, used), extended(table(sim).board, c, mask_cards(used | sim.dead_mask), 5 - size(table(sim).board)),
    ensures ({ let t = table(sim); fair(t, Sample { d, board: c })
}), ({ let t = table(sim);
        own_slots(s.lookup, t.n, 1326 * t.n) && (forall|p: int| 0 <= p < t.n ==> #[trigger] s.lookup[p] == slot_in(t, d, p)) }), ({ let t = table(sim);
        (forall|p: int| 0 <= p < t.n ==> holds_two(#[trigger] s.hands[p]) && disjoint(c, cards_of(s.hands[p].mask))) }), ({ let t = table(sim);
        hole_cards(s.hands, t.n) =~= deal_of(held(t.gs, d, t.n), t.n) }),
{
    let t = table(sim);
    theorem_bijection();
    lemma_deck_or(used, sim.dead_mask);
    lemma_deck_or(sim.board_mask, sim.dead_mask);
    let f = free_cards(t.gs, d, t.n, t.base);
    assert forall|x: int| 0 <= x < 52 && #[trigger] c[x] implies t.board[x] || f[x] by { assert(t.board[x] || !mask_cards(used | sim.dead_mask)[x]); }
    assert forall|p: int| 0 <= p < t.n implies holds_two(#[trigger] s.hands[p]) && disjoint(c, cards_of(s.hands[p].mask)) && s.lookup[p] == slot_in(t, d, p) && 1326 * p <= s.lookup[p] < 1326 * (p + 1) && s.lookup[p] < 1326 * t.n && cards_of(s.hands[p].mask) =~= pair(held_by(t.gs, d, p)) by {
        let h = held_by(t.gs, d, p);
        assert(in_seat(s, t.gs, d, p));
        lemma_held(t.gs, d, t.n, p);
        lemma_pair_size(h.0 as int, h.1 as int);
        assert(0 <= index_of(h.0 as int, h.1 as int) < 1326);
        assert(cards_of(s.hands[p].mask) =~= pair(h));
        assert(disjoint(t.base, pair(h)));
        assert forall|x: int| 0 <= x < 52 implies !(#[trigger] c[x] && cards_of(s.hands[p].mask)[x]) by {
            if c[x] && pair(h)[x] {
                assert(in_hand(t.gs, d, t.n, t.gs.len() as int, x)) by { lemma_seat(t.gs, t.n, p); }
                assert(!(t.base[x] && pair(h)[x]));
                assert(t.base[x] == (t.board[x] || mask_cards(sim.dead_mask)[x]));
            }
        }
    }
    assert(hole_cards(s.hands, t.n) =~= deal_of(held(t.gs, d, t.n), t.n));
    assert forall|p: int| 0 <= p < t.n implies #[trigger] s.lookup[p] == slot_in(t, d, p) && 1326 * p <= s.lookup[p] < 1326 * (p + 1) && s.lookup[p] < 1326 * t.n by { assert(holds_two(s.hands[p])); }
}
// ---- a step: another holding for one group
proof fn lemma_drop(u: u64, m: u64)
    requires m < 0x10_0000_0000_0000, forall|x: int| 0 <= x < 52 && #[trigger] mask_cards(m)[x] ==> mask_cards(u)[x],
    ensures m <= u, u - m == u & !m, m & sub(u, m) == 0, forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(u & !m)[x] == (mask_cards(u)[x] && !mask_cards(m)[x]),
{
    let v = m & !u;
    if v != 0 {
        assert(v < 0x10_0000_0000_0000) by (bit_vector) requires v == m & !u, m < 0x10_0000_0000_0000;
        assert(1u64 << 52u64 == 0x10_0000_0000_0000) by (bit_vector);
        let y = some_bit(v, 52);
        let z = y as u64;
        assert(m & (1u64 << z) != 0 && u & (1u64 << z) == 0) by (bit_vector) requires m & !u & (1u64 << z) != 0, z < 64;
        assert(mask_cards(m)[y] && !mask_cards(u)[y]);
    }
    assert(m <= u && sub(u, m) == u & !m && m & sub(u, m) == 0) by (bit_vector) requires m & !u == 0;
    assert forall|x: int| 0 <= x < 52 implies #[trigger] mask_cards(u & !m)[x] == (mask_cards(u)[x] && !mask_cards(m)[x]) by { let z = x as u64; assert((u & !m) & (1u64 << z) != 0 <==> (u & (1u64 << z) != 0 && m & (1u64 << z) == 0)) by (bit_vector) requires z < 64; }
}
// the cards in use without those of group a
pub open spec fn without(t: Table, d: Seq<int>, a: int, used: u64) -> bool {
    forall|x: int| 0 <= x < 52 ==> #[trigger] mask_cards(used)[x] == (t.base[x] || exists|p: int| 0 <= p < t.n && seat(t.gs, p).0 != a && pair(#[trigger] held_by(t.gs, d, p))[x])
}
proof fn lemma_stand_up(t: Table, d: Seq<int>, s: Seats, used: u64, a: int)
    requires groups_ok(t.gs, t.n), t.n <= 9, standing(t, d, s, used), 0 <= a < t.gs.len(),
    ensures ({ let m = taken_from(t.gs, d, a).mask; m <= used && without(t, d, a, (used - m) as u64) && m & ((used - m) as u64) == 0 }),
{
    let (gs, n) = (t.gs, t.n);
    let m = taken_from(gs, d, a).mask;
    lemma_group_cards(gs, d, n, a, 0);
    assert forall|x: int| 0 <= x < 52 && #[trigger] mask_cards(m)[x] implies mask_cards(used)[x] by {
        lemma_group_cards(gs, d, n, a, x);
        let p = choose|p: int| 0 <= p < n && seat(gs, p).0 == a && pair(#[trigger] held_by(gs, d, p))[x];
        assert(in_hand(gs, d, n, gs.len() as int, x));
    }
    lemma_drop(used, m);
    let r = used & !m;
    assert forall|x: int| 0 <= x < 52 implies #[trigger] mask_cards(r)[x] == (t.base[x] || exists|p: int| 0 <= p < n && seat(gs, p).0 != a && pair(#[trigger] held_by(gs, d, p))[x]) by {
        lemma_group_cards(gs, d, n, a, x);
        assert(mask_cards(used)[x] == (t.base[x] || in_hand(gs, d, n, gs.len() as int, x)));
        if mask_cards(m)[x] {
            let q = choose|q: int| 0 <= q < n && seat(gs, q).0 == a && pair(#[trigger] held_by(gs, d, q))[x];
            assert(disjoint(t.base, pair(held_by(gs, d, q))));
            assert forall|p: int| 0 <= p < n && seat(gs, p).0 != a implies !pair(#[trigger] held_by(gs, d, p))[x] by { lemma_legal_two(t, d, p, q); assert(!(pair(held_by(gs, d, p))[x] && pair(held_by(gs, d, q))[x])); }
        } else {
            if in_hand(gs, d, n, gs.len() as int, x) { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 < gs.len() && pair(#[trigger] held_by(gs, d, p))[x]; assert(seat(gs, p).0 != a); }
            if exists|p: int| 0 <= p < n && seat(gs, p).0 != a && pair(#[trigger] held_by(gs, d, p))[x] { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 != a && pair(#[trigger] held_by(gs, d, p))[x]; lemma_seat(gs, n, p); assert(in_hand(gs, d, n, gs.len() as int, x)); }
        }
    }
}
proof fn lemma_legal_two(t: Table, d: Seq<int>, p: int, q: int)
    requires legal(t.gs, d, t.n, t.base), 0 <= p < t.n, 0 <= q < t.n, p != q,
    ensures disjoint(pair(held_by(t.gs, d, p)), pair(held_by(t.gs, d, q))),
{
    if p < q { assert(disjoint(pair(held_by(t.gs, d, p)), pair(held_by(t.gs, d, q)))); }
    else { assert(disjoint(pair(held_by(t.gs, d, q)), pair(held_by(t.gs, d, p)))); assert forall|x: int| 0 <= x < 52 implies !(#[trigger] pair(held_by(t.gs, d, p))[x] && pair(held_by(t.gs, d, q))[x]) by { assert(!(pair(held_by(t.gs, d, q))[x] && pair(held_by(t.gs, d, p))[x])); } }
}
proof fn lemma_sit_down(t: Table, d: Seq<int>, a: int, c: int, used: u64)
    requires groups_ok(t.gs, t.n), t.n <= 9, choice(t.gs, d), legal(t.gs, d, t.n, t.base), 0 <= a < t.gs.len(), 0 <= c < t.gs[a].combos.len(), without(t, d, a, used), t.gs[a].combos@[c].mask & used == 0,
    ensures ({ let e = d.update(a, c); choice(t.gs, e) && legal(t.gs, e, t.n, t.base) && used_by(t.gs, e, t.n, t.base, used | t.gs[a].combos@[c].mask) }),
{
    let (gs, n, e) = (t.gs, t.n, d.update(a, c));
    let m = gs[a].combos@[c].mask;
    assert(taken_from(gs, e, a).mask == m);
    assert(choice(gs, e));
    lemma_group_cards(gs, e, n, a, 0);
    assert(used & m == 0) by (bit_vector) requires m & used == 0;
    lemma_deck_and(used, m);
    lemma_deck_or(used, m);
    assert forall|p: int| 0 <= p < n && seat(gs, p).0 != a implies held_by(gs, e, p) == #[trigger] held_by(gs, d, p) by { lemma_seat(gs, n, p); }
    assert forall|p: int| 0 <= p < n && seat(gs, p).0 == a implies disjoint(mask_cards(used), pair(#[trigger] held_by(gs, e, p))) by {
        assert forall|x: int| 0 <= x < 52 implies !(#[trigger] mask_cards(used)[x] && pair(held_by(gs, e, p))[x]) by { if pair(held_by(gs, e, p))[x] { lemma_group_cards(gs, e, n, a, x); assert(mask_cards(m)[x]); } }
    }
    assert forall|p: int| 0 <= p < n implies disjoint(t.base, pair(#[trigger] held_by(gs, e, p))) by {
        if seat(gs, p).0 == a {
            assert(disjoint(mask_cards(used), pair(held_by(gs, e, p))));
            assert forall|x: int| 0 <= x < 52 implies !(#[trigger] t.base[x] && pair(held_by(gs, e, p))[x]) by { assert(!(mask_cards(used)[x] && pair(held_by(gs, e, p))[x])); }
        } else { assert(held_by(gs, e, p) == held_by(gs, d, p)); }
    }
    assert forall|p: int, q: int| 0 <= p < q < n implies disjoint(pair(#[trigger] held_by(gs, e, p)), pair(#[trigger] held_by(gs, e, q))) by {
        let (f, g) = (pair(held_by(gs, e, p)), pair(held_by(gs, e, q)));
        lemma_seat(gs, n, p); lemma_seat(gs, n, q);
        let (b1, b2) = (seat(gs, p).0 == a, seat(gs, q).0 == a);
        if b1 && b2 {
            let x = gs[a].combos@[c];
            assert(combo_ok(gs[a].combos@[c], gs[a].player_count as int));
            let (k, l) = (seat(gs, p).1, seat(gs, q).1);
            assert(k != l);
            if k < l { assert(disjoint(pair(x.hole_cards@[k]), pair(x.hole_cards@[l]))); } else { assert(disjoint(pair(x.hole_cards@[l]), pair(x.hole_cards@[k]))); assert forall|y: int| 0 <= y < 52 implies !(#[trigger] f[y] && g[y]) by { assert(!(g[y] && f[y])); } }
        } else if b1 || b2 {
            let (i, o) = if b1 { (p, q) } else { (q, p) };
            assert(held_by(gs, e, o) == held_by(gs, d, o));
            assert(disjoint(mask_cards(used), pair(held_by(gs, e, i))));
            assert forall|y: int| 0 <= y < 52 implies !(#[trigger] f[y] && g[y]) by { if f[y] && g[y] { assert(pair(held_by(gs, d, o))[y]); assert(mask_cards(used)[y]); assert(pair(held_by(gs, e, i))[y]); } }
        } else { assert(held_by(gs, e, p) == held_by(gs, d, p) && held_by(gs, e, q) == held_by(gs, d, q)); }
    }
    assert forall|x: int| 0 <= x < 52 implies #[trigger] mask_cards(used | m)[x] == (t.base[x] || in_hand(gs, e, n, gs.len() as int, x)) by {
        lemma_group_cards(gs, e, n, a, x);
        assert(mask_cards(used | m)[x] == (mask_cards(used)[x] || mask_cards(m)[x]));
        if mask_cards(m)[x] { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 == a && pair(#[trigger] held_by(gs, e, p))[x]; assert(in_hand(gs, e, n, gs.len() as int, x)); }
        if mask_cards(used)[x] && !t.base[x] { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 != a && pair(#[trigger] held_by(gs, d, p))[x]; lemma_seat(gs, n, p); assert(pair(held_by(gs, e, p))[x]); assert(in_hand(gs, e, n, gs.len() as int, x)); }
        if in_hand(gs, e, n, gs.len() as int, x) { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 < gs.len() && pair(#[trigger] held_by(gs, e, p))[x]; if seat(gs, p).0 != a { assert(pair(held_by(gs, d, p))[x]); } }
    }
}

pub open spec fn under_way(a: World, b: World) -> bool {
    alone() ==> grown(a.results, b.results, b.log@) && b.results.eval_count == a.results.eval_count + 4096 * b.log@.len() && b.results.batch_count.r@ == a.results.batch_count.r@ + rl(b.log@.len() as int)
}
proof fn lemma_nine_weights(t: Table, d: Seq<int>, s: Seats, k: int)
    requires groups_ok(t.gs, t.n), choice(t.gs, d), 1 <= t.n <= 9, sitting(s, t.gs, d, t.n, every_group()), 0 <= k < 9,
    ensures ({ let (i, j) = (if k < t.n { k } else { t.n }, if k + 1 < t.n { k + 1 } else { t.n }); weight_to(t.gs, d, j) == weight_to(t.gs, d, i) * s.weights[k] && 0 <= weight_to(t.gs, d, j) <= 1_000_000_000_000_000_000 }),
{
    let j = if k + 1 < t.n { k + 1 } else { t.n };
    lemma_weight_to(t.gs, d, t.n, j); lemma_p100_up(j);
    if k < t.n { lemma_seat(t.gs, t.n, k); assert(in_seat(s, t.gs, d, k)); }
}
//@ fn src/equity_calculator/simulator.rs Simulator::sim_random_walk_monte_carlo
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ sig <R: Rng> =>>
//@ sig &mut R =>> &mut Gen
//@ sig tx: Sender<u8> =>> tx: Sender<u8>, world: &mut World
//@ rw let mut mask; =>> let mut mask = 0u64;
//@ rw? &player_hands, weight =>> player_hands.as_slice(), weight
//@ rw? &combo_dists, =>> combo_dists.as_slice(),
//@ rw let $one_v: Vec<Uniform<usize>> = (0..self.combined_ranges.len()).into_iter().map(|$one_i| Uniform::try_from(0..$e).unwrap()).collect(); =>> let mut $one_v: Vec<UniformN> = Vec::new(); { let mut i__: usize = 0; while i__ < self.combined_ranges.len() invariant i__ <= self.combined_ranges.len(), $one_v.len() == i__, sim_ok(*self), forall|a: int| 0 <= a < i__ ==> (#[trigger] $one_v@[a]).n@ == self.combined_ranges@[a].size, decreases self.combined_ranges.len() - i__ { let $one_i = i__; proof { assert(group_ok(self.combined_ranges@[i__ as int], self.n_players as int)); } $one_v.push(below($e)); i__ += 1; } }
//@ spec
    requires sim_ok(*self), !self.calc_exact, consistent(old(world).results), old(world).results.wins.len() == self.n_players, old(world).log@.len() == 0, old(world).out.sent@.len() == 0, !old(world).flag.set@, old(world).flag.own@, old(world).flag.since@ == 0, old(world).steps@.len() == 0,
    ensures final(world).flag.since@ <= most_deals(), // [C26]
        consistent(final(world).results), steps_ok(final(world).log@, final(world).steps@, self.n_players as int), percentages(final(world).out.sent@), exists|xs: Seq<Sample>| #[trigger] walked(*self, *old(world), *final(world), xs),
        alone() && !cancelled() ==> target_reached(final(world).results, self.stdev_target.r@) || gave_up(*self, old(rng).id@),
//@ at start
    let ghost w0 = *world;
    let ghost n = self.n_players as int;
    let ghost gs = self.combined_ranges@;
    let ghost t = table(*self);
    let ghost id = rng.id@;
    let ghost mut xs: Seq<Sample> = Seq::empty();
    let ghost mut d: Seq<int> = arbitrary();
    let ghost mut w1 = *world;
    let ghost mut s1: SimulationResultsBatch = arbitrary();
    let ghost mut h1: Seq<UnitResults> = arbitrary();
    proof { lemma_sizes(gs, n); lemma_few_groups(gs, n); lemma_seat(gs, n, 0); tables_cards(); lemma_fields(self.fixed_board, t.board, 3); }
//@ at stmt `if self.randomize_hole_cards` 1 before
    proof {
        lemma_fresh_batch(batch, hand_stats@, n);
        assert(world.log@ =~= Seq::<Batch>::empty());
        lemma_tallied_nothing(t, batch, hand_stats@);
    }
//@ at loop 2 pre
    proof { d = chosen(combo_indexes@, gs.len()); }
//@ loop 2
    invariant_except_break !world.flag.set@, standing(t, d, Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, used_cards_mask), d == chosen(combo_indexes@, gs.len()), batch.eval_count < 4096, world.flag.since@ <= batch.eval_count,
    invariant sim_ok(*self), !self.calc_exact, n == self.n_players, gs == self.combined_ranges@, t == table(*self), 0 < gs.len() <= 9, forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).size > 0, rng.id@ == id,
        card_dist.n@ == 52, combined_range_dist.n@ == gs.len(), combo_dists.len() == gs.len(), forall|a: int| 0 <= a < combo_dists.len() ==> (#[trigger] combo_dists@[a]).n@ == gs[a].size, cards_remaining == 5 - size(t.board),
        consistent(world.results), world.results.wins.len() == n, percentages(world.out.sent@), steps_ok(world.log@, world.steps@, n), world.flag.own@, world.flag.since@ <= most_deals(), batch_ok(batch, hand_stats@, n), tallied(t, world.log@, batch, hand_stats@, xs), all_fair(t, xs),
        under_way(w0, *world), xs.len() == 4096 * world.log@.len() + batch.eval_count,
    ensures batch.eval_count == 0, alone() && !cancelled() ==> target_reached(world.results, self.stdev_target.r@) || gave_up(*self, id),
//@ loop 3
    invariant 0 <= k__3 <= 9, combo_weights.len() == 9, groups_ok(gs, n), choice(gs, d), 1 <= n <= 9, t.gs == gs, t.n == n, sitting(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, n, every_group()), weight == weight_to(gs, d, if k__3 < n { k__3 as int } else { n }),
    decreases 9 - k__3,
//@ at loop 3 start
    proof { lemma_nine_weights(t, d, Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, k__3 - 1); }
//@ at stmt `randomize_board(` 1 before
    proof { lemma_deck_or(used_cards_mask, self.dead_mask); lemma_deck_or(self.board_mask, self.dead_mask); assert(cards_of(self.fixed_board.mask) =~= t.board); }
//@ at stmt `self.evaluate_hands` 1 before
    let ghost c = cards_of(board.mask);
    proof { assert(may_work(world.flag, most_deals())); world.flag.since@ = world.flag.since@ + 1; s1 = batch; h1 = hand_stats@; lemma_sample(*self, d, Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, used_cards_mask, c); }
//@ at stmt `self.evaluate_hands` 1 after
    proof {
        lemma_tallied_step(t, world.log@, s1, h1, batch, hand_stats@, xs, Sample { d, board: c }, lookup@);
        xs = xs.push(Sample { d, board: c });
        let e = batch.eval_count;
        assert(e & 0xfff == 0 <==> e == 4096) by (bit_vector) requires 0 < e <= 4096;
        w1 = *world; s1 = batch; h1 = hand_stats@;
    }
//@ at stmt `self.update_results` 1 after
    proof {
        lemma_tallied_push(t, w1.log@, s1, h1, xs);
        lemma_any_fresh_batch(n); lemma_any_tallied_again(t, world.log@, xs);
        if alone() { lemma_grown(w0.results, w1.results, world.results, w1.log@, s1, h1); }
    }
//@ at stmt `let combined_range_idx` 1 before
    proof { d = chosen(combo_indexes@, gs.len()); }
//@ at stmt `let mut combo_idx` 1 after
    let ghost a = combined_range_idx as int;
    proof { assert(group_ok(gs[a], n)); assert(d[a] == combo_idx); lemma_stand_up(t, d, Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, used_cards_mask, a); }
//@ loop 4
    invariant_except_break combo_idx <= gs[a].size,
    invariant 0 <= a < gs.len(), t.gs == gs, t.n == n, *combined_range == gs[a], group_ok(gs[a], n), 0 <= d[a] < gs[a].combos.len(), without(t, d, a, used_cards_mask), gs[a].combos@[d[a]].mask & used_cards_mask == 0,
    ensures combo_idx < gs[a].size, mask == gs[a].combos@[combo_idx as int].mask, mask & used_cards_mask == 0,
    decreases if combo_idx <= d[a] { combo_idx + gs[a].size - d[a] } else { combo_idx - d[a] },
//@ at loop 4 post
    let ghost e = d.update(a, combo_idx as int);
    proof { lemma_sit_down(t, d, a, combo_idx as int, used_cards_mask); lemma_other_seats(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, d, e, n, every_group(), not_group(a), a); }
//@ loop 5
    invariant 0 <= k__5 <= e__5, e__5 == gs[a].player_count, 0 <= a < gs.len(), groups_ok(gs, n), 0 <= n <= 9, group_ok(gs[a], n), *combined_range == gs[a], e[a] == combo_idx, 0 <= e[a] < gs[a].combos.len(),
        seating(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, e, n, not_group(a), a, k__5 as int),
    decreases e__5 - k__5,
//@ at loop 5 start
    let ghost s0 = Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ };
    proof { assert(gs[a].players@[k__5 - 1] < n); assert(combo_ok(gs[a].combos@[e[a]], gs[a].player_count as int)); assert(dealt_cards(gs[a].combos@[e[a]].hole_cards@[k__5 - 1])); }
//@ at loop 5 end
    proof { lemma_seating(s0, Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, e, n, not_group(a), a, k__5 - 1); }
//@ at loop 5 post
    proof { lemma_seated(Seats { hands: player_hands@, lookup: lookup@, weights: combo_weights@ }, gs, e, n, not_group(a), a, every_group()); }
//@ at loop 2 end
    proof { assert(chosen(combo_indexes@, gs.len()) =~= e); d = e; }
//@ at stmt `self.update_results` 2 before
    proof { w1 = *world; s1 = batch; h1 = hand_stats@; }
//@ at end
    proof {
        lemma_tallied_push(t, w1.log@, s1, h1, xs);
        if alone() { lemma_grown(w0.results, w1.results, world.results, w1.log@, s1, h1); }
        assert(walked(*self, w0, *world, xs));
    }
//@ end
} // verus!
fn main() {}
