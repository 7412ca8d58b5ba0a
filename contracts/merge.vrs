// C16, C23, C24: a thread's counts are added to the results.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ floats
//@ grw? tx: &Sender<u8>, =>> tx: &Sender<u8>, world: &mut World,
//@ grw? let mut $one_r = self.results.write().unwrap(); =>> world.lock_results(); stop_on_overflow(&world.results, &batch, &hand_batch); proof { r0 = world.results; } let $one_r = &mut world.results;
//@ grw? tx.send($e).unwrap() =>> world.out.send($e)
//@ grw? self.stopped.store($v, $o) =>> world.flag.store($v)
//@ grw? *self.enum_pos.lock().unwrap() =>> { world.pos.lock(); world.pos.v }
//@ grw? let $one_p = ($e) as u8; =>> let $one_p = f64_to_u8($e);
//@ grw? std::cmp::min =>> cmp_min
//@ grw? MIN_BATCHES =>> min_batches()
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ include simspec
//@ include world
//@ include mergespec
impl vstd::std_specs::ops::AddAssignSpecImpl<UnitResults> for UnitResults {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: UnitResults) -> bool { self.total + o.total <= u64::MAX && self.wins + o.wins <= u64::MAX && self.ties + o.ties <= u64::MAX }
    open spec fn add_assign_spec(&self, o: UnitResults) -> &UnitResults {
        let c = self.corrected_ties.r@ + o.corrected_ties.r@;
        &UnitResults { wins: (self.wins + o.wins) as u64, ties: (self.ties + o.ties) as u64, total: (self.total + o.total) as u64, corrected_ties: f64v(c), equity: f64v((rl(self.wins + o.wins) + c) / rl(self.total + o.total)), ..*self }
    }
}
//@ item src/equity_calculator/simulator.rs const MIN_BATCHES | const $n: $t = $e; =>> fn min_batches() -> (r: F64) ensures r.r@ >= 16real, { $e }
//@ import combine CombinedRange::size
//@ fn src/equity_calculator/simulator.rs <AddAssign for UnitResults>::add_assign
//@ end
//@ fn src/equity_calculator/simulator.rs Simulator::get_preflop_combo_count
//@ ret r
//@ spec
    requires deals(self.combined_ranges@, self.combined_ranges.len() as int) <= u64::MAX, forall|i: int| 0 <= i < self.combined_ranges.len() ==> (#[trigger] self.combined_ranges@[i]).size > 0,
    ensures r == deals(self.combined_ranges@, self.combined_ranges.len() as int), r > 0,
//@ loop 1
    invariant 0 <= k__1 <= self.combined_ranges.len(), combo_count == deals(self.combined_ranges@, k__1 as int), combo_count > 0, deals(self.combined_ranges@, self.combined_ranges.len() as int) <= u64::MAX, forall|i: int| 0 <= i < self.combined_ranges.len() ==> (#[trigger] self.combined_ranges@[i]).size > 0,
    decreases self.combined_ranges.len() - k__1,
//@ at loop 1 start
    proof { lemma_deals(self.combined_ranges@, k__1 as int, self.combined_ranges.len() as int); }
//@ end
//@ fn src/equity_calculator/simulator.rs <Default for UnitResults>::default
//@ inherent
//@ ret r
//@ spec
    ensures empty_unit(r),
//@ end
//@ fn src/equity_calculator/simulator.rs SimulationResults::init
//@ ret r
//@ spec
    requires 1 <= n_players <= 9,
    ensures fresh(r, n_players as int),
//@ at start
    proof {
        let (n, x) = (n_players as int, n_players);
        lemma_p2(n);
        let y = n as u64;
        assert(1u64 << y == 1usize << x) by (bit_vector) requires x == y, x < 10;
        assert(1326 * n <= 20000);
    }
//@ at tail
    proof {
        let n = n_players as int;
        let t = tally_of(r__.wins_by_mask@);
        assert(t =~= zero_tally());
        assert forall|p: int| 0 <= p < n implies #[trigger] sums_match(r__.hand_results@, t, p) && won(t, p, 512) == 0 && split(t, p, 512) == 0real by { lemma_zero_tally(p, 512); lemma_empty_sums(r__.hand_results@, 1326 * p, 1326); }
        assert forall|p: int| 0 <= p < n implies (#[trigger] r__.wins@[p]) == won(t, p, 512) by { assert(sums_match(r__.hand_results@, t, p)); }
        assert forall|p: int| 0 <= p < n implies (#[trigger] r__.ties@[p]).r@ == split(t, p, 512) by { assert(sums_match(r__.hand_results@, t, p)); }
    }
//@ end
//@ fn src/equity_calculator/simulator.rs SimulationResultsBatch::init
//@ ret r
//@ rw 1 << MAX_PLAYERS =>> 512
//@ spec
    requires n_players <= 9,
    ensures fresh_batch(r, n_players as int),
//@ loop 1
    invariant 0 <= k__1 <= e__1, e__1 == n_players, n_players <= 9, forall|p: int| 0 <= p < k__1 ==> #[trigger] player_ids@[p] == p,
    decreases e__1 - k__1,
//@ end
proof fn lemma_has(w: int, p: int, k: int)
    requires 0 <= p < k,
    ensures winners(w, k) >= b2i(has(w, p)),
    decreases k,
{ if k > p + 1 { lemma_has(w, p, k - 1); } else { lemma_winners_pos(w, k - 1); } }
proof fn lemma_winners_pos(w: int, k: int)
    ensures winners(w, k) >= 0,
    decreases k,
{ if k > 0 { lemma_winners_pos(w, k - 1); } }
pub assume_specification[ u32::count_ones ](x: u32) -> (r: u32) ensures r == winners(x as int, 32);
// runs in which a counter would overflow are not considered: the program stops there
#[verifier::external_body]
fn stop_on_overflow(r: &SimulationResults, s: &SimulationResultsBatch, h: &Vec<UnitResults>)
    ensures r.eval_count + s.eval_count <= u64::MAX, all_of(tally_of(s.wins_by_mask@), 512) <= u64::MAX,
        forall|w: int| 0 <= w < 512 && w < r.wins_by_mask.len() ==> #[trigger] r.wins_by_mask@[w] + s.wins_by_mask@[w] <= u64::MAX,
        forall|p: int| 0 <= p < r.wins.len() ==> #[trigger] r.wins@[p] + won(tally_of(s.wins_by_mask@), p, 512) <= u64::MAX,
        forall|i: int| 0 <= i < h.len() && i < r.hand_results.len() ==> (#[trigger] r.hand_results@[i]).total + h@[i].total <= u64::MAX && r.hand_results@[i].wins + h@[i].wins <= u64::MAX && r.hand_results@[i].ties + h@[i].ties <= u64::MAX,
{ unimplemented!() }
proof fn lemma_won_le(t: Seq<int>, p: int, j: int, k: int)
    requires 0 <= j <= k <= t.len(), forall|w: int| 0 <= w < t.len() ==> #[trigger] t[w] >= 0,
    ensures won(t, p, j) <= won(t, p, k), all_of(t, j) <= all_of(t, k), 0 <= won(t, p, k), 0 <= all_of(t, k),
    decreases k,
{ if j < k { lemma_won_le(t, p, j, k - 1); } else if k > 0 { lemma_won_le(t, p, j - 1, k - 1); } }
// beyond the first 9 bits there is nothing
proof fn lemma_few(w: int, n: int, k: int)
    requires 0 <= n <= 9, 0 <= w < p2(n), n <= k <= 64,
    ensures winners(w, k) == winners(w, n), forall|p: int| n <= p < 64 ==> has(w, p) == false,
    decreases k,
{
    lemma_p2(n);
    let x = w as u64;
    let m = n as u64;
    assert forall|p: int| n <= p < 64 implies has(w, p) == false by {
        let q = p as u64;
        assert(x & (1u64 << q) == 0) by (bit_vector) requires x < 1u64 << m, m <= q, q < 64;
    }
    if k > n { lemma_few(w, n, k - 1); }
}
proof fn lemma_zero_from(t: Seq<int>, p: int, j: int, k: int)
    requires 0 <= j <= k <= t.len(), forall|w: int| j <= w < k ==> #[trigger] t[w] == 0,
    ensures won(t, p, k) == won(t, p, j), tied(t, p, k) == tied(t, p, j), split(t, p, k) == split(t, p, j), all_of(t, k) == all_of(t, j),
    decreases k,
{ if k > j { lemma_zero_from(t, p, j, k - 1); if winners(k - 1, 9) > 1 { let c = rl(winners(k - 1, 9)); assert(0real / c == 0real) by (nonlinear_arith) requires c > 0real; } } }
proof fn lemma_percent(x: int, y: int, k: int)
    requires 0 <= x <= y, 0 < y, 0 <= k, cut_to(rl(x) / rl(y) * rl(100), k),
    ensures k == percent(x, y), k <= 100,
{
    let (a, b, q) = (rl(x), rl(y), rl(x) / rl(y));
    assert(0real <= q <= 1real) by (nonlinear_arith) requires q == a / b, 0real <= a <= b, b > 0real;
    assert(0real <= q * rl(100) <= 100real) by (nonlinear_arith) requires 0real <= q <= 1real;
    assert(q * b == a) by (nonlinear_arith) requires b > 0real, q == a / b;
    assert(rl(k) * b <= 100real * a) by (nonlinear_arith) requires rl(k) <= q * 100real, q * b == a, b > 0real;
    assert(100real * a < rl(k + 1) * b) by (nonlinear_arith) requires q * 100real < rl(k + 1), q * b == a, b > 0real;
    assert(rl(k) * b == rl(k * y)) by (nonlinear_arith) requires b == rl(y);
    assert(rl(k + 1) * b == rl((k + 1) * y)) by (nonlinear_arith) requires b == rl(y);
    assert(100real * a == rl(100 * x)) by (nonlinear_arith) requires a == rl(x);
    assert(k * y <= 100 * x < (k + 1) * y);
    assert(k == (x * 100) / y) by (nonlinear_arith) requires k * y <= 100 * x < (k + 1) * y, y > 0;
    assert(k <= 100) by (nonlinear_arith) requires k * y <= 100 * x, x <= y, y > 0;
}
//@ fn src/equity_calculator/simulator.rs Simulator::update_results
//@ spec
    requires self.n_players == old(world).results.wins.len(), consistent(old(world).results), batch_ok(batch, hand_batch@, self.n_players as int),
        self.calc_exact ==> deals(self.combined_ranges@, self.combined_ranges.len() as int) <= u64::MAX && old(world).pos.v <= old(world).pos.end@ == deals(self.combined_ranges@, self.combined_ranges.len() as int),
        forall|i: int| 0 <= i < self.combined_ranges.len() ==> (#[trigger] self.combined_ranges@[i]).size > 0, !self.calc_exact ==> old(world).flag.own@,
    ensures consistent(final(world).results), rely(old(world).results, final(world).at_lock@), merged(final(world).at_lock@, final(world).results, batch, hand_batch@),
        final(world).log@ == old(world).log@.push(Batch { s: batch, h: hand_batch@ }), final(world).taken == old(world).taken, steps_ok(old(world).log@, old(world).steps@, self.n_players as int) ==> steps_ok(final(world).log@, final(world).steps@, self.n_players as int),
        final(world).steps@ == old(world).steps@.push((final(world).at_lock@, final(world).results)), final(world).flag.own == old(world).flag.own, final(world).flag.since == old(world).flag.since,
        reported(self.calc_exact, old(world).pos, final(world).pos, old(world).out.sent@, final(world).out.sent@),
        self.calc_exact ==> final(world).flag == old(world).flag && same_stats(final(world).at_lock@, final(world).results),
        !self.calc_exact ==> final(world).pos == old(world).pos && (batch.eval_count == 0 ==> same_stats(final(world).at_lock@, final(world).results))
            && (batch.eval_count > 0 ==> sampled(final(world).at_lock@, final(world).results, share(tally_of(batch.wins_by_mask@))))
            && (final(world).flag.set@ ==> old(world).flag.set@ || (!finished && target_reached(final(world).results, self.stdev_target.r@))),
//@ at start
    let ghost w0 = *world;
    proof { world.log@ = world.log@.push(Batch { s: batch, h: hand_batch@ }); }
    let ghost n = self.n_players as int;
    let ghost t = tally_of(batch.wins_by_mask@);
    let ghost gs = self.combined_ranges@;
    proof { lemma_p2(n); }
    let ghost mut r0 = world.results;
    let ghost mut r1 = world.results;
//@ at loop 1 pre
    proof { r1 = *results; }
//@ loop 1
    invariant 0 <= k__1 <= results.hand_results.len(), results.hand_results.len() == r0.hand_results.len(), hand_batch.len() == r0.hand_results.len(),
        *results == (SimulationResults { hand_results: results.hand_results, ..r1 }), r1 == (SimulationResults { eval_count: r1.eval_count, ..r0 }),
        r0.eval_count + batch.eval_count <= u64::MAX,
        forall|i: int| 0 <= i < hand_batch.len() ==> (#[trigger] r0.hand_results@[i]).total + hand_batch@[i].total <= u64::MAX && r0.hand_results@[i].wins + hand_batch@[i].wins <= u64::MAX && r0.hand_results@[i].ties + hand_batch@[i].ties <= u64::MAX,
        forall|i: int| 0 <= i < k__1 ==> unit_merged(r0.hand_results@[i], #[trigger] results.hand_results@[i], hand_batch@[i]),
        forall|i: int| k__1 <= i < hand_batch.len() ==> r0.hand_results@[i] == #[trigger] results.hand_results@[i],
    decreases results.hand_results.len() - k__1,
//@ at loop 1 post
    proof { let r2 = *results; assert(r2 == (SimulationResults { hand_results: r2.hand_results, eval_count: r2.eval_count, ..r0 })); r1 = r2; lemma_p2(n); let (x, y) = (n as u64, n as usize); assert(1u64 << x == 1usize << y) by (bit_vector) requires x == y, x < 10; }
//@ loop 2
    invariant 0 <= k__2 <= e__2, e__2 == p2(n), r1.wins.len() == n, r1.ties.len() == n, r1.wins_by_mask.len() == p2(n), r0.wins.len() == n, r0.ties.len() == n, r0.wins_by_mask.len() == p2(n), n == self.n_players, 1 <= n <= 9, p2(n) <= 512, p2(n) == 1usize << (n as usize),
        t == tally_of(batch.wins_by_mask@), all_of(t, 512) <= u64::MAX, forall|w: int| 0 <= w < t.len() ==> #[trigger] t[w] >= 0, forall|w: int| 0 <= w < 512 ==> t[w] == #[trigger] batch.wins_by_mask@[w],
        forall|w: int| 0 <= w < p2(n) ==> #[trigger] r0.wins_by_mask@[w] + batch.wins_by_mask@[w] <= u64::MAX,
        forall|p: int| 0 <= p < n ==> #[trigger] r0.wins@[p] + won(t, p, 512) <= u64::MAX,
        forall|p: int| 0 <= p < n ==> #[trigger] batch.player_ids@[p] == p,
        *results == (SimulationResults { wins: results.wins, ties: results.ties, wins_by_mask: results.wins_by_mask, ..r1 }), results.wins.len() == n, results.ties.len() == n, results.wins_by_mask.len() == p2(n),
        r1.wins == r0.wins && r1.ties == r0.ties && r1.wins_by_mask == r0.wins_by_mask,
        batch_hands == all_of(t, k__2 as int), batch_equity.r@ == rl(won(t, 0, k__2 as int)) + split(t, 0, k__2 as int),
        forall|w: int| 0 <= w < p2(n) ==> #[trigger] results.wins_by_mask@[w] == r0.wins_by_mask@[w] + if w < k__2 { batch.wins_by_mask@[w] } else { 0 },
        forall|p: int| 0 <= p < n ==> #[trigger] results.wins@[p] == r0.wins@[p] + won(t, p, k__2 as int),
        forall|p: int| 0 <= p < n ==> (#[trigger] results.ties@[p]).r@ == r0.ties@[p].r@ + split(t, p, k__2 as int),
    decreases e__2 - k__2,
//@ at loop 2 start
    let ghost w = k__2 - 1;
    let ghost wm = results.wins_by_mask@;
    proof { lemma_few(w, n, 9); lemma_few(w, n, 32); lemma_won_le(t, 0, k__2 as int, 512); }
//@ at loop 2 end
    proof { assert(r0.wins_by_mask@[w] + batch.wins_by_mask@[w] <= u64::MAX); }
//@ loop 3
    invariant 0 <= k__3 <= n, e__3 == n, w == i, 0 <= w < p2(n), r1.wins.len() == n, r1.ties.len() == n, r1.wins_by_mask.len() == p2(n), r0.wins.len() == n, r0.ties.len() == n, r0.wins_by_mask.len() == p2(n), n == self.n_players, 1 <= n <= 9, p2(n) <= 512, p2(n) == 1usize << (n as usize),
        t == tally_of(batch.wins_by_mask@), all_of(t, 512) <= u64::MAX, forall|w: int| 0 <= w < t.len() ==> #[trigger] t[w] >= 0, forall|w: int| 0 <= w < 512 ==> t[w] == #[trigger] batch.wins_by_mask@[w],
        forall|w: int| 0 <= w < p2(n) ==> #[trigger] r0.wins_by_mask@[w] + batch.wins_by_mask@[w] <= u64::MAX,
        forall|p: int| 0 <= p < n ==> #[trigger] r0.wins@[p] + won(t, p, 512) <= u64::MAX,
        forall|p: int| 0 <= p < n ==> #[trigger] batch.player_ids@[p] == p,
        *results == (SimulationResults { wins: results.wins, ties: results.ties, wins_by_mask: results.wins_by_mask, ..r1 }), results.wins.len() == n, results.ties.len() == n, results.wins_by_mask.len() == p2(n),
        r1.wins == r0.wins && r1.ties == r0.ties && r1.wins_by_mask == r0.wins_by_mask,
        winner_count == winners(w, 9), batch_equity.r@ == if k__3 > 0 { rl(won(t, 0, w + 1)) + split(t, 0, w + 1) } else { rl(won(t, 0, w)) + split(t, 0, w) }, results.wins_by_mask@ == wm, actual_player_mask == i & (sub(1usize << (k__3 as usize), 1)),
        forall|p: int| 0 <= p < n ==> #[trigger] results.wins@[p] == r0.wins@[p] + won(t, p, if p < k__3 { w + 1 } else { w }),
        forall|p: int| 0 <= p < n ==> (#[trigger] results.ties@[p]).r@ == r0.ties@[p].r@ + split(t, p, if p < k__3 { w + 1 } else { w }),
    decreases e__3 - k__3,
//@ at loop 3 start
    let ghost q = k__3 - 1;
    proof {
        assert(results.wins@[q] == r0.wins@[q] + won(t, q, w)); assert(r0.wins@[q] + won(t, q, 512) <= u64::MAX); lemma_won_le(t, q, w + 1, 512);
        let (x, y) = (q as usize, i);
        let z = 1usize << x;
        assert((y & (1usize << x)) != 0 <==> ((y as u64) & (1u64 << (x as u64))) != 0) by (bit_vector);
        assert((y & (1usize << x)) != 0 ==> (y & sub(1usize << x, 1)) | (1usize << x) == y & sub(1usize << add(x, 1), 1)) by (bit_vector) requires x < 9;
        assert((y & (1usize << x)) == 0 ==> (y & sub(1usize << x, 1)) == y & sub(1usize << add(x, 1), 1)) by (bit_vector) requires x < 9;
        assert(has(w, q) ==> winners(w, 9) >= 1) by { if has(w, q) { lemma_has(w, q, 9); } else { lemma_winners_pos(w, 9); } }
    }
//@ at loop 3 pre
    proof { let y = i; assert(y & sub(1usize << 0usize, 1) == 0) by (bit_vector); }
//@ at loop 3 post
    proof { let (x, y) = (n as usize, i); assert(y & sub(1usize << x, 1) == y) by (bit_vector) requires x < 10, y < 1usize << x; }
//@ at end
    proof {
        let b = world.results;
        world.steps@ = world.steps@.push((world.at_lock@, world.results));
        lemma_zero_from(t, 0, p2(n), 512);
        assert forall|p: int| 0 <= p < n implies #[trigger] b.wins@[p] == r0.wins@[p] + won(t, p, 512) by { lemma_zero_from(t, p, p2(n), 512); }
        assert forall|p: int| 0 <= p < n implies (#[trigger] b.ties@[p]).r@ == r0.ties@[p].r@ + split(t, p, 512) by { lemma_zero_from(t, p, p2(n), 512); }
        lemma_merged(r0, b, batch, hand_batch@);
        if self.calc_exact { lemma_deals(gs, gs.len() as int, gs.len() as int); lemma_percent(world.pos.v as int, deals(gs, gs.len() as int), world.out.sent@.last()); }
    }
//@ end
} // verus!
fn main() {}
