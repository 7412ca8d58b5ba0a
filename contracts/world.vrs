// ------------------------------------------------------------------------------------------
// What the threads of a calculation share: the results behind their lock, the position behind
// its lock, the stop flag and the progress channel.  Taking a lock gives whatever the other
// threads have left there (rely conditions); one thread running alone finds what it left.
pub uninterp spec fn alone() -> bool;
pub uninterp spec fn cancelled() -> bool;
pub struct Sender<T> { pub x: Ghost<Option<T>> }
pub struct Position { pub v: u64, pub start: Ghost<int>, pub end: Ghost<int> }
pub struct Channel { pub sent: Ghost<Seq<int>> }
// own: the calculation itself may set the flag; since: the work the thread has done since it last
// read the flag (joint holdings examined in an exact calculation, deals counted in a simulation)
pub struct Flag { pub set: Ghost<bool>, pub own: Ghost<bool>, pub since: Ghost<int> }
// log: the counts this thread has added to the results; steps: the results before and after
// each of these additions; taken: the positions it has reserved
pub struct World { pub results: SimulationResults, pub at_lock: Ghost<SimulationResults>, pub pos: Position, pub out: Channel, pub flag: Flag, pub log: Ghost<Seq<Batch>>, pub steps: Ghost<Seq<(SimulationResults, SimulationResults)>>, pub taken: Ghost<Seq<int>> }
pub struct Batch { pub s: SimulationResultsBatch, pub h: Seq<UnitResults> }
// two states of the results between which only other threads ran
pub open spec fn same_shape(a: SimulationResults, b: SimulationResults) -> bool {
    &&& a.wins.len() == b.wins.len() && a.ties.len() == b.ties.len() && a.wins_by_mask.len() == b.wins_by_mask.len() && a.hand_results.len() == b.hand_results.len()
    &&& a.equities == b.equities && a.combo_results == b.combo_results && a.board_results == b.board_results && a.board_draws == b.board_draws
    &&& forall|i: int| 0 <= i < a.hand_results.len() ==> same_labels(a.hand_results@[i], #[trigger] b.hand_results@[i])
}
pub open spec fn same_labels(a: UnitResults, b: UnitResults) -> bool { a.weight == b.weight && a.valid == b.valid && a.rank == b.rank && a.draw == b.draw && a.winrate == b.winrate && a.tierate == b.tierate }
pub open spec fn rely(a: SimulationResults, b: SimulationResults) -> bool {
    same_shape(a, b) && (alone() ==> a == b) && (consistent(a) ==> consistent(b))
}
impl World {
    #[verifier::external_body]
    fn lock_results(&mut self)
        ensures rely(old(self).results, final(self).results), final(self).at_lock@ == final(self).results, final(self).pos == old(self).pos, final(self).out == old(self).out, final(self).flag == old(self).flag, final(self).log == old(self).log, final(self).steps == old(self).steps, final(self).taken == old(self).taken,
    { unimplemented!() }
}
impl Position {
    // start: the position when the lock was last taken
    #[verifier::external_body]
    fn lock(&mut self)
        ensures old(self).v <= final(self).v, final(self).v == final(self).start@, final(self).end == old(self).end, old(self).v <= old(self).end@ ==> final(self).v <= final(self).end@, alone() ==> final(self).v == old(self).v,
    { unimplemented!() }
}
impl Channel {
    #[verifier::external_body]
    fn send(&mut self, x: u8)
        ensures final(self).sent@ == old(self).sent@.push(x as int),
    { unimplemented!() }
}
impl Flag {
    #[verifier::external_body]
    fn store(&mut self, x: bool)
        requires old(self).own@,
        ensures final(self).set@ == x, final(self).own == old(self).own, final(self).since == old(self).since,
    { unimplemented!() }
    #[verifier::external_body]
    fn load(&mut self) -> (r: bool)
        ensures final(self).set@ == r, final(self).own == old(self).own, final(self).since@ == 0, old(self).set@ ==> r, !cancelled() && (alone() || !old(self).own@) ==> r == old(self).set@,
    { unimplemented!() }
}
// C26: how much work a thread does between two readings of the flag
pub open spec fn most_holdings() -> int { 2000000 }
pub open spec fn most_deals() -> int { 4096 }
// one unit of work more: never after the flag was read as set, and never too much since the last reading
pub open spec fn may_work(f: Flag, most: int) -> bool { !f.set@ && f.since@ < most }
pub open spec fn worked(a: Flag, b: Flag) -> bool { b.set == a.set && b.own == a.own && b.since@ == a.since@ + 1 }
// ---- sums over the hands from lo on
pub open spec fn totals_of(h: Seq<UnitResults>, lo: int, n: int) -> int decreases n { if n <= 0 { 0 } else { totals_of(h, lo, n - 1) + h[lo + n - 1].total } }
pub open spec fn wins_of(h: Seq<UnitResults>, lo: int, n: int) -> int decreases n { if n <= 0 { 0 } else { wins_of(h, lo, n - 1) + h[lo + n - 1].wins } }
pub open spec fn ties_of(h: Seq<UnitResults>, lo: int, n: int) -> int decreases n { if n <= 0 { 0 } else { ties_of(h, lo, n - 1) + h[lo + n - 1].ties } }
pub open spec fn shares_of(h: Seq<UnitResults>, lo: int, n: int) -> real decreases n { if n <= 0 { 0real } else { shares_of(h, lo, n - 1) + h[lo + n - 1].corrected_ties.r@ } }
pub open spec fn sums_match(h: Seq<UnitResults>, t: Seq<int>, p: int) -> bool {
    totals_of(h, 1326 * p, 1326) == all_of(t, 512) && wins_of(h, 1326 * p, 1326) == won(t, p, 512) && ties_of(h, 1326 * p, 1326) == tied(t, p, 512) && shares_of(h, 1326 * p, 1326) == split(t, p, 512)
}
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub open spec fn tally_of(s: Seq<u64>) -> Seq<int> { Seq::new(512, |w: int| if w < s.len() { s[w] as int } else { 0 }) }
// no hand has more wins and ties than deals
pub open spec fn within(u: UnitResults) -> bool { u.wins + u.ties <= u.total }
// C16: the counts of the results agree with each other
pub open spec fn consistent(r: SimulationResults) -> bool {
    let n = r.wins.len() as int; let t = tally_of(r.wins_by_mask@);
    &&& 1 <= n <= 9 && r.ties.len() == n && r.wins_by_mask.len() == p2(n) && r.hand_results.len() == 1326 * n && r.wins_by_mask@[0] == 0
    &&& forall|p: int| 0 <= p < n ==> #[trigger] r.wins@[p] == won(t, p, 512)
    &&& forall|p: int| 0 <= p < n ==> (#[trigger] r.ties@[p]).r@ == split(t, p, 512)
    &&& forall|p: int| 0 <= p < n ==> #[trigger] sums_match(r.hand_results@, t, p)
    &&& forall|i: int| 0 <= i < 1326 * n ==> within(#[trigger] r.hand_results@[i])
}
// a thread's own counts
pub open spec fn batch_ok(s: SimulationResultsBatch, h: Seq<UnitResults>, n: int) -> bool {
    let t = tally_of(s.wins_by_mask@);
    &&& h.len() == 1326 * n && s.wins_by_mask@[0] == 0
    &&& forall|p: int| 0 <= p < n ==> #[trigger] s.player_ids@[p] == p
    &&& forall|w: int| p2(n) <= w < 512 ==> #[trigger] s.wins_by_mask@[w] == 0
    &&& forall|p: int| 0 <= p < n ==> #[trigger] sums_match(h, t, p)
    &&& forall|i: int| 0 <= i < 1326 * n ==> within(#[trigger] h[i])
}
// b is a plus the counts of the batch
pub open spec fn unit_merged(a: UnitResults, b: UnitResults, x: UnitResults) -> bool {
    same_labels(a, b) && b.total == a.total + x.total && b.wins == a.wins + x.wins && b.ties == a.ties + x.ties && b.corrected_ties.r@ == a.corrected_ties.r@ + x.corrected_ties.r@
    && b.equity.r@ == (rl(b.wins as int) + b.corrected_ties.r@) / rl(b.total as int)
}
pub open spec fn merged(a: SimulationResults, b: SimulationResults, s: SimulationResultsBatch, h: Seq<UnitResults>) -> bool {
    let t = tally_of(s.wins_by_mask@);
    &&& same_shape(a, b)
    &&& b.eval_count == a.eval_count + s.eval_count
    &&& forall|w: int| 0 <= w < a.wins_by_mask.len() ==> #[trigger] b.wins_by_mask@[w] == a.wins_by_mask@[w] + s.wins_by_mask@[w]
    &&& forall|p: int| 0 <= p < a.wins.len() ==> #[trigger] b.wins@[p] == a.wins@[p] + won(t, p, 512)
    &&& forall|p: int| 0 <= p < a.wins.len() ==> (#[trigger] b.ties@[p]).r@ == a.ties@[p].r@ + split(t, p, 512)
    &&& forall|i: int| 0 <= i < a.hand_results.len() ==> unit_merged(a.hand_results@[i], #[trigger] b.hand_results@[i], h[i])
}
proof fn lemma_p2(n: int)
    requires 0 <= n <= 9,
    ensures 1 <= p2(n) <= 512, p2(n) == 1u64 << (n as u64), n > 0 ==> p2(n) >= 2,
    decreases n,
{
    if n > 0 {
        lemma_p2(n - 1);
        let a = (n - 1) as u64;
        assert(1u64 << add(a, 1) == 2 * (1u64 << a)) by (bit_vector) requires a < 9;
        assert(add(a, 1) == n as u64);
    } else { assert(1u64 << 0u64 == 1) by (bit_vector); }
    let b = n as u64;
    assert(1u64 << b <= 512) by (bit_vector) requires b <= 9;
}
// what std::cmp::min gives
fn cmp_min(a: u8, b: u8) -> (r: u8)
    ensures r == if a < b { a } else { b },
{ if a < b { a } else { b } }
fn cmp_min64(a: u64, b: u64) -> (r: u64)
    ensures r == if a < b { a } else { b },
{ if a < b { a } else { b } }
// number of ways to deal the first k groups
pub open spec fn deals(gs: Seq<CombinedRange>, k: int) -> int decreases k { if k <= 0 { 1 } else { deals(gs, k - 1) * gs[k - 1].size } }
proof fn lemma_deals(gs: Seq<CombinedRange>, j: int, k: int)
    requires 0 <= j <= k <= gs.len(), forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).size > 0,
    ensures 0 < deals(gs, j) <= deals(gs, k),
    decreases k,
{
    if j < k { lemma_deals(gs, j, k - 1); let (a, b) = (deals(gs, k - 1), gs[k - 1].size as int); assert(a <= a * b) by (nonlinear_arith) requires a > 0, b > 0; }
    else if k > 0 { lemma_deals(gs, j - 1, k - 1); let (a, b) = (deals(gs, k - 1), gs[k - 1].size as int); assert(0 < a * b) by (nonlinear_arith) requires a > 0, b > 0; }
}
pub open spec fn same_stats(a: SimulationResults, b: SimulationResults) -> bool { a.batch_count == b.batch_count && a.batch_sum == b.batch_sum && a.batch_sum2 == b.batch_sum2 && a.stdev == b.stdev }
// a batch in which player 0 got the share x of the pots counts for the deviation between batches
pub open spec fn sampled(a: SimulationResults, b: SimulationResults, x: real) -> bool {
    &&& b.batch_count.r@ == a.batch_count.r@ + 1real && b.batch_sum.r@ == a.batch_sum.r@ + x && b.batch_sum2.r@ == a.batch_sum2.r@ + x * x
    &&& b.stdev.r@ == root(tiny() + b.batch_sum2.r@ - b.batch_sum.r@ * b.batch_sum.r@ / b.batch_count.r@) / b.batch_count.r@
}
pub open spec fn tiny() -> real { rl(1) / rl(1000000000) }
pub open spec fn share(t: Seq<int>) -> real { (rl(won(t, 0, 512)) + split(t, 0, 512)) / (rl(all_of(t, 512)) + tiny()) }
// C24: enough batches, and their deviation is below the target
pub open spec fn target_reached(r: SimulationResults, target: real) -> bool { r.batch_count.r@ >= 16real && r.stdev.r@ < target }
pub open spec fn percent(x: int, y: int) -> int { x * 100 / y }
// C23: one more percentage was sent; in an exact run, that of the joint holdings reserved so far
pub open spec fn reported(exact: bool, p: Position, q: Position, a: Seq<int>, b: Seq<int>) -> bool {
    &&& b == a.push(b[a.len() as int]) && 0 <= b[a.len() as int] <= 100
    &&& exact ==> b[a.len() as int] == percent(q.v as int, q.end@) && p.v <= q.v <= q.end@ && q.end == p.end && (alone() ==> q.v == p.v)
}
// a record in which nothing was counted
pub open spec fn empty_unit(u: UnitResults) -> bool {
    u.total == 0 && u.wins == 0 && u.ties == 0 && u.corrected_ties.r@ == 0real && u.equity.r@ == 0real && u.winrate.r@ == 0real && u.tierate.r@ == 0real && u.weight == 0 && u.rank == 255 && u.draw == 0 && !u.valid
}
pub open spec fn fresh(r: SimulationResults, n: int) -> bool {
    &&& consistent(r) && r.wins.len() == n && r.equities.len() == n && r.eval_count == 0 && r.batch_count.r@ == 0real && r.batch_sum.r@ == 0real && r.batch_sum2.r@ == 0real && r.stdev.r@ == 0real
    &&& r.combo_results.len() == 0 && r.board_results.len() == 9 * n && r.board_draws.len() == 10 * n
    &&& forall|w: int| 0 <= w < p2(n) ==> #[trigger] r.wins_by_mask@[w] == 0
    &&& forall|i: int| 0 <= i < 1326 * n ==> empty_unit(#[trigger] r.hand_results@[i])
    &&& forall|i: int| 0 <= i < 9 * n ==> empty_unit(#[trigger] r.board_results@[i])
    &&& forall|i: int| 0 <= i < 10 * n ==> empty_unit(#[trigger] r.board_draws@[i])
}
pub open spec fn fresh_batch(s: SimulationResultsBatch, n: int) -> bool {
    &&& s.eval_count == 0 && (forall|w: int| 0 <= w < 512 ==> #[trigger] s.wins_by_mask@[w] == 0) && (forall|p: int| 0 <= p < n ==> #[trigger] s.player_ids@[p] == p)
}
pub open spec fn fresh_hands(h: Seq<UnitResults>, n: int) -> bool { h.len() == 1326 * n && forall|i: int| 0 <= i < h.len() ==> empty_unit(#[trigger] h[i]) }
proof fn lemma_empty_sums(h: Seq<UnitResults>, lo: int, n: int)
    requires 0 <= lo, 0 <= n, lo + n <= h.len(), forall|i: int| 0 <= i < h.len() ==> empty_unit(#[trigger] h[i]),
    ensures totals_of(h, lo, n) == 0, wins_of(h, lo, n) == 0, ties_of(h, lo, n) == 0, shares_of(h, lo, n) == 0real,
    decreases n,
{ if n > 0 { lemma_empty_sums(h, lo, n - 1); assert(empty_unit(h[lo + n - 1])); } }
proof fn lemma_fresh_batch(s: SimulationResultsBatch, h: Seq<UnitResults>, n: int)
    requires fresh_batch(s, n), fresh_hands(h, n), 0 <= n <= 9,
    ensures batch_ok(s, h, n),
{
    lemma_p2(n);
    let t = tally_of(s.wins_by_mask@);
    assert(t =~= zero_tally());
    assert forall|p: int| 0 <= p < n implies #[trigger] sums_match(h, t, p) by { lemma_zero_tally(p, 512); lemma_empty_sums(h, 1326 * p, 1326); }
}
proof fn lemma_any_fresh_batch(n: int)
    requires 0 <= n <= 9,
    ensures forall|s: SimulationResultsBatch, h: Seq<UnitResults>| fresh_batch(s, n) && fresh_hands(h, n) ==> #[trigger] batch_ok(s, h, n),
{ assert forall|s: SimulationResultsBatch, h: Seq<UnitResults>| fresh_batch(s, n) && fresh_hands(h, n) implies #[trigger] batch_ok(s, h, n) by { lemma_fresh_batch(s, h, n); } }
// every addition of the log is of a thread's counts to the results
pub open spec fn steps_ok(l: Seq<Batch>, st: Seq<(SimulationResults, SimulationResults)>, n: int) -> bool {
    st.len() == l.len() && forall|k: int| 0 <= k < l.len() ==> step_ok(#[trigger] l[k], st[k], n)
}
pub open spec fn step_ok(b: Batch, s: (SimulationResults, SimulationResults), n: int) -> bool { merged(s.0, s.1, b.s, b.h) && batch_ok(b.s, b.h, n) }
