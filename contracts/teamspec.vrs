// ------------------------------------------------------------------------------------------
// The threads of a calculation and what they leave (the rule of the locks, trusted): each thread
// runs with its own view of what is shared; reservations and merges each happen one after the
// other, so they can be put in the order in which they took the lock.
pub struct Team { pub start: Ghost<SimulationResults>, pub at: Ghost<int>, pub end: Ghost<int>, pub own: Ghost<bool>, pub worlds: Ghost<Seq<World>> }
// owners, cuts: the reservations and whose they are; by, whole: the merges and whose they are;
// rs: the results before the first merge, between the merges and after the last
pub struct History { pub owners: Seq<int>, pub cuts: Seq<int>, pub by: Seq<int>, pub whole: Seq<Batch>, pub rs: Seq<SimulationResults> }
pub open spec fn own_steps(rs: Seq<SimulationResults>, by: Seq<int>, k: int, m: int) -> Seq<(SimulationResults, SimulationResults)> decreases m {
    if m <= 0 { Seq::<(SimulationResults, SimulationResults)>::empty() } else if by[m - 1] == k { own_steps(rs, by, k, m - 1).push((rs[m - 1], rs[m])) } else { own_steps(rs, by, k, m - 1) }
}
pub open spec fn took_part(h: History, w: World, k: int) -> bool {
    w.taken@ == part(h.owners, h.cuts, k, h.owners.len() as int) && w.log@ == own_log(h.whole, h.by, k, h.by.len() as int) && w.steps@ == own_steps(h.rs, h.by, k, h.by.len() as int) && w.pos.v <= h.cuts.last()
}
pub open spec fn history(t: Team, h: History, r: SimulationResults) -> bool {
    let n = t.worlds@.len() as int;
    &&& h.cuts.len() == h.owners.len() + 1 && h.cuts[0] == t.at@ && h.cuts.last() <= t.end@
    &&& forall|j: int| 0 <= j < h.owners.len() ==> #[trigger] h.cuts[j] <= h.cuts[j + 1]
    &&& forall|j: int| 0 <= j < h.owners.len() ==> 0 <= #[trigger] h.owners[j] < n
    &&& h.by.len() == h.whole.len() && h.rs.len() == h.whole.len() + 1 && h.rs[0] == t.start@ && h.rs.last() == r
    &&& forall|j: int| 0 <= j < h.by.len() ==> 0 <= #[trigger] h.by[j] < n
    &&& forall|k: int| 0 <= k < n ==> took_part(h, #[trigger] t.worlds@[k], k)
}
pub open spec fn idle(t: Team, w: World) -> bool {
    &&& rely(t.start@, w.results) && w.pos.end == t.end && (t.at@ <= t.end@ ==> t.at@ <= w.pos.v <= t.end@) && !w.flag.set@ && w.flag.own == t.own && w.flag.since@ == 0
    &&& w.log@.len() == 0 && w.steps@.len() == 0 && w.taken@.len() == 0 && w.out.sent@.len() == 0
    &&& alone() ==> w.results == t.start@ && w.pos.v == t.at@
}
#[verifier::external_body]
fn sender() -> Sender<u8> { unimplemented!() }
#[verifier::external_body]
fn another(tx: &Sender<u8>) -> Sender<u8> { unimplemented!() }
#[verifier::external_body]
fn assemble(sim: &Simulator, shared: &SimulationResults) -> (t: Team)
    ensures t.start@ == *shared, t.at@ == sim.enum_pos.at@, t.end@ == deals(sim.combined_ranges@, sim.combined_ranges.len() as int), t.own@ == !sim.calc_exact, t.worlds@.len() == 0,
{ unimplemented!() }
impl Team {
    // a thread starts
    #[verifier::external_body]
    fn enter(&self) -> (w: World)
        requires alone() ==> self.worlds@.len() == 0,
        ensures idle(*self, w),
    { unimplemented!() }
    // and is done
    #[verifier::external_body]
    fn leave(&mut self, w: World)
        ensures *final(self) == (Team { worlds: final(self).worlds, ..*old(self) }), final(self).worlds@ == old(self).worlds@.push(w),
    { unimplemented!() }
    // all that was sent
    #[verifier::external_body]
    fn messages(&self) -> (r: Vec<u8>)
        ensures forall|i: int| 0 <= i < r.len() ==> sent_by_one(*self, #[trigger] r@[i] as int), self.worlds@.len() == 1 ==> as_ints(r@) == self.worlds@[0].out.sent@,
    { unimplemented!() }
    // all are done: what is left
    #[verifier::external_body]
    fn join(self) -> (r: SimulationResults)
        ensures exists|h: History| #[trigger] history(self, h, r), alone() && self.worlds@.len() == 1 ==> r == self.worlds@[0].results,
    { unimplemented!() }
}
pub open spec fn sent_by_one(t: Team, x: int) -> bool { exists|k: int| 0 <= k < t.worlds@.len() && #[trigger] t.worlds@[k].out.sent@.contains(x) }
pub open spec fn as_ints(s: Seq<u8>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
// where the results and the position start
#[verifier::external_body]
fn lock_of_results(r: SimulationResults) -> (s: Shared) ensures s.first@ == Some(r), { unimplemented!() }
#[verifier::external_body]
fn lock_of_position(x: u64) -> (s: Shared) ensures s.at@ == x, { unimplemented!() }
#[verifier::external_body]
fn opened(s: &Simulator) -> (r: SimulationResults) ensures s.results.first@ is Some ==> Some(r) == s.results.first@, { unimplemented!() }
// ---- what follows for the results
proof fn lemma_own_steps(h: History, k: int, m: int)
    requires 0 <= m <= h.by.len(), h.whole.len() == h.by.len(), h.rs.len() == h.by.len() + 1,
    ensures own_steps(h.rs, h.by, k, m).len() == own_log(h.whole, h.by, k, m).len(),
    decreases m,
{ if m > 0 { lemma_own_steps(h, k, m - 1); } }
// the j-th merge is one of its thread's
proof fn lemma_whose(h: History, j: int, m: int)
    requires 0 <= j < m <= h.by.len(), h.whole.len() == h.by.len(), h.rs.len() == h.by.len() + 1,
    ensures ({ let k = h.by[j]; let i = own_log(h.whole, h.by, k, j).len() as int;
        i < own_log(h.whole, h.by, k, m).len() && own_log(h.whole, h.by, k, m)[i] == h.whole[j] && own_steps(h.rs, h.by, k, m)[i] == (h.rs[j], h.rs[j + 1]) }),
    decreases m,
{
    let k = h.by[j];
    lemma_own_steps(h, k, j); lemma_own_steps(h, k, m - 1);
    if j < m - 1 { lemma_whose(h, j, m - 1); }
}
pub open spec fn workers_ok(t: Team, n: int) -> bool { forall|k: int| 0 <= k < t.worlds@.len() ==> steps_ok((#[trigger] t.worlds@[k]).log@, t.worlds@[k].steps@, n) }
proof fn lemma_merge_at(t: Team, h: History, r: SimulationResults, n: int, j: int)
    requires history(t, h, r), workers_ok(t, n), 0 <= j < h.whole.len(),
    ensures merged(h.rs[j], h.rs[j + 1], h.whole[j].s, h.whole[j].h), batch_ok(h.whole[j].s, h.whole[j].h, n),
{
    let k = h.by[j];
    let m = h.by.len() as int;
    lemma_whose(h, j, m);
    let i = own_log(h.whole, h.by, k, j).len() as int;
    let w = t.worlds@[k];
    assert(took_part(h, t.worlds@[k], k));
    assert(steps_ok(t.worlds@[k].log@, t.worlds@[k].steps@, n));
    assert(step_ok(w.log@[i], w.steps@[i], n));
}
// C16: the results stay consistent; with a merge, every record has the equity of its counts
pub open spec fn fair_share(u: UnitResults) -> bool { u.equity.r@ == (rl(u.wins as int) + u.corrected_ties.r@) / rl(u.total as int) }
proof fn lemma_left_at(t: Team, h: History, r: SimulationResults, n: int, m: int)
    requires history(t, h, r), workers_ok(t, n), consistent(t.start@), t.start@.wins.len() == n, 0 <= m <= h.whole.len(),
    ensures consistent(h.rs[m]), h.rs[m].wins.len() == n, same_shape(t.start@, h.rs[m]),
        m > 0 ==> forall|i: int| 0 <= i < 1326 * n ==> fair_share(#[trigger] h.rs[m].hand_results@[i]),
    decreases m,
{
    if m > 0 {
        lemma_left_at(t, h, r, n, m - 1);
        lemma_merge_at(t, h, r, n, m - 1);
        let (a, b) = (h.rs[m - 1], h.rs[m]);
        lemma_merged(a, b, h.whole[m - 1].s, h.whole[m - 1].h);
        assert forall|i: int| 0 <= i < a.hand_results.len() implies same_labels(t.start@.hand_results@[i], #[trigger] b.hand_results@[i]) && fair_share(b.hand_results@[i]) by { assert(unit_merged(a.hand_results@[i], b.hand_results@[i], h.whole[m - 1].h[i])); assert(same_labels(t.start@.hand_results@[i], a.hand_results@[i])); }
    }
}
