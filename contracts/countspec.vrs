// ------------------------------------------------------------------------------------------
// What an exact calculation counts.
// ---- positions: the groups' choices are the digits of the position
pub open spec fn quot(gs: Seq<CombinedRange>, j: int, k: int) -> int decreases k { if k <= 0 { j } else { quot(gs, j, k - 1) / (gs[k - 1].size as int) } }
pub open spec fn digit(gs: Seq<CombinedRange>, j: int, k: int) -> int { quot(gs, j, k) % (gs[k].size as int) }
pub open spec fn picks_at(gs: Seq<CombinedRange>, j: int) -> Seq<int> { Seq::new(gs.len(), |k: int| digit(gs, j, k)) }
// every board for the deal d, each with the product of the weights; nothing if it is not a legal one
pub open spec fn showdowns(t: Table, d: Seq<int>) -> Seq<int> {
    if legal(t.gs, d, t.n, t.base) { all_boards(deal_of(held(t.gs, d, t.n), t.n), t.board, free_cards(t.gs, d, t.n, t.base), 5 - size(t.board), weight_to(t.gs, d, t.n)) } else { zero_tally() }
}
// those in which the player of record i holds its hand
pub open spec fn showdowns_of(t: Table, d: Seq<int>, i: int) -> Seq<int> { if slot_in(t, d, i / 1326) == i { showdowns(t, d) } else { zero_tally() } }
pub open spec fn sum_all(t: Table, ps: Seq<int>, m: int) -> Seq<int> decreases m { if m <= 0 { zero_tally() } else { plus(sum_all(t, ps, m - 1), showdowns(t, picks_at(t.gs, ps[m - 1]))) } }
pub open spec fn sum_of(t: Table, ps: Seq<int>, m: int, i: int) -> Seq<int> decreases m { if m <= 0 { zero_tally() } else { plus(sum_of(t, ps, m - 1, i), showdowns_of(t, picks_at(t.gs, ps[m - 1]), i)) } }
proof fn lemma_sums_are_tallies(t: Table, ps: Seq<int>, m: int, i: int)
    ensures tally(sum_all(t, ps, m)), tally(sum_of(t, ps, m, i)),
    decreases m,
{ if m > 0 { lemma_sums_are_tallies(t, ps, m - 1, i); } }
// the log alone holds the counts
pub open spec fn logged(t: Table, l: Seq<Batch>, ps: Seq<int>, m: int) -> bool {
    &&& forall|w: int| 0 <= w < 512 ==> #[trigger] log_wins(l, l.len() as int, w) == sum_all(t, ps, m)[w]
    &&& forall|i: int| 0 <= i < 1326 * t.n ==> #[trigger] hand_total(l, l.len() as int, i) == all_of(sum_of(t, ps, m, i), 512) && hand_wins(l, l.len() as int, i) == won(sum_of(t, ps, m, i), i / 1326, 512)
        && hand_ties(l, l.len() as int, i) == tied(sum_of(t, ps, m, i), i / 1326, 512) && hand_shares(l, l.len() as int, i) == split(sum_of(t, ps, m, i), i / 1326, 512)
}
// the positions from a up to b
pub open spec fn span(a: int, b: int) -> Seq<int> { Seq::new(if a < b { (b - a) as nat } else { 0 }, |i: int| a + i) }
proof fn lemma_prefix(t: Table, ps: Seq<int>, qs: Seq<int>, m: int, i: int)
    requires 0 <= m <= ps.len(), m <= qs.len(), forall|k: int| 0 <= k < m ==> ps[k] == qs[k],
    ensures sum_all(t, ps, m) == sum_all(t, qs, m), sum_of(t, ps, m, i) == sum_of(t, qs, m, i),
    decreases m,
{ if m > 0 { lemma_prefix(t, ps, qs, m - 1, i); } }
// some number of this thread's positions is in its log: all of them, and no position is left, if it was not stopped
pub open spec fn thread_done(sim: Simulator, w: World) -> bool {
    exists|m: int| 0 <= m <= w.taken@.len() && #[trigger] logged(table(sim), w.log@, w.taken@, m)
        && (w.flag.set@ || (m == w.taken@.len() && w.pos.v == deals(sim.combined_ranges@, sim.combined_ranges.len() as int)))
}
