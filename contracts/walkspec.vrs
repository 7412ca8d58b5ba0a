// ------------------------------------------------------------------------------------------
// Simulated deals.
// ---- the random numbers: the k-th number below m that the generator gives
pub struct Gen { pub id: Ghost<int>, pub at: Ghost<int> }
pub uninterp spec fn draw(g: int, k: int, m: int) -> int;
// the numbers the generator gives for the groups from its position c on, and whether they are a legal deal
pub open spec fn attempt(gs: Seq<CombinedRange>, id: int, c: int) -> Seq<int> { Seq::new(gs.len(), |a: int| draw(id, c + a, gs[a].size as int)) }
// k attempts, one after the other, that failed
pub open spec fn failures(gs: Seq<CombinedRange>, n: int, base: Seq<bool>, id: int, at: Seq<int>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < at.len() ==> #[trigger] at[i] < #[trigger] at[j]) && forall|i: int| 0 <= i < at.len() ==> !legal(gs, attempt(gs, id, #[trigger] at[i]), n, base)
}
pub open spec fn gave_up(sim: Simulator, id: int) -> bool { exists|at: Seq<int>| at.len() == 1000 && #[trigger] failures(sim.combined_ranges@, sim.n_players as int, mask_cards(sim.board_mask | sim.dead_mask), id, at) }
// ---- the walk
// a simulated deal: the joint holdings and the full board
pub struct Sample { pub d: Seq<int>, pub board: Seq<bool> }
pub open spec fn fair(t: Table, x: Sample) -> bool {
    &&& choice(t.gs, x.d) && legal(t.gs, x.d, t.n, t.base) && x.board.len() == 52 && size(x.board) == 5
    &&& forall|c: int| 0 <= c < 52 && #[trigger] t.board[c] ==> x.board[c]
    &&& forall|c: int| 0 <= c < 52 && #[trigger] x.board[c] ==> t.board[c] || free_cards(t.gs, x.d, t.n, t.base)[c]
}
pub open spec fn all_fair(t: Table, xs: Seq<Sample>) -> bool { forall|k: int| 0 <= k < xs.len() ==> fair(t, #[trigger] xs[k]) }
// its showdown, with the product of the weights
pub open spec fn outcome(t: Table, x: Sample) -> Seq<int> { point(winner_set(strengths(x.board, deal_of(held(t.gs, x.d, t.n), t.n))), weight_to(t.gs, x.d, t.n)) }
pub open spec fn outcome_for(t: Table, x: Sample, i: int) -> Seq<int> { if slot_in(t, x.d, i / 1326) == i { outcome(t, x) } else { zero_tally() } }
pub open spec fn outcomes(t: Table, xs: Seq<Sample>) -> Seq<int> decreases xs.len() { if xs.len() == 0 { zero_tally() } else { plus(outcomes(t, xs.drop_last()), outcome(t, xs.last())) } }
pub open spec fn outcomes_for(t: Table, xs: Seq<Sample>, i: int) -> Seq<int> decreases xs.len() { if xs.len() == 0 { zero_tally() } else { plus(outcomes_for(t, xs.drop_last(), i), outcome_for(t, xs.last(), i)) } }
proof fn lemma_outcomes_are_tallies(t: Table, xs: Seq<Sample>, i: int)
    ensures tally(outcomes(t, xs)), tally(outcomes_for(t, xs, i)),
    decreases xs.len(),
{ if xs.len() > 0 { lemma_outcomes_are_tallies(t, xs.drop_last(), i); } }
// the log alone does
pub open spec fn recorded(t: Table, l: Seq<Batch>, xs: Seq<Sample>) -> bool {
    &&& forall|w: int| 0 <= w < 512 ==> #[trigger] log_wins(l, l.len() as int, w) == outcomes(t, xs)[w]
    &&& forall|i: int| 0 <= i < 1326 * t.n ==> #[trigger] hand_total(l, l.len() as int, i) == all_of(outcomes_for(t, xs, i), 512) && hand_wins(l, l.len() as int, i) == won(outcomes_for(t, xs, i), i / 1326, 512)
        && hand_ties(l, l.len() as int, i) == tied(outcomes_for(t, xs, i), i / 1326, 512) && hand_shares(l, l.len() as int, i) == split(outcomes_for(t, xs, i), i / 1326, 512)
}
// the walk xs was made: fair deals, each counted once, in batches of 4096
pub open spec fn walked(sim: Simulator, a: World, b: World, xs: Seq<Sample>) -> bool {
    &&& all_fair(table(sim), xs) && recorded(table(sim), b.log@, xs) && xs.len() == 4096 * (b.log@.len() - 1)
    &&& alone() ==> grown(a.results, b.results, b.log@) && b.results.eval_count == a.results.eval_count + xs.len() && b.results.batch_count.r@ == a.results.batch_count.r@ + rl(b.log@.len() - 1)
}
