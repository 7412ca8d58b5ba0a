// ------------------------------------------------------------------------------------------
// What the two calculations give.
// ks: the ranges without the hands that meet the board or the dead cards; rs: with weights in lowest terms
pub open spec fn left_over(hs: Seq<HandRange>, ks: Seq<HandRange>, board: u64, dead: u64) -> bool { ks.len() == hs.len() && forall|p: int| 0 <= p < hs.len() ==> (#[trigger] ks[p]).hands@ == kept(hs[p].hands@, board, dead) }
pub open spec fn reduced(ks: Seq<HandRange>, rs: Seq<HandRange>) -> bool { rs.len() == ks.len() && forall|p: int| 0 <= p < ks.len() ==> lowest(ks[p], #[trigger] rs[p]) }
pub open spec fn prepared(hs: Seq<HandRange>, ks: Seq<HandRange>, rs: Seq<HandRange>, board: u64, dead: u64) -> bool { left_over(hs, ks, board, dead) && reduced(ks, rs) }
pub open spec fn game(rs: Seq<HandRange>, board: u64, dead: u64) -> Game { Game { rs, board: mask_cards(board), base: mask_cards(board | dead) } }
// what a caller has to give
pub open spec fn fair_request(hs: Seq<HandRange>, board: u64, dead: u64) -> bool {
    &&& proper(hs) && light(hs) && once_each(hs) && board < 0x10_0000_0000_0000 && dead < 0x10_0000_0000_0000
    &&& forall|p: int| 0 <= p < hs.len() ==> (#[trigger] hs[p]).hands.len() <= 0x4000_0000
}
// the number of ways to take one of the remaining hands of each range
pub open spec fn countable(hs: Seq<HandRange>, board: u64, dead: u64) -> bool { forall|ks: Seq<HandRange>| #[trigger] left_over(hs, ks, board, dead) ==> hand_choices(ks, 0) + 2000000 <= u64::MAX }
// ---- C20
pub open spec fn no_deal(g: Game) -> bool { forall|x: Seq<int>| #[trigger] one_of_each(g.rs, x) ==> !fit(hands_at(g.rs, x), g.base) }
pub open spec fn refusal(hs: Seq<HandRange>, board: u64, dead: u64) -> Option<SimulatorError> {
    if hs.len() < 2 { Some(SimulatorError::TooFewPlayers) } else if hs.len() > 9 { Some(SimulatorError::TooManyPlayers) } else if size(mask_cards(board)) > 5 { Some(SimulatorError::TooManyBoardCards) }
    else if 2 * hs.len() + size(mask_cards(dead)) + 5 > 52 { Some(SimulatorError::TooManyDeadCards) } else { None }
}
pub open spec fn refused(hs: Seq<HandRange>, board: u64, dead: u64, r: Result<SimulationResults, SimulatorError>) -> bool {
    &&& r is Err == (refusal(hs, board, dead) is Some || r->Err_0 is ConflictingRanges && r is Err)
    &&& refusal(hs, board, dead) is Some ==> r is Err && Some(r->Err_0) == refusal(hs, board, dead)
}
// a request that is not refused for its numbers fails only if no deal is possible at all, and does so if a range has no hand left
pub open spec fn conflicting(hs: Seq<HandRange>, board: u64, dead: u64) -> bool { exists|ks: Seq<HandRange>| #[trigger] left_over(hs, ks, board, dead) && no_deal(game(ks, board, dead)) }
// ---- C13, C14: the counts are those of all deals once each
pub open spec fn exact_counts(r: SimulationResults, g: Game) -> bool { counts_are(r, |i: int| every_deal(g, i), g.rs.len() as int) }
pub open spec fn counts_every_deal(hs: Seq<HandRange>, board: u64, dead: u64, r: SimulationResults) -> bool { exists|ks: Seq<HandRange>, rs: Seq<HandRange>| #[trigger] prepared(hs, ks, rs, board, dead) && exact_counts(r, game(rs, board, dead)) }
// ---- C15: the counts are those of these simulated deals
pub open spec fn all_proper(g: Game, ys: Seq<Played>) -> bool { forall|k: int| 0 <= k < ys.len() ==> proper_deal(g, #[trigger] ys[k]) }
pub open spec fn played_counts(r: SimulationResults, g: Game, ys: Seq<Played>) -> bool { all_proper(g, ys) && counts_are(r, |i: int| all_played(g, ys, i), g.rs.len() as int) }
pub open spec fn counts_proper_deals(hs: Seq<HandRange>, board: u64, dead: u64, r: SimulationResults) -> bool {
    exists|ks: Seq<HandRange>, rs: Seq<HandRange>, ys: Seq<Played>| #![trigger prepared(hs, ks, rs, board, dead), played_counts(r, game(rs, board, dead), ys)] prepared(hs, ks, rs, board, dead) && played_counts(r, game(rs, board, dead), ys)
}
// ---- C17: class records, and the dealt hands' own rates
pub open spec fn own_rates(u: UnitResults) -> bool { in_play(u) ==> fair_share(u) && u.winrate.r@ == rl(u.wins as int) / rl(u.total as int) && u.tierate.r@ == rl(u.ties as int) / rl(u.total as int) }
pub open spec fn classes_add_up(r: SimulationResults, n: int) -> bool {
    &&& r.hand_results.len() == 1326 * n && r.combo_results.len() == 169 * n
    &&& forall|i: int| 0 <= i < 1326 * n ==> own_rates(#[trigger] r.hand_results@[i])
    &&& forall|p: int, c: int| 0 <= p < n && 0 <= c < 169 ==> class_record(#[trigger] r.combo_results@[169 * p + c], r.hand_results@, 1326 * p + class_start(c), class_size(c))
}
// ---- C18: labels, and the records of the labels
pub open spec fn labels_add_up(r: SimulationResults, n: int) -> bool {
    &&& r.board_results.len() == 9 * n && r.board_draws.len() == 10 * n
    &&& forall|p: int, l: int| 0 <= p < n && 0 <= l < 9 ==> label_record(#[trigger] r.board_results@[9 * p + l], r.hand_results@, l, 1326 * p)
    &&& forall|p: int, l: int| 0 <= p < n && 0 <= l < 10 ==> label_record(#[trigger] r.board_draws@[10 * p + l], r.hand_results@, 9 + l, 1326 * p)
}
pub open spec fn no_labels(r: SimulationResults, n: int) -> bool {
    &&& r.board_results.len() == 9 * n && r.board_draws.len() == 10 * n
    &&& forall|i: int| 0 <= i < 9 * n ==> empty_unit(#[trigger] r.board_results@[i])
    &&& forall|i: int| 0 <= i < 10 * n ==> empty_unit(#[trigger] r.board_draws@[i])
}
pub open spec fn labelled_hands(r: SimulationResults, ks: Seq<HandRange>, board: u64) -> bool { forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() ==> labels_of(r.hand_results@[#[trigger] slot(ks, p, k)], ks[p].hands@[k], mask_cards(board)) }
pub open spec fn labels_right(hs: Seq<HandRange>, board: u64, dead: u64, r: SimulationResults) -> bool {
    let n = hs.len() as int;
    if size(mask_cards(board)) >= 3 { labels_add_up(r, n) && exists|ks: Seq<HandRange>| #[trigger] left_over(hs, ks, board, dead) && labelled_hands(r, ks, board) } else { no_labels(r, n) }
}
// ---- C19: weights
pub open spec fn weighted_hands(r: SimulationResults, ks: Seq<HandRange>) -> bool {
    &&& forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() ==> has_weight(r.hand_results@[#[trigger] slot(ks, p, k)], ks[p].hands@[k].2 as int)
    &&& forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) ==> unheld(#[trigger] r.hand_results@[i])
}
pub open spec fn unheld(u: UnitResults) -> bool { !u.valid && u.weight == 0 && u.total == 0 && u.wins == 0 && u.ties == 0 && u.corrected_ties.r@ == 0real }
pub open spec fn weights_right(hs: Seq<HandRange>, board: u64, dead: u64, r: SimulationResults) -> bool { exists|ks: Seq<HandRange>| #[trigger] left_over(hs, ks, board, dead) && weighted_hands(r, ks) }
// ---- C24
// the generator of a thread that runs alone
pub uninterp spec fn own_generator() -> int;
pub open spec fn out_of_luck(hs: Seq<HandRange>, board: u64, dead: u64) -> bool {
    exists|ks: Seq<HandRange>, rs: Seq<HandRange>, gs: Seq<CombinedRange>, at: Seq<int>| #![trigger prepared(hs, ks, rs, board, dead), groups_of(gs, rs), failures(gs, hs.len() as int, mask_cards(board | dead), own_generator(), at)] prepared(hs, ks, rs, board, dead) && groups_of(gs, rs) && at.len() == 1000 && failures(gs, hs.len() as int, mask_cards(board | dead), own_generator(), at)
}
pub open spec fn whole_batches(r: SimulationResults) -> bool { rl(r.eval_count as int) == rl(4096) * r.batch_count.r@ }
// ---- C23
pub open spec fn rises(sent: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < sent.len() ==> #[trigger] sent[i] <= #[trigger] sent[j] }
