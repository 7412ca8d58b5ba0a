// ------------------------------------------------------------------------------------------
// What is counted, in terms of the players' ranges alone: one hand of each range.
// base: the board and the dead cards
pub struct Game { pub rs: Seq<HandRange>, pub board: Seq<bool>, pub base: Seq<bool> }
// x[p]: the number of player p's hand in p's range
pub open spec fn one_of_each(rs: Seq<HandRange>, x: Seq<int>) -> bool { x.len() == rs.len() && forall|p: int| 0 <= p < rs.len() ==> 0 <= #[trigger] x[p] < rs[p].hands.len() }
pub open spec fn hands_at(rs: Seq<HandRange>, x: Seq<int>) -> Seq<(u8, u8, u8)> { Seq::new(rs.len(), |p: int| (rs[p].hands@[x[p]].0, rs[p].hands@[x[p]].1, rs[p].hands@[x[p]].2)) }
// no card twice, and none that is on the board or dead
pub open spec fn fit(hp: Seq<(u8, u8, u8)>, base: Seq<bool>) -> bool {
    &&& forall|p: int| 0 <= p < hp.len() ==> disjoint(base, pair(#[trigger] hp[p]))
    &&& forall|p: int, q: int| 0 <= p < q < hp.len() ==> disjoint(pair(#[trigger] hp[p]), pair(#[trigger] hp[q]))
}
pub open spec fn among(hp: Seq<(u8, u8, u8)>, c: int) -> bool { exists|p: int| 0 <= p < hp.len() && pair(#[trigger] hp[p])[c] }
pub open spec fn cards_left(hp: Seq<(u8, u8, u8)>, base: Seq<bool>) -> Seq<bool> { Seq::new(52, |c: int| !base[c] && !among(hp, c)) }
pub open spec fn weights_to(hp: Seq<(u8, u8, u8)>, k: int) -> int decreases k { if k <= 0 { 1 } else { weights_to(hp, k - 1) * hp[k - 1].2 } }
pub open spec fn hole_sets(hp: Seq<(u8, u8, u8)>) -> Seq<Seq<bool>> { Seq::new(hp.len(), |p: int| pair(hp[p])) }
pub open spec fn holds_record(hp: Seq<(u8, u8, u8)>, i: int) -> bool { 1326 * (i / 1326) + index_of(hp[i / 1326].0 as int, hp[i / 1326].1 as int) == i }
// every completion of the board for these hands, each with the product of the weights
pub open spec fn runouts(g: Game, x: Seq<int>) -> Seq<int> {
    let hp = hands_at(g.rs, x);
    if fit(hp, g.base) { all_boards(hole_sets(hp), g.board, cards_left(hp, g.base), 5 - size(g.board), weights_to(hp, hp.len() as int)) } else { zero_tally() }
}
// all of them (i < 0), or those in which the player of record i holds its hand
pub open spec fn runouts_of(g: Game, x: Seq<int>, i: int) -> Seq<int> { if i < 0 || holds_record(hands_at(g.rs, x), i) { runouts(g, x) } else { zero_tally() } }
// the sum over one hand of each range: the first hands are given, the next one is among the first k
pub open spec fn sum_hands(g: Game, x: Seq<int>, k: int, i: int) -> Seq<int> decreases g.rs.len() - x.len(), k {
    if x.len() >= g.rs.len() { runouts_of(g, x, i) } else if k <= 0 { zero_tally() }
    else { plus(sum_hands(g, x, k - 1, i), sum_hands(g, x.push(k - 1), hands_of(g.rs, x.len() as int + 1), i)) }
}
pub open spec fn hands_of(rs: Seq<HandRange>, p: int) -> int { if p < rs.len() { rs[p].hands.len() as int } else { 0 } }
// C13: the count of every deal
pub open spec fn every_deal(g: Game, i: int) -> Seq<int> { sum_hands(g, Seq::<int>::empty(), hands_of(g.rs, 0), i) }
// the number of ways to take one hand of each range from the p-th on
pub open spec fn hand_choices(rs: Seq<HandRange>, p: int) -> int decreases rs.len() - p { if p >= rs.len() { 1 } else { rs[p].hands.len() * hand_choices(rs, p + 1) } }
// C15: a simulated deal: one hand of each range and a full board
pub struct Played { pub x: Seq<int>, pub board: Seq<bool> }
pub open spec fn proper_deal(g: Game, y: Played) -> bool {
    let hp = hands_at(g.rs, y.x);
    &&& one_of_each(g.rs, y.x) && fit(hp, g.base) && y.board.len() == 52 && size(y.board) == 5
    &&& forall|c: int| 0 <= c < 52 && #[trigger] g.board[c] ==> y.board[c]
    &&& forall|c: int| 0 <= c < 52 && #[trigger] y.board[c] ==> g.board[c] || cards_left(hp, g.base)[c]
}
// its showdown, with the product of the weights
pub open spec fn played(g: Game, y: Played, i: int) -> Seq<int> {
    let hp = hands_at(g.rs, y.x);
    if i < 0 || holds_record(hp, i) { point(winner_set(strengths(y.board, hole_sets(hp))), weights_to(hp, hp.len() as int)) } else { zero_tally() }
}
pub open spec fn all_played(g: Game, ys: Seq<Played>, i: int) -> Seq<int> decreases ys.len() { if ys.len() == 0 { zero_tally() } else { plus(all_played(g, ys.drop_last(), i), played(g, ys.last(), i)) } }
// the results hold the counts c(-1) for the winner sets and c(i) for record i
pub open spec fn counts_are(r: SimulationResults, c: spec_fn(int) -> Seq<int>, n: int) -> bool {
    &&& forall|w: int| 0 <= w < r.wins_by_mask.len() ==> #[trigger] r.wins_by_mask@[w] == c(-1)[w]
    &&& forall|i: int| 0 <= i < 1326 * n ==> unit_is(#[trigger] r.hand_results@[i], c(i), i / 1326)
}
pub open spec fn unit_is(u: UnitResults, t: Seq<int>, p: int) -> bool { u.total == all_of(t, 512) && u.wins == won(t, p, 512) && u.ties == tied(t, p, 512) && u.corrected_ties.r@ == split(t, p, 512) }
