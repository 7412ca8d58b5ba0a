// ------------------------------------------------------------------------------------------
// The figures of a finished calculation.
pub open spec fn sum_to(e: Seq<F64>, n: int) -> real decreases n { if n <= 0 { 0real } else { sum_to(e, n - 1) + e[n - 1].r@ } }
// C16: player p's equity is the share of all counted pots, and the equities add up to one
pub open spec fn shares_out(r: SimulationResults) -> bool {
    let t = tally_of(r.wins_by_mask@); let n = r.wins.len() as int; let all = rl(all_of(t, p2(n)));
    &&& r.equities.len() == n
    &&& all > 0real ==> (forall|p: int| 0 <= p < n ==> (#[trigger] r.equities@[p]).r@ == (rl(won(t, p, 512)) + split(t, p, 512)) / all) && sum_to(r.equities@, n) == 1real
}
// ---- C17: class records
pub open spec fn class_start(c: int) -> int { if c < 13 { 6 * c } else if c < 91 { 78 + 4 * (c - 13) } else { 390 + 12 * (c - 91) } }
pub open spec fn class_size(c: int) -> int { if c < 13 { 6 } else if c < 91 { 4 } else { 12 } }
// a hand that was dealt
pub open spec fn in_play(u: UnitResults) -> bool { u.valid && u.total > 0 }
pub open spec fn n_of(h: Seq<UnitResults>, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { n_of(h, lo, k - 1) + if in_play(h[lo + k - 1]) { 1int } else { 0 } } }
pub open spec fn t_of(h: Seq<UnitResults>, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { t_of(h, lo, k - 1) + if in_play(h[lo + k - 1]) { h[lo + k - 1].total as int } else { 0 } } }
pub open spec fn w_of(h: Seq<UnitResults>, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { w_of(h, lo, k - 1) + if in_play(h[lo + k - 1]) { h[lo + k - 1].wins as int } else { 0 } } }
pub open spec fn e_of(h: Seq<UnitResults>, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { e_of(h, lo, k - 1) + if in_play(h[lo + k - 1]) { h[lo + k - 1].ties as int } else { 0 } } }
pub open spec fn c_of(h: Seq<UnitResults>, lo: int, k: int) -> real decreases k { if k <= 0 { 0real } else { c_of(h, lo, k - 1) + if in_play(h[lo + k - 1]) { h[lo + k - 1].corrected_ties.r@ } else { 0real } } }
pub open spec fn g_of(h: Seq<UnitResults>, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { g_of(h, lo, k - 1) + if in_play(h[lo + k - 1]) { h[lo + k - 1].weight as int } else { 0 } } }
// sums beyond 64 bits are all divided by the same whole number
pub open spec fn scale(t: int) -> int { if t > u64::MAX { t / (u64::MAX as int) + 1 } else { 1 } }
// the record of the k hands from lo on
pub open spec fn class_record(u: UnitResults, h: Seq<UnitResults>, lo: int, k: int) -> bool {
    &&& n_of(h, lo, k) == 0 ==> empty_unit(u)
    &&& n_of(h, lo, k) > 0 && w_of(h, lo, k) <= t_of(h, lo, k) && e_of(h, lo, k) <= t_of(h, lo, k) ==> {
        let m = scale(t_of(h, lo, k));
        &&& u.total == t_of(h, lo, k) / m && u.wins == w_of(h, lo, k) / m && u.ties == e_of(h, lo, k) / m && u.corrected_ties.r@ == c_of(h, lo, k) / rl(m)
        &&& u.equity.r@ == (rl(u.wins as int) + u.corrected_ties.r@) / rl(u.total as int) && u.winrate.r@ == rl(u.wins as int) / rl(u.total as int) && u.tierate.r@ == rl(u.ties as int) / rl(u.total as int)
        &&& u.weight == g_of(h, lo, k) / k && u.rank == 255 && u.draw == 0 && u.valid
    }
}
// a hand's own rates
pub open spec fn rated(a: UnitResults, b: UnitResults) -> bool {
    if in_play(a) { b == (UnitResults { winrate: b.winrate, tierate: b.tierate, ..a }) && b.winrate.r@ == rl(a.wins as int) / rl(a.total as int) && b.tierate.r@ == rl(a.ties as int) / rl(a.total as int) }
    else if a.valid { b == (UnitResults { equity: b.equity, ..a }) && b.equity.r@ == 0real }
    else { b == a }
}
pub open spec fn final_classes(a: SimulationResults, b: SimulationResults, n: int) -> bool {
    &&& b.hand_results.len() == a.hand_results.len() && b.combo_results.len() == 169 * n
    &&& forall|i: int| 0 <= i < 1326 * n ==> rated(a.hand_results@[i], #[trigger] b.hand_results@[i])
    &&& forall|p: int, c: int| 0 <= p < n && 0 <= c < 169 ==> class_record(#[trigger] b.combo_results@[169 * p + c], a.hand_results@, 1326 * p + class_start(c), class_size(c))
    &&& b == (SimulationResults { hand_results: b.hand_results, combo_results: b.combo_results, ..a })
}
// ---- C18: category and draw records
pub open spec fn bit(d: u8, k: int) -> bool { d & (1u8 << (k as u8)) != 0 }
// what record l stands for: 0..=8 the categories, 9 + k the draw flag k, 16 backdoor nut draw, 17 nut draw, 18 nut flush
pub open spec fn labelled(u: UnitResults, l: int) -> bool {
    u.valid && if l < 9 { u.rank == l } else if l < 16 { bit(u.draw, l - 9) } else {
        bit(u.draw, 7) && if l == 17 { bit(u.draw, 5) } else if l == 16 { bit(u.draw, 6) && !bit(u.draw, 5) } else { !bit(u.draw, 6) && !bit(u.draw, 5) }
    }
}
pub open spec fn lt_of(h: Seq<UnitResults>, l: int, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { lt_of(h, l, lo, k - 1) + if labelled(h[lo + k - 1], l) { h[lo + k - 1].total as int } else { 0 } } }
pub open spec fn lw_of(h: Seq<UnitResults>, l: int, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { lw_of(h, l, lo, k - 1) + if labelled(h[lo + k - 1], l) { h[lo + k - 1].wins as int } else { 0 } } }
pub open spec fn le_of(h: Seq<UnitResults>, l: int, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { le_of(h, l, lo, k - 1) + if labelled(h[lo + k - 1], l) { h[lo + k - 1].ties as int } else { 0 } } }
pub open spec fn lc_of(h: Seq<UnitResults>, l: int, lo: int, k: int) -> real decreases k { if k <= 0 { 0real } else { lc_of(h, l, lo, k - 1) + if labelled(h[lo + k - 1], l) { h[lo + k - 1].corrected_ties.r@ } else { 0real } } }
pub open spec fn lg_of(h: Seq<UnitResults>, l: int, lo: int, k: int) -> int decreases k { if k <= 0 { 0 } else { lg_of(h, l, lo, k - 1) + if labelled(h[lo + k - 1], l) { h[lo + k - 1].weight as int } else { 0 } } }
pub open spec fn label_record(u: UnitResults, h: Seq<UnitResults>, l: int, lo: int) -> bool {
    &&& lt_of(h, l, lo, 1326) == 0 ==> empty_unit(u)
    &&& lt_of(h, l, lo, 1326) > 0 && lw_of(h, l, lo, 1326) <= lt_of(h, l, lo, 1326) && le_of(h, l, lo, 1326) <= lt_of(h, l, lo, 1326) ==> {
        let m = scale(lt_of(h, l, lo, 1326));
        &&& u.total == lt_of(h, l, lo, 1326) / m && u.wins == lw_of(h, l, lo, 1326) / m && u.ties == le_of(h, l, lo, 1326) / m && u.corrected_ties.r@ == lc_of(h, l, lo, 1326) / rl(m) && u.weight == lg_of(h, l, lo, 1326)
        &&& u.equity.r@ == (rl(u.wins as int) + u.corrected_ties.r@) / rl(u.total as int) && u.winrate.r@ == rl(u.wins as int) / rl(u.total as int) && u.tierate.r@ == u.corrected_ties.r@ / rl(u.total as int)
    }
}
pub open spec fn final_labels(a: SimulationResults, b: SimulationResults, n: int) -> bool {
    &&& b.board_results.len() == 9 * n && b.board_draws.len() == 10 * n && b == (SimulationResults { board_results: b.board_results, board_draws: b.board_draws, ..a })
    &&& forall|p: int, l: int| 0 <= p < n && 0 <= l < 9 ==> label_record(#[trigger] b.board_results@[9 * p + l], a.hand_results@, l, 1326 * p)
    &&& forall|p: int, l: int| 0 <= p < n && 0 <= l < 10 ==> label_record(#[trigger] b.board_draws@[10 * p + l], a.hand_results@, 9 + l, 1326 * p)
}
