// C16, C17, C18: from the counts of the hands to equities, class records, category and draw records.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ floats
//@ grw? self.combo_results.shrink_to_fit() =>> shrink(&mut self.combo_results)
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ include simspec
//@ include world
//@ include finalspec
//@ item src/equity_calculator/simulator.rs struct BigUnitResults derive=Clone,Copy
//@ import merge <Default for UnitResults>::default
// a vector's spare capacity
#[verifier::external_body]
fn shrink<T>(v: &mut Vec<T>)
    ensures final(v)@ == old(v)@,
{ unimplemented!() }
// ---- C16: equities
pub open spec fn pots(t: Seq<int>, n: int, k: int) -> real decreases n { if n <= 0 { 0real } else { pots(t, n - 1, k) + rl(won(t, n - 1, k)) + split(t, n - 1, k) } }
proof fn lemma_pots(t: Seq<int>, n: int, k: int)
    requires 0 <= n, 0 < k,
    ensures pots(t, n, k) == pots(t, n, k - 1) + if winners(k - 1, 9) == 1 { rl(t[k - 1]) * rl(winners(k - 1, n)) } else if winners(k - 1, 9) > 1 { rl(t[k - 1]) / rl(winners(k - 1, 9)) * rl(winners(k - 1, n)) } else { 0real },
    decreases n,
{
    let (x, c) = (rl(t[k - 1]), rl(winners(k - 1, 9)));
    if n > 0 {
        lemma_pots(t, n - 1, k);
        let (m, b) = (rl(winners(k - 1, n - 1)), rl(b2i(has(k - 1, n - 1))));
        assert(x * (m + b) == x * m + x * b) by (nonlinear_arith);
        let y = x / c;
        assert(y * (m + b) == y * m + y * b) by (nonlinear_arith);
        assert(x * 1real == x && x * 0real == 0real && y * 1real == y && y * 0real == 0real) by (nonlinear_arith);
    } else {
        assert(x * 0real == 0real) by (nonlinear_arith);
        let y = x / c;
        assert(y * 0real == 0real) by (nonlinear_arith);
    }
}
proof fn lemma_some_winner(w: int, n: int)
    requires 0 < w < p2(n), 0 <= n <= 9,
    ensures winners(w, n) >= 1,
    decreases n,
{
    lemma_p2(n);
    if n > 0 {
        lemma_p2(n - 1);
        lemma_winners_nonneg(w, n - 1);
        let (x, y) = (w as u64, (n - 1) as u64);
        if w < p2(n - 1) { lemma_some_winner(w, n - 1); }
        else { assert(x & (1u64 << y) != 0) by (bit_vector) requires 1u64 << y <= x, x < 1u64 << add(y, 1), y < 9; assert(add(y, 1) == n as u64); }
    }
}
proof fn lemma_winners_nonneg(w: int, k: int)
    ensures winners(w, k) >= 0,
    decreases k,
{ if k > 0 { lemma_winners_nonneg(w, k - 1); } }
// beyond the first n bits there is nothing
proof fn lemma_few(w: int, n: int, k: int)
    requires 0 <= n <= 9, 0 <= w < p2(n), n <= k <= 64,
    ensures winners(w, k) == winners(w, n),
    decreases k,
{
    lemma_p2(n);
    if k > n {
        lemma_few(w, n, k - 1);
        let (x, m, q) = (w as u64, n as u64, (k - 1) as u64);
        assert(x & (1u64 << q) == 0) by (bit_vector) requires x < 1u64 << m, m <= q, q < 64;
    }
}
// every pot is shared out completely
proof fn lemma_all_pots(t: Seq<int>, n: int, k: int)
    requires 0 <= n <= 9, 0 <= k <= p2(n), t.len() == 512, t[0] == 0,
    ensures pots(t, n, k) == rl(all_of(t, k)),
    decreases k,
{
    lemma_p2(n);
    if k > 0 {
        lemma_all_pots(t, n, k - 1); lemma_pots(t, n, k); lemma_few(k - 1, n, 9);
        let (x, c) = (rl(t[k - 1]), rl(winners(k - 1, 9)));
        if k > 1 { lemma_some_winner(k - 1, n); assert(x / c * c == x) by (nonlinear_arith) requires c > 0real; assert(x * 1real == x) by (nonlinear_arith); }
        else { let m = rl(winners(0, n)); assert(x == 0real); if c > 0real { assert(0real / c == 0real) by (nonlinear_arith) requires c > 0real; } assert(0real * m == 0real) by (nonlinear_arith); }
    } else { lemma_no_pots(t, n); }
}
proof fn lemma_no_pots(t: Seq<int>, n: int)
    ensures pots(t, n, 0) == 0real,
    decreases n,
{ if n > 0 { lemma_no_pots(t, n - 1); } }
proof fn lemma_zero_from(t: Seq<int>, p: int, j: int, k: int)
    requires 0 <= j <= k <= t.len(), forall|w: int| j <= w < k ==> #[trigger] t[w] == 0,
    ensures won(t, p, k) == won(t, p, j), tied(t, p, k) == tied(t, p, j), split(t, p, k) == split(t, p, j), all_of(t, k) == all_of(t, j),
    decreases k,
{ if k > j { lemma_zero_from(t, p, j, k - 1); if winners(k - 1, 9) > 1 { let c = rl(winners(k - 1, 9)); assert(0real / c == 0real) by (nonlinear_arith) requires c > 0real; } } }
proof fn lemma_shares(e: Seq<F64>, t: Seq<int>, k: int, m: int, all: real)
    requires 0 <= k <= e.len(), all > 0real, forall|p: int| 0 <= p < e.len() ==> (#[trigger] e[p]).r@ == (rl(won(t, p, m)) + split(t, p, m)) / all,
    ensures sum_to(e, k) == pots(t, k, m) / all,
    decreases k,
{
    if k > 0 {
        lemma_shares(e, t, k - 1, m, all);
        let (a, b) = (pots(t, k - 1, m), rl(won(t, k - 1, m)) + split(t, k - 1, m));
        assert((a + b) / all == a / all + b / all) by (nonlinear_arith) requires all > 0real;
    } else { assert(0real / all == 0real) by (nonlinear_arith) requires all > 0real; }
}
//@ fn src/equity_calculator/simulator.rs SimulationResults::get_equity
//@ spec
    requires consistent(*old(self)),
    ensures shares_out(*final(self)), *final(self) == (SimulationResults { equities: final(self).equities, ..*old(self) }),
//@ at start
    let ghost n = self.wins.len() as int;
    let ghost t = tally_of(self.wins_by_mask@);
    let ghost m = p2(n);
    let ghost s0 = *self;
    proof { lemma_p2(n); assert forall|p: int| 0 <= p < n implies #[trigger] self.wins@[p] == won(t, p, m) && self.ties@[p].r@ == split(t, p, m) by { lemma_zero_from(t, p, m, 512); assert(self.ties@[p].r@ == split(t, p, 512)); } }
//@ loop 1
    invariant 0 <= k__1 <= n, e__1 == n, n == self.wins.len(), *self == s0, self.ties.len() == n, equity.len() == n, equity_sum.r@ == pots(t, k__1 as int, m),
        forall|p: int| 0 <= p < n ==> #[trigger] self.wins@[p] == won(t, p, m) && self.ties@[p].r@ == split(t, p, m),
        forall|p: int| 0 <= p < n ==> (#[trigger] equity@[p]).r@ == if p < k__1 { rl(won(t, p, m)) + split(t, p, m) } else { 0real },
    decreases e__1 - k__1,
//@ loop 2
    invariant 0 <= k__2 <= equity.len(), equity.len() == n, equity_sum.r@ == pots(t, n, m),
        forall|p: int| 0 <= p < n ==> (#[trigger] equity@[p]).r@ == if p < k__2 { (rl(won(t, p, m)) + split(t, p, m)) / equity_sum.r@ } else { rl(won(t, p, m)) + split(t, p, m) },
    decreases equity.len() - k__2,
//@ at end
    proof {
        lemma_all_pots(t, n, m);
        let all = rl(all_of(t, m));
        if all > 0real { lemma_shares(self.equities@, t, n, m, all); assert(all / all == 1real) by (nonlinear_arith) requires all > 0real; }
        assert forall|p: int| 0 <= p < n implies won(t, p, m) == won(t, p, 512) && split(t, p, m) == split(t, p, 512) by { lemma_zero_from(t, p, m, 512); }
    }
//@ end
// the classes done so far
pub open spec fn classes_to(q: Seq<UnitResults>, h: Seq<UnitResults>, i: int, c0: int) -> bool {
    &&& q.len() == 169 * i + c0
    &&& forall|p: int, c: int| 0 <= p && 0 <= c < 169 && 169 * p + c < 169 * i + c0 ==> class_record(#[trigger] q[169 * p + c], h, 1326 * p + class_start(c), class_size(c))
}
proof fn lemma_real_over_one(x: real)
    ensures x / rl(1) == x,
{ let y = rl(1); assert(x / y == x) by (nonlinear_arith) requires y == 1real; }
proof fn lemma_over_one(x: int)
    ensures forall|y: int| y == 1 ==> #[trigger] (x / y) == x,
{ assert forall|y: int| y == 1 implies #[trigger] (x / y) == x by { assert(x / y == x) by (nonlinear_arith) requires y == 1; } }
// scaled sums fit 64 bits
proof fn lemma_scaled(t: int, x: int)
    requires 0 <= x <= t,
    ensures scale(t) >= 1, 0 <= x / scale(t) <= u64::MAX, t > 0 ==> t / scale(t) > 0,
{
    let m = scale(t); let q = u64::MAX as int;
    if t > q {
        assert(1 <= t / q && t / q * q <= t && t < (t / q + 1) * q) by (nonlinear_arith) requires t > q, q == 0xffff_ffff_ffff_ffff;
        assert(m == t / q + 1);
        assert(0 <= x / m <= q) by (nonlinear_arith) requires 0 <= x <= t, t < m * q, m > 1;
        assert(m <= t) by (nonlinear_arith) requires m == t / q + 1, t / q * q <= t, t > q, q == 0xffff_ffff_ffff_ffff;
        assert(t / m > 0) by (nonlinear_arith) requires t >= m, m > 1;
    } else { lemma_over_one(x); lemma_over_one(t); }
}
//@ fn src/equity_calculator/simulator.rs SimulationResults::generate_final_data
//@ spec
    requires old(self).hand_results.len() == 1326 * old(self).equities.len(), old(self).equities.len() <= 9, old(self).combo_results.len() == 0, forall|i: int| 0 <= i < old(self).hand_results.len() ==> (#[trigger] old(self).hand_results@[i]).weight <= 255,
    ensures final_classes(*old(self), *final(self), old(self).equities.len() as int),
//@ at start
    let ghost n = self.equities.len() as int;
    let ghost h = self.hand_results@;
    let ghost s0 = *self;
//@ loop 1
    invariant 0 <= k__1 <= n, e__1 == n, n <= 9, h.len() == 1326 * n, self.hand_results.len() == 1326 * n, *self == (SimulationResults { hand_results: self.hand_results, combo_results: self.combo_results, ..s0 }), h == s0.hand_results@,
        forall|x: int| 0 <= x < h.len() ==> (#[trigger] h[x]).weight <= 255,
        forall|x: int| 0 <= x < 1326 * k__1 ==> rated(h[x], #[trigger] self.hand_results@[x]),
        forall|x: int| 1326 * k__1 <= x < h.len() ==> h[x] == #[trigger] self.hand_results@[x],
        classes_to(self.combo_results@, h, k__1 as int, 0),
    decreases e__1 - k__1,
//@ at loop 1 start
    let ghost mut c = 0int;
//@ loop 2
    invariant 0 <= i < n, n <= 9, 0 <= c <= 169, j == class_start(c), h.len() == 1326 * n, self.hand_results.len() == 1326 * n, *self == (SimulationResults { hand_results: self.hand_results, combo_results: self.combo_results, ..s0 }), h == s0.hand_results@,
        forall|x: int| 0 <= x < h.len() ==> (#[trigger] h[x]).weight <= 255,
        forall|x: int| 0 <= x < 1326 * i + j ==> rated(h[x], #[trigger] self.hand_results@[x]),
        forall|x: int| 1326 * i + j <= x < h.len() ==> h[x] == #[trigger] self.hand_results@[x],
        classes_to(self.combo_results@, h, i as int, c),
    decreases 169 - c,
//@ at loop 2 start
    let ghost lo = 1326 * i + j;
    let ghost q0 = self.combo_results@;
//@ loop 3
    invariant 0 <= k__3 <= e__3, e__3 == batch_size, batch_size == class_size(c), batch_size <= 12, lo == 1326 * i + j, 0 <= lo, lo + batch_size <= h.len(), i < 9, j < 1326, h.len() == 1326 * n, self.hand_results.len() == 1326 * n, *self == (SimulationResults { hand_results: self.hand_results, combo_results: self.combo_results, ..s0 }), h == s0.hand_results@, self.combo_results@ == q0,
        forall|x: int| 0 <= x < h.len() ==> (#[trigger] h[x]).weight <= 255,
        forall|x: int| 0 <= x < lo + k__3 ==> rated(h[x], #[trigger] self.hand_results@[x]),
        forall|x: int| lo + k__3 <= x < h.len() ==> h[x] == #[trigger] self.hand_results@[x],
        counter == n_of(h, lo, k__3 as int), 0 <= counter <= k__3, total == t_of(h, lo, k__3 as int), total <= k__3 * u64::MAX, wins == w_of(h, lo, k__3 as int), wins <= k__3 * u64::MAX, ties == e_of(h, lo, k__3 as int), ties <= k__3 * u64::MAX,
        corrected_ties.r@ == c_of(h, lo, k__3 as int), weight == g_of(h, lo, k__3 as int), weight <= 255 * k__3, total >= counter,
    decreases e__3 - k__3,
//@ at loop 3 post
    proof { lemma_real_over_one(corrected_ties.r@); let t = total as int; lemma_scaled(t, t); lemma_over_one(t); lemma_over_one(wins as int); lemma_over_one(ties as int); if wins <= t { lemma_scaled(t, wins as int); } if ties <= t { lemma_scaled(t, ties as int); } }
//@ at loop 2 end
    proof {
        assert forall|p: int, d: int| 0 <= p && 0 <= d < 169 && 169 * p + d < 169 * i + c + 1 implies class_record(#[trigger] self.combo_results@[169 * p + d], h, 1326 * p + class_start(d), class_size(d)) by {
            if 169 * p + d < 169 * i + c { assert(self.combo_results@[169 * p + d] == q0[169 * p + d]); } else { assert(p == i && d == c); }
        }
        c = c + 1;
    }
//@ end
pub open spec fn big_sum(b: BigUnitResults, h: Seq<UnitResults>, l: int, lo: int, k: int) -> bool {
    b.total == lt_of(h, l, lo, k) && b.wins == lw_of(h, l, lo, k) && b.ties == le_of(h, l, lo, k) && b.corrected_ties.r@ == lc_of(h, l, lo, k) && b.weight == lg_of(h, l, lo, k)
}
proof fn lemma_label_bound(h: Seq<UnitResults>, l: int, lo: int, k: int)
    requires 0 <= k, 0 <= lo, lo + k <= h.len(), forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).weight <= 255,
    ensures 0 <= lt_of(h, l, lo, k) <= k * u64::MAX, 0 <= lw_of(h, l, lo, k) <= k * u64::MAX, 0 <= le_of(h, l, lo, k) <= k * u64::MAX, 0 <= lg_of(h, l, lo, k) <= 255 * k,
    decreases k,
{ if k > 0 { lemma_label_bound(h, l, lo, k - 1); assert(h[lo + k - 1].weight <= 255); } }
// the records of the labels from b on after j hands of player i
pub open spec fn sums_to(q: Seq<BigUnitResults>, h: Seq<UnitResults>, b: int, m: int, n: int, i: int, j: int) -> bool {
    &&& q.len() == m * n
    &&& forall|p: int, l: int| 0 <= p < n && 0 <= l < m ==> big_sum(#[trigger] q[m * p + l], h, b + l, 1326 * p, if p < i { 1326 } else if p == i { j } else { 0 })
}
//@ fn src/equity_calculator/simulator.rs <Default for BigUnitResults>::default
//@ inherent
//@ ret r
//@ spec
    ensures r.total == 0, r.wins == 0, r.ties == 0, r.corrected_ties.r@ == 0real, r.weight == 0,
//@ end
//@ fn src/equity_calculator/simulator.rs SimulationResults::generate_board_data
//@ rw let $one_r; if $c { $one_r = $a; } else { $one_r = $b; } =>> let $one_r = if $c { $a } else { $b };
//@ spec
    requires old(self).hand_results.len() == 1326 * old(self).equities.len(), old(self).equities.len() <= 9, old(self).board_results.len() == 9 * old(self).equities.len(), old(self).board_draws.len() == 10 * old(self).equities.len(),
        forall|i: int| 0 <= i < old(self).hand_results.len() ==> (#[trigger] old(self).hand_results@[i]).weight <= 255 && (old(self).hand_results@[i].valid ==> old(self).hand_results@[i].rank < 9),
        forall|i: int| 0 <= i < old(self).board_results.len() ==> empty_unit(#[trigger] old(self).board_results@[i]),
        forall|i: int| 0 <= i < old(self).board_draws.len() ==> empty_unit(#[trigger] old(self).board_draws@[i]),
    ensures final_labels(*old(self), *final(self), old(self).equities.len() as int),
//@ at start
    let ghost n = self.equities.len() as int;
    let ghost h = self.hand_results@;
    let ghost mut was4 = self.board_results@;
    let ghost mut was5 = self.board_draws@;
    let ghost s0 = *self;
//@ loop 1
    invariant 0 <= k__1 <= n, e__1 == n, n <= 9, h.len() == 1326 * n, *self == s0, h == s0.hand_results@,
        forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).weight <= 255 && (h[i].valid ==> h[i].rank < 9),
        sums_to(big_rank_data@, h, 0, 9, n, k__1 as int, 0), sums_to(big_draw_data@, h, 9, 10, n, k__1 as int, 0),
    decreases e__1 - k__1,
//@ loop 2
    invariant 0 <= k__2 <= 1326, e__2 == 1326, 0 <= i < n, n <= 9, h.len() == 1326 * n, *self == s0, h == s0.hand_results@,
        forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).weight <= 255 && (h[i].valid ==> h[i].rank < 9),
        sums_to(big_rank_data@, h, 0, 9, n, i as int, k__2 as int), sums_to(big_draw_data@, h, 9, 10, n, i as int, k__2 as int),
    decreases e__2 - k__2,
//@ at loop 2 start
    let ghost qr = big_rank_data@;
    let ghost qd = big_draw_data@;
    proof {
        assert forall|l: int| 0 <= l < 19 implies 0 <= #[trigger] lt_of(h, l, 1326 * i, j as int) <= 1326 * u64::MAX && 0 <= lw_of(h, l, 1326 * i, j as int) <= 1326 * u64::MAX && 0 <= le_of(h, l, 1326 * i, j as int) <= 1326 * u64::MAX && 0 <= lg_of(h, l, 1326 * i, j as int) <= 338130 by { lemma_label_bound(h, l, 1326 * i, j as int); }
        assert(h[1326 * i + j].weight <= 255);
        let r = h[1326 * i + j].rank as int;
        if h[1326 * i + j].valid { assert(big_sum(qr[9 * i + r], h, r, 1326 * i, j as int)); }
        assert(1u8 << 0u8 == 1) by (bit_vector);
    }
//@ loop 3
    invariant 0 <= k__3 <= 7, e__3 == 7, 0 <= i < n, 0 <= j < 1326, n <= 9, *self == s0, h == s0.hand_results@, h.len() == 1326 * n, *hand == h[1326 * i + j], draw == hand.draw, hand.valid, hand.weight <= 255, mask == 1u8 << (k__3 as u8),
        forall|l: int| 0 <= l < 19 ==> 0 <= #[trigger] lt_of(h, l, 1326 * i, j as int) <= 1326 * u64::MAX && 0 <= lw_of(h, l, 1326 * i, j as int) <= 1326 * u64::MAX && 0 <= le_of(h, l, 1326 * i, j as int) <= 1326 * u64::MAX && 0 <= lg_of(h, l, 1326 * i, j as int) <= 338130,
        sums_to(qd, h, 9, 10, n, i as int, j as int), big_draw_data.len() == 10 * n,
        forall|x: int| 0 <= x < 10 * n && !(10 * i <= x < 10 * i + k__3) ==> qd[x] == #[trigger] big_draw_data@[x],
        forall|l: int| 0 <= l < k__3 ==> big_sum(#[trigger] big_draw_data@[10 * i + l], h, 9 + l, 1326 * i, j + 1),
    decreases e__3 - k__3,
//@ at loop 3 start
    proof {
        assert(big_sum(qd[10 * i + k], h, 9 + k, 1326 * i, j as int));
        let x = k as u8;
        assert((1u8 << x) << 1 == 1u8 << add(x, 1)) by (bit_vector) requires x < 8;
    }
//@ at loop 3 post
    let ghost qm = big_draw_data@;
    proof {
        assert(big_sum(qd[10 * i + 7], h, 16, 1326 * i, j as int)); assert(big_sum(qd[10 * i + 8], h, 17, 1326 * i, j as int)); assert(big_sum(qd[10 * i + 9], h, 18, 1326 * i, j as int));
        assert(mask >> 1 == 1u8 << 6 && mask >> 2 == 1u8 << 5) by (bit_vector) requires mask == 1u8 << 7;
    }
//@ at loop 2 end
    proof {
        let u = h[1326 * i + j];
        assert forall|p: int, l: int| 0 <= p < n && 0 <= l < 9 implies big_sum(#[trigger] big_rank_data@[9 * p + l], h, l, 1326 * p, if p < i { 1326 } else if p == i { j + 1 } else { 0 }) by {
            assert(big_sum(qr[9 * p + l], h, l, 1326 * p, if p < i { 1326 } else if p == i { j as int } else { 0 }));
        }
        assert forall|p: int, l: int| 0 <= p < n && 0 <= l < 10 implies big_sum(#[trigger] big_draw_data@[10 * p + l], h, 9 + l, 1326 * p, if p < i { 1326 } else if p == i { j + 1 } else { 0 }) by {
            assert(big_sum(qd[10 * p + l], h, 9 + l, 1326 * p, if p < i { 1326 } else if p == i { j as int } else { 0 }));
        }
    }
//@ at loop 4 pre
    proof { was4 = self.board_results@; }
//@ loop 4
    invariant was4 == self.board_results@, 0 <= k__4 <= 9 * n, n <= 9, h.len() == 1326 * n, forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).weight <= 255, self.board_results.len() == 9 * n, *self == (SimulationResults { board_results: self.board_results, ..s0 }), s0.board_draws.len() == 10 * n, forall|x: int| 0 <= x < 10 * n ==> empty_unit(#[trigger] s0.board_draws@[x]), sums_to(big_draw_data@, h, 9, 10, n, n, 0), h == s0.hand_results@, sums_to(big_rank_data@, h, 0, 9, n, n, 0),
        forall|x: int| k__4 <= x < 9 * n ==> empty_unit(#[trigger] self.board_results@[x]),
        forall|p: int, l: int| 0 <= p < n && 0 <= l < 9 && 9 * p + l < k__4 ==> label_record(#[trigger] self.board_results@[9 * p + l], h, 0 + l, 1326 * p),
    decreases 9 * n - k__4,
//@ at loop 4 start
    let ghost z4 = (k__4 - 1) as int;
    proof { lemma_real_over_one(big_rank_data.corrected_ties.r@); lemma_over_one(big_rank_data.total as int); lemma_over_one(big_rank_data.wins as int); lemma_over_one(big_rank_data.ties as int); let t = big_rank_data.total as int; lemma_scaled(t, t); if big_rank_data.wins <= t { lemma_scaled(t, big_rank_data.wins as int); } if big_rank_data.ties <= t { lemma_scaled(t, big_rank_data.ties as int); } assert(9 * (z4 / 9) + z4 % 9 == z4); assert(0 <= z4 / 9 < n); assert(big_sum(*big_rank_data, h, 0 + z4 % 9, 1326 * (z4 / 9), 1326)); lemma_label_bound(h, 0 + z4 % 9, 1326 * (z4 / 9), 1326); }
//@ at loop 4 end
    proof {
        assert forall|p: int, l: int| 0 <= p < n && 0 <= l < 9 && 9 * p + l < k__4 implies label_record(#[trigger] self.board_results@[9 * p + l], h, 0 + l, 1326 * p) by {
            if 9 * p + l < z4 { assert(self.board_results@[9 * p + l] == was4[9 * p + l]); } else { assert(p == z4 / 9 && l == z4 % 9); }
        }
        was4 = self.board_results@;
    }
//@ at loop 5 pre
    proof { was5 = self.board_draws@; }
//@ loop 5
    invariant was5 == self.board_draws@, 0 <= k__5 <= 10 * n, n <= 9, h.len() == 1326 * n, forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).weight <= 255, self.board_draws.len() == 10 * n, *self == (SimulationResults { board_results: self.board_results, board_draws: self.board_draws, ..s0 }), self.board_results.len() == 9 * n, forall|p: int, l: int| 0 <= p < n && 0 <= l < 9 ==> label_record(#[trigger] self.board_results@[9 * p + l], h, l, 1326 * p), h == s0.hand_results@, sums_to(big_draw_data@, h, 9, 10, n, n, 0),
        forall|x: int| k__5 <= x < 10 * n ==> empty_unit(#[trigger] self.board_draws@[x]),
        forall|p: int, l: int| 0 <= p < n && 0 <= l < 10 && 10 * p + l < k__5 ==> label_record(#[trigger] self.board_draws@[10 * p + l], h, 9 + l, 1326 * p),
    decreases 10 * n - k__5,
//@ at loop 5 start
    let ghost z5 = (k__5 - 1) as int;
    proof { lemma_real_over_one(big_draw_data.corrected_ties.r@); lemma_over_one(big_draw_data.total as int); lemma_over_one(big_draw_data.wins as int); lemma_over_one(big_draw_data.ties as int); let t = big_draw_data.total as int; lemma_scaled(t, t); if big_draw_data.wins <= t { lemma_scaled(t, big_draw_data.wins as int); } if big_draw_data.ties <= t { lemma_scaled(t, big_draw_data.ties as int); } assert(10 * (z5 / 10) + z5 % 10 == z5); assert(0 <= z5 / 10 < n); assert(big_sum(*big_draw_data, h, 9 + z5 % 10, 1326 * (z5 / 10), 1326)); lemma_label_bound(h, 9 + z5 % 10, 1326 * (z5 / 10), 1326); }
//@ at loop 5 end
    proof {
        assert forall|p: int, l: int| 0 <= p < n && 0 <= l < 10 && 10 * p + l < k__5 implies label_record(#[trigger] self.board_draws@[10 * p + l], h, 9 + l, 1326 * p) by {
            if 10 * p + l < z5 { assert(self.board_draws@[10 * p + l] == was5[10 * p + l]); } else { assert(p == z5 / 10 && l == z5 % 10); }
        }
        was5 = self.board_draws@;
    }
//@ end
} // verus!
fn main() {}
