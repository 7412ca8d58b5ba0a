// C18, C19, C21: weights and labels of the hands' records, and weights in lowest terms.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ floats
//@ grw? let mut $one_r = self.results.write().unwrap(); =>> let $one_r = shared;
//@ grw? hand_ranges.to_owned() =>> owned(hand_ranges)
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ include indexspec
//@ include drawspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ import hand Hand::get_mask
//@ import hand Hand::from_hole_cards
//@ import hand Hand::from_bit_mask
//@ import evaluate Hand::evaluate
//@ import draw get_draw
//@ import cardindex get_card_index
pub open spec fn scored(st: int) -> bool { 0 <= st < score_map().len() && score_of(st) > 0 }
//@ include simspec
//@ include rangesok
//@ include recordspec
// ---- C19
pub open spec fn part_full(r: HandRange, k: int) -> bool { forall|j: int| 0 <= j < k ==> (#[trigger] r.hands@[j]).2 == 100 }
pub open spec fn same_otherwise(a: UnitResults, b: UnitResults) -> bool { b == (UnitResults { weight: b.weight, valid: b.valid, ..a }) }
// weights noted for the players before p in full, and for the first k hands of player p
pub open spec fn noted(a: Seq<UnitResults>, b: Seq<UnitResults>, rs: Seq<HandRange>, p: int, k: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> same_otherwise(a[i], #[trigger] b[i])
    &&& forall|q: int, j: int| 0 <= q < p && 0 <= j < rs[q].hands.len() ==> has_weight(b[#[trigger] slot(rs, q, j)], kept_weight(rs, q, j))
    &&& forall|j: int| 0 <= j < k ==> has_weight(b[#[trigger] slot(rs, p, j)], rs[p].hands@[j].2 as int)
    &&& forall|i: int| 0 <= i < a.len() && no_slot(rs, i) ==> #[trigger] b[i] == a[i]
}
//@ fn src/equity_calculator/simulator.rs Simulator::save_hand_weights
//@ ret r
//@ sig &self =>> &self, shared: &mut SimulationResults
//@ spec
    requires proper(self.hand_ranges@), once_each(self.hand_ranges@), self.hand_ranges.len() <= 9, old(shared).hand_results.len() == 1326 * self.hand_ranges.len(),
    ensures noted_weights(old(shared).hand_results@, final(shared).hand_results@, self.hand_ranges@), *final(shared) == (SimulationResults { hand_results: final(shared).hand_results, ..*old(shared) }),
        forall|p: int| 0 <= p < self.hand_ranges.len() ==> #[trigger] flagged(r, p) == full(self.hand_ranges@[p]),
//@ at start
    let ghost rs = self.hand_ranges@;
    let ghost n = rs.len() as int;
    let ghost a = shared.hand_results@;
    let ghost s0 = *shared;
    proof { tables_indices(); theorem_bijection(); }
//@ loop 1
    invariant 0 <= k__1 <= n, rs == self.hand_ranges@, n == rs.len(), n <= 9, proper(rs), once_each(rs), indices_ok(), a == s0.hand_results@, a.len() == 1326 * n,
        *results == (SimulationResults { hand_results: results.hand_results, ..s0 }), noted(a, results.hand_results@, rs, k__1 as int, 0),
        forall|p: int| 0 <= p < k__1 ==> #[trigger] flagged(flag, p) == full(rs[p]),
    decreases n - k__1,
//@ at loop 1 start
    let ghost f0 = flag;
    let ghost p = k__1 - 1;
//@ at loop 2 pre
    proof {
        let x = p as u16; let y = p as usize;
        assert forall|q: int| 0 <= q < 9 implies #[trigger] flagged(flag, q) == (q == p || flagged(f0, q)) by {
            let z = q as u16;
            assert((f0 | (1u16 << y)) & (1u16 << z) != 0 <==> (z == x || f0 & (1u16 << z) != 0)) by (bit_vector) requires x < 9, z < 9, x == y;
        }
    }
//@ loop 2
    invariant 0 <= k__2 <= hand_range.hands.len(), 0 <= p < n, p == i, *hand_range == rs[p], rs == self.hand_ranges@, n == rs.len(), n <= 9, proper(rs), once_each(rs), indices_ok(), a == s0.hand_results@, a.len() == 1326 * n,
        *results == (SimulationResults { hand_results: results.hand_results, ..s0 }), noted(a, results.hand_results@, rs, p, k__2 as int),
        forall|q: int| 0 <= q < 9 && q != p ==> #[trigger] flagged(flag, q) == flagged(f0, q), flagged(flag, p) == check, check == part_full(rs[p], k__2 as int),
    decreases hand_range.hands.len() - k__2,
//@ at loop 2 start
    let ghost b0 = results.hand_results@;
    let ghost f1 = flag;
    let ghost c1 = check;
    proof { lemma_slot(rs, p, k__2 - 1); assert(deck_hand(rs[p].hands@[k__2 - 1])); }
//@ at loop 2 end
    proof {
        let b = results.hand_results@;
        let s = slot(rs, p, k__2 - 1);
        assert forall|q: int, j: int| 0 <= q < p && 0 <= j < rs[q].hands.len() implies has_weight(b[#[trigger] slot(rs, q, j)], kept_weight(rs, q, j)) by { lemma_slots(rs, q, j, p, k__2 - 1); }
        assert forall|j: int| 0 <= j < k__2 implies has_weight(b[#[trigger] slot(rs, p, j)], rs[p].hands@[j].2 as int) by { lemma_slots(rs, p, j, p, k__2 - 1); }
        assert forall|x: int| 0 <= x < a.len() && no_slot(rs, x) implies #[trigger] b[x] == a[x] by { assert(slot(rs, p, k__2 - 1) != x); assert(b0[x] == a[x]); }
        assert forall|x: int| 0 <= x < a.len() implies same_otherwise(a[x], #[trigger] b[x]) by { assert(same_otherwise(a[x], b0[x])); }
        assert(part_full(rs[p], k__2 as int) == (part_full(rs[p], k__2 - 1) && rs[p].hands@[k__2 - 1].2 == 100));
        let y = p as usize; let x = p as u16;
        assert forall|q: int| 0 <= q < 9 implies #[trigger] flagged(flag, q) == if q == p { check } else { flagged(f1, q) } by {
            let z = q as u16;
            assert((f1 ^ (1u16 << y)) & (1u16 << z) != 0 <==> if z == x { f1 & (1u16 << z) == 0 } else { f1 & (1u16 << z) != 0 }) by (bit_vector) requires x < 9, z < 9, x == y;
        }
    }
//@ loop 3
    invariant 0 <= k__3 <= hand_range.hands.len(), 0 <= p < n, p == i, *hand_range == rs[p], rs == self.hand_ranges@, n == rs.len(), n <= 9, proper(rs), once_each(rs), indices_ok(), a == s0.hand_results@, a.len() == 1326 * n,
        *results == (SimulationResults { hand_results: results.hand_results, ..s0 }), noted(a, results.hand_results@, rs, p, 0), full(rs[p]),
        forall|j: int| 0 <= j < rs[p].hands.len() ==> has_weight(results.hand_results@[#[trigger] slot(rs, p, j)], if j < k__3 { 1 } else { 100 }),
    decreases hand_range.hands.len() - k__3,
//@ at loop 3 start
    let ghost b0 = results.hand_results@;
    proof { lemma_slot(rs, p, k__3 - 1); assert(deck_hand(rs[p].hands@[k__3 - 1])); }
//@ at loop 3 end
    proof {
        let b = results.hand_results@;
        let s = slot(rs, p, k__3 - 1);
        assert(has_weight(b0[s], 100));
        assert forall|q: int, j: int| 0 <= q < p && 0 <= j < rs[q].hands.len() implies has_weight(b[#[trigger] slot(rs, q, j)], kept_weight(rs, q, j)) by { lemma_slots(rs, q, j, p, k__3 - 1); }
        assert forall|j: int| 0 <= j < rs[p].hands.len() implies has_weight(b[#[trigger] slot(rs, p, j)], if j < k__3 { 1 } else { 100 }) by { lemma_slots(rs, p, j, p, k__3 - 1); }
        assert forall|x: int| 0 <= x < a.len() && no_slot(rs, x) implies #[trigger] b[x] == a[x] by { assert(slot(rs, p, k__3 - 1) != x); assert(b0[x] == a[x]); }
        assert forall|x: int| 0 <= x < a.len() implies same_otherwise(a[x], #[trigger] b[x]) by { assert(same_otherwise(a[x], b0[x])); }
    }
//@ at loop 1 end
    proof {
        assert(check == full(rs[p]));
        assert forall|q: int| 0 <= q < k__1 implies #[trigger] flagged(flag, q) == full(rs[q]) by {}
    }
//@ end
//@ fn src/equity_calculator/simulator.rs Simulator::fix_hand_weights
//@ sig flag: u16 =>> flag: u16, shared: &mut SimulationResults
//@ spec
    requires proper(self.hand_ranges@), once_each(self.hand_ranges@), self.hand_ranges.len() <= 9, old(shared).hand_results.len() == 1326 * self.hand_ranges.len(),
        forall|p: int| 0 <= p < self.hand_ranges.len() ==> #[trigger] flagged(flag, p) == full(self.hand_ranges@[p]),
        forall|p: int, k: int| 0 <= p < self.hand_ranges.len() && 0 <= k < self.hand_ranges@[p].hands.len() ==> has_weight(old(shared).hand_results@[#[trigger] slot(self.hand_ranges@, p, k)], kept_weight(self.hand_ranges@, p, k)),
    ensures shows_weights(old(shared).hand_results@, final(shared).hand_results@, self.hand_ranges@), *final(shared) == (SimulationResults { hand_results: final(shared).hand_results, ..*old(shared) }),
//@ at start
    let ghost rs = self.hand_ranges@;
    let ghost n = rs.len() as int;
    let ghost a = shared.hand_results@;
    let ghost s0 = *shared;
    proof { tables_indices(); theorem_bijection(); }
//@ loop 1
    invariant 0 <= k__1 <= n, rs == self.hand_ranges@, n == rs.len(), n <= 9, proper(rs), once_each(rs), indices_ok(), a == s0.hand_results@, a.len() == 1326 * n, results.hand_results.len() == a.len(),
        *results == (SimulationResults { hand_results: results.hand_results, ..s0 }), forall|p: int| 0 <= p < n ==> #[trigger] flagged(flag, p) == full(rs[p]),
        forall|i: int| 0 <= i < a.len() ==> weight_only(a[i], #[trigger] results.hand_results@[i]),
        forall|i: int| 0 <= i < a.len() && no_slot(rs, i) ==> #[trigger] results.hand_results@[i] == a[i],
        forall|q: int, j: int| 0 <= q < n && 0 <= j < rs[q].hands.len() ==> has_weight(results.hand_results@[#[trigger] slot(rs, q, j)], if q < k__1 { rs[q].hands@[j].2 as int } else { kept_weight(rs, q, j) }),
    decreases n - k__1,
//@ at loop 1 start
    let ghost p = k__1 - 1;
    proof { assert(flagged(flag, p) == full(rs[p])); let (x, y) = (p as u16, p as usize); assert(1u16 << x == 1u16 << y) by (bit_vector) requires x == y, x < 9; }
//@ loop 2
    invariant 0 <= k__2 <= hand_range.hands.len(), 0 <= p < n, p == i, p == k__1 - 1, *hand_range == rs[p], rs == self.hand_ranges@, n == rs.len(), n <= 9, proper(rs), once_each(rs), indices_ok(), a == s0.hand_results@, a.len() == 1326 * n, results.hand_results.len() == a.len(),
        *results == (SimulationResults { hand_results: results.hand_results, ..s0 }), full(rs[p]),
        forall|i: int| 0 <= i < a.len() ==> weight_only(a[i], #[trigger] results.hand_results@[i]),
        forall|i: int| 0 <= i < a.len() && no_slot(rs, i) ==> #[trigger] results.hand_results@[i] == a[i],
        forall|q: int, j: int| 0 <= q < n && 0 <= j < rs[q].hands.len() ==> has_weight(results.hand_results@[#[trigger] slot(rs, q, j)], if q < p || (q == p && j < k__2) { rs[q].hands@[j].2 as int } else { kept_weight(rs, q, j) }),
    decreases hand_range.hands.len() - k__2,
//@ at loop 2 start
    let ghost b0 = results.hand_results@;
    proof { lemma_slot(rs, p, k__2 - 1); assert(deck_hand(rs[p].hands@[k__2 - 1])); assert(rs[p].hands@[k__2 - 1].2 == 100); }
//@ at loop 2 end
    proof {
        let b = results.hand_results@;
        let s = slot(rs, p, k__2 - 1);
        assert forall|q: int, j: int| 0 <= q < n && 0 <= j < rs[q].hands.len() implies has_weight(b[#[trigger] slot(rs, q, j)], if q < p || (q == p && j < k__2) { rs[q].hands@[j].2 as int } else { kept_weight(rs, q, j) }) by { lemma_slots(rs, q, j, p, k__2 - 1); }
        assert forall|x: int| 0 <= x < a.len() && no_slot(rs, x) implies #[trigger] b[x] == a[x] by { assert(slot(rs, p, k__2 - 1) != x); assert(b0[x] == a[x]); }
        assert forall|x: int| 0 <= x < a.len() implies weight_only(a[x], #[trigger] b[x]) by { assert(weight_only(a[x], b0[x])); }
    }
//@ end
// ---- C18
//@ fn src/equity_calculator/simulator.rs Simulator::set_ranks
//@ sig &self =>> &self, shared: &mut SimulationResults
//@ rw let draw; if get_draws { draw = $a; } else { draw = $b; } =>> let draw = if get_draws { $a } else { $b };
//@ rw board + holding =>> board.add(holding)
//@ spec
    requires proper(self.hand_ranges@), once_each(self.hand_ranges@), self.hand_ranges.len() <= 9, old(shared).hand_results.len() == 1326 * self.hand_ranges.len(),
        3 <= size(mask_cards(self.board_mask)) <= 5, off_board(self.hand_ranges@, mask_cards(self.board_mask)),
    ensures labels_set(old(shared).hand_results@, final(shared).hand_results@, self.hand_ranges@, mask_cards(self.board_mask)), *final(shared) == (SimulationResults { hand_results: final(shared).hand_results, ..*old(shared) }),
//@ at start
    let ghost rs = self.hand_ranges@;
    let ghost n = rs.len() as int;
    let ghost a = shared.hand_results@;
    let ghost s0 = *shared;
    let ghost bs = mask_cards(self.board_mask);
    proof { tables_indices(); theorem_bijection(); }
//@ at loop 1 pre
    proof { lemma_ones(board.mask); assert(cards_of(board.mask) =~= bs); }
//@ loop 1
    invariant 0 <= k__1 <= n, rs == self.hand_ranges@, n == rs.len(), n <= 9, proper(rs), once_each(rs), indices_ok(), a == s0.hand_results@, a.len() == 1326 * n, results.hand_results.len() == a.len(), bs == mask_cards(self.board_mask), is_hand(board, bs), 3 <= size(bs) <= 5, get_draws == (size(bs) < 5), off_board(rs, bs),
        *results == (SimulationResults { hand_results: results.hand_results, ..s0 }),
        forall|i: int| 0 <= i < a.len() ==> labels_only(a[i], #[trigger] results.hand_results@[i]),
        forall|i: int| 0 <= i < a.len() && no_slot(rs, i) ==> #[trigger] results.hand_results@[i] == a[i],
        forall|q: int, j: int| 0 <= q < k__1 && 0 <= j < rs[q].hands.len() ==> labels_of(results.hand_results@[#[trigger] slot(rs, q, j)], rs[q].hands@[j], bs),
    decreases n - k__1,
//@ at loop 1 start
    let ghost p = k__1 - 1;
//@ loop 2
    invariant 0 <= k__2 <= hand_range.hands.len(), 0 <= p < n, p == i, p == k__1 - 1, *hand_range == rs[p], rs == self.hand_ranges@, n == rs.len(), n <= 9, proper(rs), once_each(rs), indices_ok(), a == s0.hand_results@, a.len() == 1326 * n, results.hand_results.len() == a.len(), bs == mask_cards(self.board_mask), is_hand(board, bs), 3 <= size(bs) <= 5, get_draws == (size(bs) < 5), off_board(rs, bs),
        *results == (SimulationResults { hand_results: results.hand_results, ..s0 }),
        forall|i: int| 0 <= i < a.len() ==> labels_only(a[i], #[trigger] results.hand_results@[i]),
        forall|i: int| 0 <= i < a.len() && no_slot(rs, i) ==> #[trigger] results.hand_results@[i] == a[i],
        forall|q: int, j: int| 0 <= q < n && 0 <= j < rs[q].hands.len() && (q < p || (q == p && j < k__2)) ==> labels_of(results.hand_results@[#[trigger] slot(rs, q, j)], rs[q].hands@[j], bs),
    decreases hand_range.hands.len() - k__2,
//@ at loop 2 start
    let ghost b0 = results.hand_results@;
    let ghost hs = two_cards(hand.0 as int, hand.1 as int);
    proof {
        lemma_slot(rs, p, k__2 - 1); assert(deck_hand(rs[p].hands@[k__2 - 1])); tables_cards();
        assert(!bs[hand.0 as int] && !bs[hand.1 as int]);
    }
//@ at stmt `let h = ` 1 before
    proof { lemma_add(board, bs, 3, holding, hs, 0); lemma_mask_or(board.mask, holding.mask); }
//@ at stmt `let rank = ` 1 before
    proof { assert(is_hand(h, union(bs, hs))); assert(cards_of(h.mask) =~= union(bs, hs)); }
//@ at stmt `let rank = ` 1 after
    proof {
        lemma_scored(strength(union(bs, hs)));
        lemma_positive(union(bs, hs));
        assert(union(bs, hs) =~= union(hs, bs));
        if strength(union(bs, hs)) / 537824 == 6 { theorem_flush_category(union(bs, hs)); }
        assert(holds(holding, hs, 0) && is_hand(board, bs));
    }
//@ at loop 2 end
    proof {
        let b = results.hand_results@;
        let s = slot(rs, p, k__2 - 1);
        let x = union(hs, bs);
        lemma_nine(x);
        assert(labels_of(b[s], rs[p].hands@[k__2 - 1], bs));
        assert forall|q: int, j: int| 0 <= q < n && 0 <= j < rs[q].hands.len() && (q < p || (q == p && j < k__2)) implies labels_of(b[#[trigger] slot(rs, q, j)], rs[q].hands@[j], bs) by { lemma_slots(rs, q, j, p, k__2 - 1); }
        assert forall|x: int| 0 <= x < a.len() && no_slot(rs, x) implies #[trigger] b[x] == a[x] by { assert(slot(rs, p, k__2 - 1) != x); assert(b0[x] == a[x]); }
        assert forall|x: int| 0 <= x < a.len() implies labels_only(a[x], #[trigger] b[x]) by { assert(labels_only(a[x], b0[x])); }
    }
//@ end
proof fn lemma_nine(s: Seq<bool>)
    requires s.len() == 52,
    ensures 1 <= strength(s) / 537824 <= 9,
{
    theorem_best_five(s);
    if size(s) <= 5 { lemma_category(counts(s), flush_in(s)); } else {
        let t = choose|t: Seq<bool>| part_of(t, s) && size(t) == 5 && #[trigger] st5(counts(t), flush_in(t)) == strength(s);
        lemma_category(counts(t), flush_in(t));
    }
}
proof fn lemma_scored(st: int)
    requires scored(st),
    ensures score_of(st) / 4096 == st / 537824,
{ tables_scores(); assert(scores(score_map())); }
// ---- C21
//@ fn src/equity_calculator/simulator.rs reduce_weights
//@ ret r
//@ rw (divisor, rest) = ($a, $b); =>> let t__ = ($a, $b); divisor = t__.0; rest = t__.1;
//@ spec
    ensures r.len() == hand_ranges.len(), forall|p: int| 0 <= p < r.len() ==> lowest(hand_ranges@[p], #[trigger] r@[p]),
//@ at start
    let ghost rs = hand_ranges@;
    let ghost n = rs.len() as int;
//@ loop 1
    invariant 0 <= k__1 <= n, hand_ranges.len() == n, n == rs.len(),
        forall|p: int| 0 <= p < k__1 ==> lowest(rs[p], #[trigger] hand_ranges@[p]), forall|p: int| k__1 <= p < n ==> rs[p] == #[trigger] hand_ranges@[p],
    decreases n - k__1,
//@ at loop 1 start
    let ghost h = rs[k__1 - 1].hands@;
//@ loop 2
    invariant 0 <= k__2 <= hand_range.hands.len(), hand_range.hands@ == h, divisor == gcd_to(h, k__2 as int),
    decreases h.len() - k__2,
//@ at loop 2 start
    let ghost d0 = divisor as int;
    let ghost w0 = hand.2 as int;
//@ loop 3
    invariant gcd(divisor as int, rest as int) == gcd(d0, w0),
    decreases rest,
//@ loop 4
    invariant 0 <= k__4 <= hand_range.hands.len(), hand_range.hands.len() == h.len(), divisor > 1, divisor == gcd_to(h, h.len() as int), hand_range.char_vec == rs[k__1 - 1].char_vec,
        forall|k: int| 0 <= k < h.len() ==> #[trigger] hand_range.hands@[k] == (RangeCombo { 2: if k < k__4 { (h[k].2 / divisor) as u8 } else { h[k].2 }, ..h[k] }),
    decreases h.len() - k__4,
//@ end
//@ include scalespec
} // verus!
fn main() {}
