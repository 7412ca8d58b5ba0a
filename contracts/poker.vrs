// ------------------------------------------------------------------------------------------
// The rules of poker, as specification functions.
// Rank counts: a sequence of 13 numbers, 2 first.  Hands: a sequence of 52 booleans, card c
// has rank c / 4 and suit c % 4.
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn total(c: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(c, n - 1) + c[n - 1] } }
// number of ranks held exactly k times, among the first n
pub open spec fn groups(c: Seq<int>, k: int, n: int) -> int decreases n { if n <= 0 { 0 } else { groups(c, k, n - 1) + b2i(c[n - 1] == k) } }
// the ranks of at most five cards as a number: ranks held most often first, then the higher ones;
// base 14, a missing card counts 0.  digits: (number so far, digits left)
pub open spec fn digit_rank(i: int) -> int { 12 - i % 13 }
pub open spec fn digit_count(i: int) -> int { 4 - i / 13 }
pub open spec fn digits(c: Seq<int>, i: int) -> (int, int)
    decreases i,
{
    if i <= 0 { (0, 5) } else {
        let (a, l) = digits(c, i - 1);
        if c[digit_rank(i - 1)] == digit_count(i - 1) && l > 0 { (a * 14 + digit_rank(i - 1) + 1, l - 1) } else { (a, l) }
    }
}
pub open spec fn pow14(n: int) -> int { if n <= 0 { 1 } else if n == 1 { 14 } else if n == 2 { 196 } else if n == 3 { 2744 } else if n == 4 { 38416 } else { 537824 } }
pub open spec fn tiebreak(c: Seq<int>) -> int { digits(c, 52).0 * pow14(digits(c, 52).1) }
// five ranks in a row, the h-th from below; the lowest is A-2-3-4-5
pub open spec fn straight_at(c: Seq<int>, h: int) -> bool {
    if h == 0 { c[12] > 0 && c[0] > 0 && c[1] > 0 && c[2] > 0 && c[3] > 0 }
    else { c[h - 1] > 0 && c[h] > 0 && c[h + 1] > 0 && c[h + 2] > 0 && c[h + 3] > 0 }
}
// 1 + the highest of the first n straights, or 0
pub open spec fn straight(c: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else if straight_at(c, n - 1) { n } else { straight(c, n - 1) } }
pub open spec fn category5(c: Seq<int>, flush: bool) -> int {
    if straight(c, 10) > 0 { if flush { 9 } else { 5 } }
    else if flush { 6 }
    else if groups(c, 4, 13) > 0 { 8 }
    else if groups(c, 3, 13) > 0 && groups(c, 2, 13) > 0 { 7 }
    else if groups(c, 3, 13) > 0 { 4 }
    else if groups(c, 2, 13) > 1 { 3 }
    else if groups(c, 2, 13) > 0 { 2 }
    else { 1 }
}
// strength of at most five cards: category first, then the straight or the ranks
pub open spec fn st5(c: Seq<int>, flush: bool) -> int {
    category5(c, flush) * 537824 + if straight(c, 10) > 0 { straight(c, 10) } else { tiebreak(c) }
}
// strength of the best five cards of the ranks c: leave cards out one at a time
pub open spec fn best(c: Seq<int>, flush: bool) -> int
    decreases total(c, 13), 14int via best_decreases
{
    if total(c, 13) <= 5 || c.len() != 13 { st5(c, flush) } else { best_upto(c, flush, 13) }
}
pub open spec fn best_upto(c: Seq<int>, flush: bool, n: int) -> int
    decreases total(c, 13), n via best_decreases2
{
    if n <= 0 || n > 13 || total(c, 13) <= 5 || c.len() != 13 { 0 } else {
        let rest = best_upto(c, flush, n - 1);
        if c[n - 1] > 0 { let b = best(c.update(n - 1, c[n - 1] - 1), flush); if b > rest { b } else { rest } } else { rest }
    }
}
#[via_fn]
pub proof fn best_decreases(c: Seq<int>, flush: bool) { }
#[via_fn]
pub proof fn best_decreases2(c: Seq<int>, flush: bool, n: int) {
    if !(n <= 0 || n > 13 || total(c, 13) <= 5 || c.len() != 13) { lemma_total_update(c, n - 1, c[n - 1] - 1, 13); }
}
pub proof fn lemma_total_update(c: Seq<int>, r: int, v: int, n: int)
    requires 0 <= r < c.len(), n <= c.len(),
    ensures total(c.update(r, v), n) == total(c, n) + if r < n { v - c[r] } else { 0 },
    decreases n,
{
    if n > 0 { lemma_total_update(c, r, v, n - 1); }
}

// the cards of a hand
pub open spec fn rank_count(s: Seq<bool>, r: int) -> int { b2i(s[4 * r]) + b2i(s[4 * r + 1]) + b2i(s[4 * r + 2]) + b2i(s[4 * r + 3]) }
pub open spec fn counts(s: Seq<bool>) -> Seq<int> { Seq::new(13, |r: int| rank_count(s, r)) }
pub open spec fn suit_ranks(s: Seq<bool>, k: int) -> Seq<int> { Seq::new(13, |r: int| b2i(s[4 * r + k])) }
pub open spec fn suited(s: Seq<bool>, k: int) -> int { total(suit_ranks(s, k), 13) }
pub open spec fn size(s: Seq<bool>) -> int { total(counts(s), 13) }
pub open spec fn flush_in(s: Seq<bool>) -> bool { suited(s, 0) >= 5 || suited(s, 1) >= 5 || suited(s, 2) >= 5 || suited(s, 3) >= 5 }
// strength of the best five cards of a hand: leave cards out one at a time
pub open spec fn strength(s: Seq<bool>) -> int
    decreases size(s), 53int via strength_decreases
{
    if size(s) <= 5 || s.len() != 52 { st5(counts(s), flush_in(s)) } else { strength_upto(s, 52) }
}
pub open spec fn strength_upto(s: Seq<bool>, n: int) -> int
    decreases size(s), n via strength_decreases2
{
    if n <= 0 || n > 52 || size(s) <= 5 || s.len() != 52 { 0 } else {
        let rest = strength_upto(s, n - 1);
        if s[n - 1] { let b = strength(s.update(n - 1, false)); if b > rest { b } else { rest } } else { rest }
    }
}
#[via_fn]
pub proof fn strength_decreases(s: Seq<bool>) { }
#[via_fn]
pub proof fn strength_decreases2(s: Seq<bool>, n: int) {
    if !(n <= 0 || n > 52 || size(s) <= 5 || s.len() != 52) && s[n - 1] { lemma_remove(s, n - 1); }
}
pub proof fn lemma_remove(s: Seq<bool>, c: int)
    requires s.len() == 52, 0 <= c < 52, s[c],
    ensures
        counts(s.update(c, false)) =~= counts(s).update(c / 4, counts(s)[c / 4] - 1),
        size(s.update(c, false)) == size(s) - 1,
        forall|k: int| 0 <= k < 4 ==> suit_ranks(s.update(c, false), k) =~= if k == c % 4 { suit_ranks(s, k).update(c / 4, 0) } else { suit_ranks(s, k) },
        forall|k: int| 0 <= k < 4 ==> #[trigger] suited(s.update(c, false), k) == suited(s, k) - b2i(k == c % 4),
{
    let t = s.update(c, false);
    assert forall|r: int| 0 <= r < 13 implies counts(t)[r] == counts(s).update(c / 4, counts(s)[c / 4] - 1)[r] by {
        assert(c == 4 * (c / 4) + c % 4);
    }
    assert(counts(t) =~= counts(s).update(c / 4, counts(s)[c / 4] - 1));
    lemma_total_update(counts(s), c / 4, counts(s)[c / 4] - 1, 13);
    assert forall|k: int| 0 <= k < 4 implies suit_ranks(t, k) =~= (if k == c % 4 { suit_ranks(s, k).update(c / 4, 0) } else { suit_ranks(s, k) }) by {
        assert forall|r: int| 0 <= r < 13 implies suit_ranks(t, k)[r] == (if k == c % 4 { suit_ranks(s, k).update(c / 4, 0) } else { suit_ranks(s, k) })[r] by {
            assert(c == 4 * (c / 4) + c % 4);
        }
    }
    assert forall|k: int| 0 <= k < 4 implies #[trigger] suited(t, k) == suited(s, k) - b2i(k == c % 4) by {
        assert(c == 4 * (c / 4) + c % 4);
        lemma_total_update(suit_ranks(s, k), c / 4, 0, 13);
        assert(suit_ranks(t, k) =~= if k == c % 4 { suit_ranks(s, k).update(c / 4, 0) } else { suit_ranks(s, k) });
    }
}
