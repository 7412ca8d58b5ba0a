// ------------------------------------------------------------------------------------------
// What the draw flags say, and the number of ones of a hand's mask.
//@ include onesspec
// the number of ones of a hand's mask is its number of cards
pub proof fn lemma_ones_suit(x: u64, k: int, n: int)
    requires 0 <= k < 4, 0 <= n <= 13,
    ensures ones(x, 16 * (3 - k) + n) == ones(x, 16 * (3 - k)) + total(suit_ranks(cards_of(x), k), n),
    decreases n,
{
    if n > 0 {
        lemma_ones_suit(x, k, n - 1);
        let c = 4 * (n - 1) + k;
        assert(c % 4 == k && c / 4 == n - 1);
        assert(card_pos(c) == 16 * (3 - k) + n - 1);
        assert(suit_ranks(cards_of(x), k)[n - 1] == b2i(x & (1u64 << (16 * (3 - k) + n - 1) as u64) != 0));
    }
}
pub proof fn lemma_ones_group(x: u64, k: int)
    requires 0 <= k < 4, x & 0xe000_e000_e000_e000 == 0,
    ensures ones(x, 16 * (4 - k)) == ones(x, 16 * (3 - k)) + suited(cards_of(x), k),
{
    lemma_ones_suit(x, k, 13);
    let b = (16 * (3 - k)) as u64;
    let (p, q, r) = ((b + 13) as u64, (b + 14) as u64, (b + 15) as u64);
    assert(x & (1u64 << p) == 0 && x & (1u64 << q) == 0 && x & (1u64 << r) == 0) by (bit_vector)
        requires x & 0xe000_e000_e000_e000 == 0, b == 0 || b == 16 || b == 32 || b == 48, p == b + 13, q == b + 14, r == b + 15;
    assert(ones(x, b + 16) == ones(x, b + 15) + 0);
    assert(ones(x, b + 15) == ones(x, b + 14) + 0);
    assert(ones(x, b + 14) == ones(x, b + 13) + 0);
}
pub proof fn lemma_ones(x: u64)
    requires x & 0xe000_e000_e000_e000 == 0,
    ensures ones(x, 64) == size(cards_of(x)),
{
    lemma_ones_group(x, 0); lemma_ones_group(x, 1); lemma_ones_group(x, 2); lemma_ones_group(x, 3);
    lemma_suits(cards_of(x));
}
// the highest card of suit k, from ten upward, that is not on the board t is one of the cards s
pub open spec fn nut(s: Seq<bool>, t: Seq<bool>, k: int) -> bool {
    exists|r: int| 8 <= r < 13 && #[trigger] s[4 * r + k] && forall|q: int| r < q < 13 ==> #[trigger] t[4 * q + k]
}
pub open spec fn has_suit(u: Seq<bool>, n: int) -> bool { suited(u, 0) == n || suited(u, 1) == n || suited(u, 2) == n || suited(u, 3) == n }
// a suit whose draw counts: four cards, or three on a flop
pub open spec fn drawing(u: Seq<bool>, t: Seq<bool>, k: int) -> bool { suited(u, k) == 4 || (suited(u, k) == 3 && size(t) < 4) }
pub open spec fn nut_among(s: Seq<bool>, t: Seq<bool>, n: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] drawing(union(s, t), t, k) && nut(s, t, k) }
// the category "flush" is only reached with five cards of a suit, so get_draw's precondition holds
// whenever rank is the category (less one) of the hole cards and the board together
pub proof fn lemma_not_flush(c: Seq<int>)
    requires nonneg(c),
    ensures best(c, false) / 537824 != 6,
    decreases total(c, 13),
{
    lemma_category(c, false);
    if total(c, 13) > 5 {
        lemma_best_upto(c, false, 13);
        if best_upto(c, false, 13) != 0 {
            let r = choose|r: int| 0 <= r < 13 && c[r] > 0 && best_upto(c, false, 13) == #[trigger] best(c.update(r, c[r] - 1), false);
            lemma_total_update(c, r, c[r] - 1, 13);
            lemma_not_flush(c.update(r, c[r] - 1));
        }
    }
}
pub proof fn theorem_flush_category(s: Seq<bool>)
    requires s.len() == 52, strength(s) / 537824 == 6,
    ensures flush_in(s),
{
    if !flush_in(s) { lemma_counts_nonneg(s); lemma_no_flush(s); lemma_not_flush(counts(s)); }
}
