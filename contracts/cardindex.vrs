// C04: the index of hole cards.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ include indexspec
//@ grw? CARDS[$i] =>> cards_at($i)
//@ grw? *LOOKUP.get_unchecked($i) =>> lookup_get($i)
//@ grw? LOOKUP[$i] =>> lookup_get($i)
//@ grw? *LOOKUP_FLUSH.get_unchecked($i) =>> flush_get($i)
//@ grw? LOOKUP_FLUSH[$i] =>> flush_get($i)
//@ grw? *PERF_HASH_OFFSETS.get_unchecked($i) =>> offset_get($i)
//@ grw? PERF_HASH_OFFSETS[$i] =>> offset_get($i)
//@ grw? *CARD_MAP.get_unchecked($i) =>> card_map_get($i)
//@ grw? CARD_MAP[$i] =>> card_map_get($i)
//@ grw? *MASK_MAP.get_unchecked($i) =>> mask_map_get($i)
//@ grw? MASK_MAP[$i] =>> mask_map_get($i)

//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ import hand Hand::get_mask
//@ fn src/hand_evaluator/hand.rs get_card_index
//@ ret r
//@ spec
    requires card1 < 52, card2 < 52, card1 != card2,
    ensures r == index_of(card1 as int, card2 as int), 0 <= r < 1326, r < 78 <==> class_of(card1 as int, card2 as int) == 0, r < 390 <==> class_of(card1 as int, card2 as int) <= 1,
//@ at start
    proof {
        let (a, b) = lower_first(card1 as int, card2 as int);
        lemma_index(a, b);
        assert(0 <= a * (101 - a) <= 52 * 101) by (nonlinear_arith) requires 0 <= a < 52;
        assert(a * (101 - a) >= a * 2) by (nonlinear_arith) requires 0 <= a < 52;
    }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::get_card_index
//@ ret r
//@ spec
    requires exists|a: int, b: int| #[trigger] holding(self.mask, a, b),
    ensures forall|a: int, b: int| #[trigger] holding(self.mask, a, b) ==> r == index_of(a, b),
//@ at start
    proof {
        let (a, b) = choose|a: int, b: int| #[trigger] holding(self.mask, a, b);
        lemma_index(a, b);
        let m = self.mask;
        lemma_pos(a, b); lemma_pos(b, a);
        let (p, q) = if card_pos(a) < card_pos(b) { (card_pos(a) as u64, card_pos(b) as u64) } else { (card_pos(b) as u64, card_pos(a) as u64) };
        lemma_two_bits(m, p, q);
        assert(p != q);
        assert((q as u32) | ((p as u32) << 6) == 64 * p + q) by {
            let (x, y) = (p as u32, q as u32);
            assert(y | (x << 6) == 64 * x + y) by (bit_vector) requires x < 64, y < 64;
        }
        assert forall|c: int, d: int| #[trigger] holding(m, c, d) implies c == a && d == b by {
            assert(cards_of(m)[a] && cards_of(m)[b] && cards_of(m)[c] && cards_of(m)[d]);
            assert(two_cards(c, d)[a] && two_cards(c, d)[b] && two_cards(a, b)[c] && two_cards(a, b)[d]);
        }
    }
//@ end
// the mask of exactly the cards a < b
pub open spec fn holding(m: u64, a: int, b: int) -> bool { 0 <= a < b < 52 && cards_of(m) =~= two_cards(a, b) && m & 0xe000_e000_e000_e000 == 0 }
pub proof fn lemma_two_bits(m: u64, p: u64, q: u64)
    requires exists|a: int, b: int| holding(m, a, b) && ((p == card_pos(a) && q == card_pos(b)) || (p == card_pos(b) && q == card_pos(a))), p < q,
    ensures q < 64, vstd::std_specs::bits::u64_trailing_zeros(m) == p, vstd::std_specs::bits::u64_leading_zeros(m) == 63 - q,
{
    let (a, b) = choose|a: int, b: int| holding(m, a, b) && ((p == card_pos(a) && q == card_pos(b)) || (p == card_pos(b) && q == card_pos(a)));
    lemma_pos(a, b); lemma_pos(b, a);
    let w = (1u64 << p) | (1u64 << q);
    assert(w & 0xe000_e000_e000_e000 == 0) by (bit_vector) requires p < 64, q < 64, p % 16 < 13, q % 16 < 13, w == (1u64 << p) | (1u64 << q);
    assert(cards_of(w) =~= two_cards(a, b)) by {
        assert forall|c: int| 0 <= c < 52 implies cards_of(w)[c] == two_cards(a, b)[c] by {
            lemma_pos(c, a); lemma_pos(c, b);
            let z = card_pos(c) as u64;
            assert((w & (1u64 << z) != 0) == (z == p || z == q)) by (bit_vector) requires w == (1u64 << p) | (1u64 << q), z < 64, p < 64, q < 64;
        }
    }
    lemma_same_cards(m, w);
    vstd::std_specs::bits::axiom_u64_trailing_zeros(m);
    vstd::std_specs::bits::axiom_u64_leading_zeros(m);
    assert(m != 0) by (bit_vector) requires m == (1u64 << p) | (1u64 << q), p < 64, q < 64;
    let z = vstd::std_specs::bits::u64_trailing_zeros(m);
    if z < p {
        assert((m >> z as u64) & 1u64 == 1u64);
        let y = z as u64;
        assert((m >> y) & 1u64 == 0u64) by (bit_vector) requires m == (1u64 << p) | (1u64 << q), y < p, p < q, q < 64;
    }
    if z > p {
        assert((m >> p) & 1u64 == 0u64);
        assert((m >> p) & 1u64 == 1u64) by (bit_vector) requires m == (1u64 << p) | (1u64 << q), p < q, q < 64;
    }
    let l = vstd::std_specs::bits::u64_leading_zeros(m);
    if l > 63 - q {
        assert((m >> q) & 1u64 == 0u64);
        assert((m >> q) & 1u64 == 1u64) by (bit_vector) requires m == (1u64 << p) | (1u64 << q), p < q, q < 64;
    }
    if l < 63 - q {
        let y = sub(63u64, l as u64);
        assert((m >> sub(63u64, l as u64)) & 1u64 != 0u64);
        assert((m >> y) & 1u64 == 0u64) by (bit_vector) requires m == (1u64 << p) | (1u64 << q), y > q, p < q, q < 64, y < 64;
    }
}
} // verus!
fn main() {}
