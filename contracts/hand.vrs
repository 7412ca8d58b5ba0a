// C03 (and C01, C02, C04, C22, which build on it): hand values.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ grw? CARDS[$i] =>> cards_at($i)
//@ grw? *LOOKUP.get_unchecked($i) =>> lookup_get($i)
//@ grw? LOOKUP[$i] =>> lookup_get($i)
//@ grw? *LOOKUP_FLUSH.get_unchecked($i) =>> flush_get($i)
//@ grw? LOOKUP_FLUSH[$i] =>> flush_get($i)
//@ grw? *PERF_HASH_OFFSETS.get_unchecked($i) =>> offset_get($i)
//@ grw? PERF_HASH_OFFSETS[$i] =>> offset_get($i)
//@ grw? *CARD_MAP.get_unchecked($i) =>> card_map_get($i)
//@ grw? CARD_MAP[$i] =>> card_map_get($i)
//@ grw? *MASK_MAP.get_unchecked($i) =>> mask_map_get($i)
//@ grw? MASK_MAP[$i] =>> mask_map_get($i)

//@ fn src/hand_evaluator/hand.rs <Add for Hand>::add
//@ end
//@ fn src/hand_evaluator/hand.rs <AddAssign for Hand>::add_assign
//@ end
//@ fn src/hand_evaluator/hand.rs <Default for Hand>::default
//@ ret r
//@ spec
    ensures r.key == 0x3333_0000_0000_0000, r.mask == 0,
//@ at start
    proof { assert(0x3333u64 << 48u64 == 0x3333_0000_0000_0000u64) by (bit_vector); assert(0x3333u64 << 48u8 == 0x3333_0000_0000_0000u64) by (bit_vector); }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::from_hole_cards
//@ ret r
//@ spec
    requires c1 < 52, c2 < 52, c1 != c2,
    ensures holds(r, two_cards(c1 as int, c2 as int), 0), size(two_cards(c1 as int, c2 as int)) == 2, r == hole_hand(c1, c2),
//@ at start
    proof {
        tables_cards();
        let (a, b) = (Hand { key: card_key(c1 as int) as u64, mask: card_mask(c1 as int) }, Hand { key: card_key(c2 as int) as u64, mask: card_mask(c2 as int) });
        assert(card_entry(c1 as int) && card_entry(c2 as int));
        lemma_one_card(a, c1 as int); lemma_one_card(b, c2 as int);
        lemma_add(a, one_card(c1 as int), 0, b, one_card(c2 as int), 0);
        assert(union(one_card(c1 as int), one_card(c2 as int)) =~= two_cards(c1 as int, c2 as int));
    }
//@ at tail
    proof { theorem_same_set(r__, hole_hand(c1, c2), two_cards(c1 as int, c2 as int), 0); }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::get_key
//@ ret r
//@ spec
    ensures r == self.key,
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::get_mask
//@ ret r
//@ spec
    ensures r == self.mask,
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::contains
//@ ret r
//@ spec
    requires card < 52,
    ensures r == cards_of(self.mask)[card as int],
//@ at start
    proof { lemma_pos(card as int, card as int); }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::get_counters
//@ ret r
//@ spec
    ensures r == self.key as int / 0x1_0000_0000,
//@ at start
    proof {
        let k = self.key;
        assert(k >> 32 == k / 0x1_0000_0000) by (bit_vector);
        assert((k >> 32) as u32 == k >> 32) by (bit_vector);
    }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::get_rank_key
//@ ret r
//@ spec
    ensures r == self.key as int % 0x1_0000_0000,
//@ at start
    proof { let k = self.key; assert(k as u32 == k % 0x1_0000_0000) by (bit_vector); }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::count
//@ ret r
//@ spec
    ensures r == (self.key as int / 0x1_0000_0000) % 16,
//@ at start
    proof { let c = (self.key as int / 0x1_0000_0000) as u32; assert((c >> 0u8) & 0xf == c % 16) by (bit_vector); assert((c >> 0u32) & 0xf == c % 16) by (bit_vector); }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::suit_count
//@ ret r
//@ spec
    requires suit < 4,
    ensures r == nibble(self.key, suit as int) - 3,
//@ at start
    proof {
        let c = lemma_counters(self.key);
        assert((c >> 16u8) & 0xf == (c / 0x1_0000) % 16) by (bit_vector);
        assert((c >> 20u8) & 0xf == (c / 0x10_0000) % 16) by (bit_vector);
        assert((c >> 24u8) & 0xf == (c / 0x100_0000) % 16) by (bit_vector);
        assert((c >> 28u8) & 0xf == (c / 0x1000_0000) % 16) by (bit_vector);
        assert(suit == 0 || suit == 1 || suit == 2 || suit == 3);
    }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::has_flush
//@ ret r
//@ spec
    ensures r == (nibble(self.key, 0) >= 8 || nibble(self.key, 1) >= 8 || nibble(self.key, 2) >= 8 || nibble(self.key, 3) >= 8),
//@ at start
    proof {
        let k = self.key;
        assert(0x8888u64 << 48u64 == 0x8888_0000_0000_0000u64) by (bit_vector); assert(0x8888u64 << 48u8 == 0x8888_0000_0000_0000u64) by (bit_vector);
        assert((k & 0x8888_0000_0000_0000u64 != 0) == ((k / 0x1_0000_0000_0000) % 16 >= 8 || (k / 0x10_0000_0000_0000) % 16 >= 8 || (k / 0x100_0000_0000_0000) % 16 >= 8 || (k / 0x1000_0000_0000_0000) % 16 >= 8)) by (bit_vector);
        assert(suit_unit(0) == 1 && suit_unit(1) == 16 && suit_unit(2) == 256 && suit_unit(3) == 4096);
    }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::get_suit_mask
//@ ret r
//@ spec
    requires suit < 4, self.mask & 0xe000_e000_e000_e000 == 0,
    ensures r < 8192, bits16(r) =~= suit_ranks(cards_of(self.mask), suit as int),
//@ at start
    proof {
        let m = self.mask; let z = (16 * (3 - suit)) as u64;
        assert(suit == 0 || suit == 1 || suit == 2 || suit == 3);
        let y = (m >> z) & 0xffff;
        assert(((m >> z) & 0xffff) as u16 == (m >> z) & 0xffff) by (bit_vector);
        lemma_suit_bits(m, suit as int, y as u16);
        assert(0u64 | y == y) by (bit_vector);
        assert(0u64 | ((m >> 0u8) & 0xffff) == ((m >> 0u64) & 0xffff)) by (bit_vector);
        assert(0u64 | ((m >> 16u8) & 0xffff) == ((m >> 16u64) & 0xffff)) by (bit_vector);
        assert(0u64 | ((m >> 32u8) & 0xffff) == ((m >> 32u64) & 0xffff)) by (bit_vector);
        assert(0u64 | ((m >> 48u8) & 0xffff) == ((m >> 48u64) & 0xffff)) by (bit_vector);
    }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::get_rank_mask
//@ ret r
//@ spec
    requires self.mask & 0xe000_e000_e000_e000 == 0,
    ensures r < 8192, bits16(r) =~= some_rank(cards_of(self.mask)),
//@ loop 1
    invariant hand_mask == self.mask, 0 <= k__1 <= 4, e__1 == 4,
        rank_mask == (if k__1 > 0 { (hand_mask >> 48) & 0xffff } else { 0 }) | (if k__1 > 1 { (hand_mask >> 32) & 0xffff } else { 0 }) | (if k__1 > 2 { (hand_mask >> 16) & 0xffff } else { 0 }) | (if k__1 > 3 { (hand_mask >> 0) & 0xffff } else { 0 }),
    decreases 4 - k__1,
//@ at loop 1 pre
    proof { assert(0u64 | 0 | 0 | 0 == 0u64) by (bit_vector); }
//@ at loop 1 start
    proof {
        let x = hand_mask;
        let (a, b, c, d) = ((x >> 48) & 0xffff, (x >> 32) & 0xffff, (x >> 16) & 0xffff, (x >> 0) & 0xffff);
        assert((0u64 | 0 | 0 | 0) | a == a | 0 | 0 | 0) by (bit_vector);
        assert((a | 0 | 0 | 0) | b == a | b | 0 | 0) by (bit_vector);
        assert((a | b | 0 | 0) | c == a | b | c | 0) by (bit_vector);
        assert((a | b | c | 0) | d == a | b | c | d) by (bit_vector);
        assert(16 * (3 - i) == if i == 0 { 48 } else if i == 1 { 32 } else if i == 2 { 16int } else { 0 });
    }
//@ at loop 1 post
    proof {
        let m = self.mask;
        let (a, b, c, d) = ((m >> 48) & 0xffff, (m >> 32) & 0xffff, (m >> 16) & 0xffff, (m >> 0) & 0xffff);
        assert(rank_mask == a | b | c | d);
        assert(a < 0x10000 && b < 0x10000 && c < 0x10000 && d < 0x10000) by {
            assert((m >> 48) & 0xffff < 0x10000) by (bit_vector); assert((m >> 32) & 0xffff < 0x10000) by (bit_vector);
            assert((m >> 16) & 0xffff < 0x10000) by (bit_vector); assert((m >> 0) & 0xffff < 0x10000) by (bit_vector);
        }
        lemma_suit_bits(m, 0, a as u16); lemma_suit_bits(m, 1, b as u16); lemma_suit_bits(m, 2, c as u16); lemma_suit_bits(m, 3, d as u16);
        let (p, q, s, t) = (a as u16, b as u16, c as u16, d as u16);
        let w = p | q | s | t;
        assert((a | b | c | d) as u16 == w && (a | b | c | d) < 8192 && w < 8192) by (bit_vector)
            requires a < 8192, b < 8192, c < 8192, d < 8192, p == a as u16, q == b as u16, s == c as u16, t == d as u16, w == p | q | s | t;
        assert forall|r: int| 0 <= r < 13 implies bits16(w)[r] == some_rank(cards_of(m))[r] by {
            let z = r as u16;
            assert((w & (1u16 << z) != 0) == (p & (1u16 << z) != 0 || q & (1u16 << z) != 0 || s & (1u16 << z) != 0 || t & (1u16 << z) != 0)) by (bit_vector) requires w == p | q | s | t;
            assert(bits16(p)[r] == suit_ranks(cards_of(m), 0)[r]); assert(bits16(q)[r] == suit_ranks(cards_of(m), 1)[r]);
            assert(bits16(s)[r] == suit_ranks(cards_of(m), 2)[r]); assert(bits16(t)[r] == suit_ranks(cards_of(m), 3)[r]);
        }
    }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::from_bit_mask
//@ ret r
//@ spec
    requires size(mask_cards(mask)) <= 7,
    ensures is_hand(r, mask_cards(mask)),
//@ loop 1
    invariant 0 <= k__1 <= 52, e__1 == 52, is_hand(board, mask_upto(mask, k__1 as int)), size(mask_cards(mask)) <= 7, cards_ok(),
    decreases 52 - k__1,
//@ at start
    proof { tables_cards(); lemma_none(); assert(cards_of(0) =~= no_cards()) by { assert forall|c: int| 0 <= c < 52 implies !cards_of(0)[c] by { let x = 1u64 << (card_pos(c) as u64); assert(0u64 & x == 0) by (bit_vector); } } assert(0u64 & 0xe000_e000_e000_e000 == 0) by (bit_vector); assert(mask_upto(mask, 0) =~= no_cards()); }
//@ at loop 1 start
    proof {
        let (s, t) = (mask_upto(mask, c as int), one_card(c as int));
        assert(mask_cards(mask)[c as int] == (mask & (1u64 << (c as u64)) != 0));
        if mask_cards(mask)[c as int] {
            let h = Hand { key: card_key(c as int) as u64, mask: card_mask(c as int) };
            assert(card_entry(c as int));
            lemma_one_card(h, c as int);
            assert(union(s, t) =~= mask_upto(mask, c + 1));
            lemma_union(s, t);
            lemma_size_part(mask_upto(mask, c + 1), mask_cards(mask));
            lemma_add(board, s, 3, h, t, 0);
        } else { assert(mask_upto(mask, c as int) =~= mask_upto(mask, c + 1)); }
    }
//@ at loop 1 post
    proof { assert(mask_upto(mask, 52) =~= mask_cards(mask)); }
//@ end
impl vstd::std_specs::cmp::PartialEqSpecImpl for Hand {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Hand) -> bool { *self == *other }
}
//@ fn src/hand_evaluator/hand.rs <PartialEq for Hand>::eq
//@ end

// C03: what a hand reports is its set of cards
pub proof fn theorem_reports(h: Hand, s: Seq<bool>)
    requires is_hand(h, s),
    ensures
        (h.key as int / 0x1_0000_0000) % 16 == size(s),                                     // count()
        forall|k: int| 0 <= k < 4 ==> #[trigger] nibble(h.key, k) - 3 == suited(s, k),       // suit_count()
        forall|c: int| 0 <= c < 52 ==> #[trigger] cards_of(h.mask)[c] == s[c],               // contains()
        (nibble(h.key, 0) >= 8 || nibble(h.key, 1) >= 8 || nibble(h.key, 2) >= 8 || nibble(h.key, 3) >= 8) == flush_in(s),   // has_flush()
        h.mask & 0xe000_e000_e000_e000 == 0,                                                // get_suit_mask(), get_rank_mask() apply
{
    tables_cards();
    lemma_fields(h, s, 3);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] nibble(h.key, k) - 3 == suited(s, k) by { assert(k == 0 || k == 1 || k == 2 || k == 3); }
}
// C03: grouping and order do not matter
pub proof fn theorem_order_free(a: Hand, b: Hand, s: Seq<bool>, t: Seq<bool>, x: int, y: int)
    requires holds(a, s, x), holds(b, t, y), disjoint(s, t), size(s) + size(t) <= 7, x == 0 || y == 0,
    ensures
        holds(Hand { key: (a.key + b.key) as u64, mask: a.mask | b.mask }, union(s, t), x + y),
        (Hand { key: (a.key + b.key) as u64, mask: a.mask | b.mask }) == (Hand { key: (b.key + a.key) as u64, mask: b.mask | a.mask }),
        forall|h: Hand| #[trigger] holds(h, union(s, t), x + y) ==> h == (Hand { key: (a.key + b.key) as u64, mask: a.mask | b.mask }),
{
    tables_cards();
    lemma_add(a, s, x, b, t, y);
    let h0 = Hand { key: (a.key + b.key) as u64, mask: a.mask | b.mask };
    let (m, n) = (a.mask, b.mask);
    assert(m | n == n | m) by (bit_vector);
    assert forall|h: Hand| #[trigger] holds(h, union(s, t), x + y) implies h == h0 by { theorem_same_set(h, h0, union(s, t), x + y); }
}
} // verus!
fn main() {}
