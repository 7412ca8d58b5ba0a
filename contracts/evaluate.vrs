// C01, C02: scores.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ grw? CARDS[$i] =>> cards_at($i)
//@ grw? *LOOKUP.get_unchecked($i) =>> lookup_get($i)
//@ grw? LOOKUP[$i] =>> lookup_get($i)
//@ grw? *LOOKUP_FLUSH.get_unchecked($i) =>> flush_get($i)
//@ grw? LOOKUP_FLUSH[$i] =>> flush_get($i)
//@ grw? *PERF_HASH_OFFSETS.get_unchecked($i) =>> offset_get($i)
//@ grw? PERF_HASH_OFFSETS[$i] =>> offset_get($i)
//@ grw? *CARD_MAP.get_unchecked($i) =>> card_map_get($i)
//@ grw? CARD_MAP[$i] =>> card_map_get($i)
//@ grw? *MASK_MAP.get_unchecked($i) =>> mask_map_get($i)
//@ grw? MASK_MAP[$i] =>> mask_map_get($i)

//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ import hand <Default for Hand>::default
//@ import hand Hand::get_key
//@ import hand Hand::get_mask
//@ import hand Hand::get_counters
//@ import hand Hand::get_rank_key
//@ import hand Hand::has_flush
//@ fn src/hand_evaluator/hand.rs Hand::get_flush_key
//@ ret r
//@ spec
    requires exists|s: Seq<bool>| is_hand(self, s),
    ensures
        forall|k: int| 0 <= k < 4 && #[trigger] suited(cards_of(self.mask), k) >= 5 ==> r < 8192 && bits16(r as u16) =~= suit_ranks(cards_of(self.mask), k),
        !flush_in(cards_of(self.mask)) ==> r == 0,
//@ at start
    proof {
        tables_cards();
        let s = choose|s: Seq<bool>| is_hand(self, s);
        lemma_fields(self, s, 3); lemma_key_bounds(s);
        assert(cards_of(self.mask) =~= s);
    }
//@ at stmt `let flush_check_bits` 1 after
    proof {
        let s = cards_of(self.mask);
        let k: int = if suited(s, 0) >= 5 { 0 } else if suited(s, 1) >= 5 { 1 } else if suited(s, 2) >= 5 { 2 } else { 3 };
        assert(suited(s, k) >= 5);
        assert(suited(s, 0) >= 0 && suited(s, 1) >= 0 && suited(s, 2) >= 0 && suited(s, 3) >= 0);
        let c = lemma_counters(self.key);
        let (n0, n1, n2, n3) = ((c / 0x1_0000) % 16, (c / 0x10_0000) % 16, (c / 0x100_0000) % 16, (c / 0x1000_0000) % 16);
        assert(n0 == suited(s, 0) + 3 && n1 == suited(s, 1) + 3 && n2 == suited(s, 2) + 3 && n3 == suited(s, 3) + 3);
        assert(0x8888u32 << 16u32 == 0x8888_0000u32) by (bit_vector);
        let f = flush_check_bits;
        assert(f == c & 0x8888_0000u32);
        assert(f == (if k == 0 { 0x8_0000u32 } else if k == 1 { 0x80_0000u32 } else if k == 2 { 0x800_0000u32 } else { 0x8000_0000u32 })) by {
            assert(n0 >= 8 && n1 < 8 && n2 < 8 && n3 < 8 ==> c & 0x8888_0000u32 == 0x8_0000) by (bit_vector) requires n0 == (c / 0x1_0000) % 16, n1 == (c / 0x10_0000) % 16, n2 == (c / 0x100_0000) % 16, n3 == (c / 0x1000_0000) % 16;
            assert(n0 < 8 && n1 >= 8 && n2 < 8 && n3 < 8 ==> c & 0x8888_0000u32 == 0x80_0000) by (bit_vector) requires n0 == (c / 0x1_0000) % 16, n1 == (c / 0x10_0000) % 16, n2 == (c / 0x100_0000) % 16, n3 == (c / 0x1000_0000) % 16;
            assert(n0 < 8 && n1 < 8 && n2 >= 8 && n3 < 8 ==> c & 0x8888_0000u32 == 0x800_0000) by (bit_vector) requires n0 == (c / 0x1_0000) % 16, n1 == (c / 0x10_0000) % 16, n2 == (c / 0x100_0000) % 16, n3 == (c / 0x1000_0000) % 16;
            assert(n0 < 8 && n1 < 8 && n2 < 8 && n3 >= 8 ==> c & 0x8888_0000u32 == 0x8000_0000) by (bit_vector) requires n0 == (c / 0x1_0000) % 16, n1 == (c / 0x10_0000) % 16, n2 == (c / 0x100_0000) % 16, n3 == (c / 0x1000_0000) % 16;
        }
        lemma_lz32();
        let m = self.mask; let z = (16 * (3 - k)) as u64;
        assert(12u32 << 2 == 48 && 8u32 << 2 == 32 && 4u32 << 2 == 16 && 0u32 << 2 == 0) by (bit_vector);
        assert((m >> 48u32) as u16 == (m >> 48u64) & 0xffff) by (bit_vector); assert((m >> 32u32) as u16 == (m >> 32u64) & 0xffff) by (bit_vector);
        assert((m >> 16u32) as u16 == (m >> 16u64) & 0xffff) by (bit_vector); assert((m >> 0u32) as u16 == (m >> 0u64) & 0xffff) by (bit_vector);
        assert((m >> z) & 0xffff < 0x10000) by (bit_vector);
        lemma_suit_bits(m, k, ((m >> z) & 0xffff) as u16);
        assert forall|j: int| 0 <= j < 4 && #[trigger] suited(s, j) >= 5 implies j == k by {}
    }
//@ end
proof fn lemma_lz(i: u32, k: u32)
    requires k < 32, i == 1u32 << k,
    ensures vstd::std_specs::bits::u32_leading_zeros(i) == 31 - k,
{
    vstd::std_specs::bits::axiom_u32_leading_zeros(i);
    assert(i != 0) by (bit_vector) requires k < 32, i == 1u32 << k;
    let z = vstd::std_specs::bits::u32_leading_zeros(i);
    if z > 31 - k {
        assert((i >> k) & 1u32 == 0u32);
        assert((i >> k) & 1u32 == 1u32) by (bit_vector) requires k < 32, i == 1u32 << k;
    }
    if z < 31 - k {
        let y = sub(31u32, z);
        assert((i >> sub(31u32, z as u32)) & 1u32 != 0u32);
        assert((i >> y) & 1u32 == 0u32) by (bit_vector) requires k < 32, i == 1u32 << k, y > k, y < 32;
    }
}
proof fn lemma_lz32()
    ensures vstd::std_specs::bits::u32_leading_zeros(0x8_0000) == 12, vstd::std_specs::bits::u32_leading_zeros(0x80_0000) == 8, vstd::std_specs::bits::u32_leading_zeros(0x800_0000) == 4, vstd::std_specs::bits::u32_leading_zeros(0x8000_0000) == 0,
{
    assert(0x8_0000u32 == 1u32 << 19 && 0x80_0000u32 == 1u32 << 23 && 0x800_0000u32 == 1u32 << 27 && 0x8000_0000u32 == 1u32 << 31) by (bit_vector);
    lemma_lz(0x8_0000, 19); lemma_lz(0x80_0000, 23); lemma_lz(0x800_0000, 27); lemma_lz(0x8000_0000, 31);
}
// a score exists for every hand of two to seven cards
pub open spec fn scored(st: int) -> bool { 0 <= st < score_map().len() && score_of(st) > 0 }
pub proof fn lemma_ranks_scored(s: Seq<bool>)
    requires s.len() == 52, 2 <= size(s) <= 7,
    ensures rank_entry(counts(s), score_map()),
{
    tables_scores();
    assert(scores(score_map()));
    assert(rank_counts(counts(s)));
}
//@ fn src/hand_evaluator/hand.rs Hand::evaluate
//@ ret r
//@ spec
    requires exists|s: Seq<bool>| is_hand(*self, s) && size(s) >= 2,
    ensures scored(strength(cards_of(self.mask))), r == score_of(strength(cards_of(self.mask))),
//@ at start
    proof {
        tables_cards(); tables_scores();
        let s = choose|s: Seq<bool>| is_hand(*self, s) && size(s) >= 2;
        assert(cards_of(self.mask) =~= s);
        lemma_fields(*self, s, 3); lemma_key_bounds(s);
        lemma_ranks_scored(s);
        if flush_in(s) {
            let k: int = if suited(s, 0) >= 5 { 0 } else if suited(s, 1) >= 5 { 1 } else if suited(s, 2) >= 5 { 2 } else { 3 };
            assert(suited(s, k) >= 5);
            lemma_flush(s, k);
            assert(suited(s, k) <= size(s));
            assert forall|m: u16| m < 8192 && #[trigger] bits16(m) =~= suit_ranks(s, k) implies flush_entry(m, score_map()) by {}
        } else { lemma_no_flush(s); }
        let x = key_sum(counts(s), 13) as u64;
        assert(x >> 12 == x / 4096) by (bit_vector);
        let y = x as usize;
        assert(y >> 12usize == y / 4096) by (bit_vector);
    }
//@ end
//@ fn src/hand_evaluator/hand.rs Hand::evaluate_without_flush
//@ ret r
//@ spec
    requires exists|s: Seq<bool>| (is_hand(*self, s) || holds(*self, s, 0)) && size(s) >= 2,
    ensures scored(best(counts(cards_of(self.mask)), false)), r == score_of(best(counts(cards_of(self.mask)), false)),
//@ at start
    proof {
        tables_cards(); tables_scores();
        let s = choose|s: Seq<bool>| (is_hand(*self, s) || holds(*self, s, 0)) && size(s) >= 2;
        let base: int = if is_hand(*self, s) { 3 } else { 0 };
        assert(cards_of(self.mask) =~= s);
        lemma_fields(*self, s, base); lemma_key_bounds(s);
        lemma_ranks_scored(s);
        let x = key_sum(counts(s), 13) as usize;
        assert(x >> 12usize == x / 4096) by (bit_vector);
    }
//@ end

// C01: scores order hands as poker does
pub proof fn theorem_order(a: int, b: int)
    requires scored(a), scored(b),
    ensures score_of(a) > score_of(b) <==> a > b, score_of(a) == score_of(b) <==> a == b, score_of(a) / 4096 == a / 537824,
{
    tables_scores();
    assert(scores(score_map()));
}
} // verus!
fn main() {}
