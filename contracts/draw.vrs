// C22: draw flags.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ grw? CARDS[$i] =>> cards_at($i)
//@ grw? *LOOKUP.get_unchecked($i) =>> lookup_get($i)
//@ grw? LOOKUP[$i] =>> lookup_get($i)
//@ grw? *LOOKUP_FLUSH.get_unchecked($i) =>> flush_get($i)
//@ grw? LOOKUP_FLUSH[$i] =>> flush_get($i)
//@ grw? *PERF_HASH_OFFSETS.get_unchecked($i) =>> offset_get($i)
//@ grw? PERF_HASH_OFFSETS[$i] =>> offset_get($i)
//@ grw? *CARD_MAP.get_unchecked($i) =>> card_map_get($i)
//@ grw? CARD_MAP[$i] =>> card_map_get($i)
//@ grw? *MASK_MAP.get_unchecked($i) =>> mask_map_get($i)
//@ grw? MASK_MAP[$i] =>> mask_map_get($i)

//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ import hand Hand::get_mask
//@ import hand Hand::get_rank_mask
//@ import hand Hand::get_suit_mask
//@ import hand Hand::suit_count

//@ include drawspec
pub assume_specification[ u16::count_ones ](x: u16) -> (r: u32) ensures r <= 16;
pub open spec fn lz5(x: u16) -> int { if x >= 0x1000 { 3 } else if x >= 0x800 { 4 } else if x >= 0x400 { 5 } else if x >= 0x200 { 6 } else if x >= 0x100 { 7 } else { 16 } }
pub proof fn lemma_lz16(x: u16)
    requires x & 0x1f00 == x,
    ensures vstd::std_specs::bits::u16_leading_zeros(x) == lz5(x),
{
    vstd::std_specs::bits::axiom_u16_leading_zeros(x);
    let z = vstd::std_specs::bits::u16_leading_zeros(x);
    if x == 0 { return; }
    let w = lz5(x) as u16;
    let t = (15 - w) as u16;
    assert(3 <= w <= 7 && (x >> t) & 1u16 == 1u16) by {
        assert(x >= 0x1000 ==> (x >> 12u16) & 1u16 == 1) by (bit_vector) requires x & 0x1f00 == x;
        assert(0x1000 > x >= 0x800 ==> (x >> 11u16) & 1u16 == 1) by (bit_vector) requires x & 0x1f00 == x;
        assert(0x800 > x >= 0x400 ==> (x >> 10u16) & 1u16 == 1) by (bit_vector) requires x & 0x1f00 == x;
        assert(0x400 > x >= 0x200 ==> (x >> 9u16) & 1u16 == 1) by (bit_vector) requires x & 0x1f00 == x;
        assert(0x200 > x && x != 0 ==> (x >> 8u16) & 1u16 == 1 && x >= 0x100) by (bit_vector) requires x & 0x1f00 == x;
    }
    if z > w { assert((x >> t) & 1u16 == 0u16); }
    if z < w {
        let y = sub(15u16, z as u16);
        assert((x >> sub(15u16, z as u16)) & 1u16 != 0u16);
        assert((x >> y) & 1u16 == 0u16) by (bit_vector) requires x & 0x1f00 == x, y > t, t == 15 - w, y <= 15,
            w == 3 || (w == 4 && x < 0x1000) || (w == 5 && x < 0x800) || (w == 6 && x < 0x400) || (w == 7 && x < 0x200);
    }
}
pub proof fn lemma_nut(b: u16, h: u16, s: Seq<bool>, t: Seq<bool>, k: int)
    requires 0 <= k < 4, s.len() == 52, t.len() == 52, b & h == 0, bits16(b) =~= suit_ranks(t, k), bits16(h) =~= suit_ranks(s, k), ((b & 0x1f00) ^ 0x1f00) & 0x1f00 != 0,
    ensures (vstd::std_specs::bits::u16_leading_zeros(((b & 0x1f00) ^ 0x1f00) & 0x1f00) == vstd::std_specs::bits::u16_leading_zeros(h & 0x1f00)) == nut(s, t, k),
{
    let x = ((b & 0x1f00) ^ 0x1f00) & 0x1f00; let y = h & 0x1f00;
    assert(x & 0x1f00 == x && y & 0x1f00 == y) by (bit_vector) requires x == ((b & 0x1f00) ^ 0x1f00) & 0x1f00, y == h & 0x1f00;
    lemma_lz16(x); lemma_lz16(y);
    let (lx, ly) = (lz5(x) as u16, lz5(y) as u16);
    let n = (h & (1u16 << 12) != 0) || (b & (1u16 << 12) != 0 && ((h & (1u16 << 11) != 0) || (b & (1u16 << 11) != 0 && ((h & (1u16 << 10) != 0) || (b & (1u16 << 10) != 0
        && ((h & (1u16 << 9) != 0) || (b & (1u16 << 9) != 0 && (h & (1u16 << 8) != 0))))))));
    assert((lx == ly) == n) by (bit_vector)
        requires b & h == 0, x != 0, x == ((b & 0x1f00) ^ 0x1f00) & 0x1f00, y == h & 0x1f00,
            lx == if x >= 0x1000 { 3u16 } else if x >= 0x800 { 4 } else if x >= 0x400 { 5 } else if x >= 0x200 { 6 } else if x >= 0x100 { 7 } else { 16u16 },
            ly == if y >= 0x1000 { 3u16 } else if y >= 0x800 { 4 } else if y >= 0x400 { 5 } else if y >= 0x200 { 6 } else if y >= 0x100 { 7 } else { 16u16 },
            n == ((h & (1u16 << 12) != 0) || (b & (1u16 << 12) != 0 && ((h & (1u16 << 11) != 0) || (b & (1u16 << 11) != 0 && ((h & (1u16 << 10) != 0) || (b & (1u16 << 10) != 0
        && ((h & (1u16 << 9) != 0) || (b & (1u16 << 9) != 0 && (h & (1u16 << 8) != 0)))))))));
    assert forall|r: int| 8 <= r < 13 implies #[trigger] s[4 * r + k] == (h & (1u16 << r as u16) != 0) && t[4 * r + k] == (b & (1u16 << r as u16) != 0) by {
        assert(bits16(h)[r] == suit_ranks(s, k)[r]); assert(bits16(b)[r] == suit_ranks(t, k)[r]);
    }
    assert(bits16(h)[12] == suit_ranks(s, k)[12]); assert(bits16(b)[12] == suit_ranks(t, k)[12]);
    assert(s[4 * 12 + k] == (h & (1u16 << 12) != 0) && t[4 * 12 + k] == (b & (1u16 << 12) != 0));
    assert(bits16(h)[11] == suit_ranks(s, k)[11]); assert(bits16(b)[11] == suit_ranks(t, k)[11]);
    assert(s[4 * 11 + k] == (h & (1u16 << 11) != 0) && t[4 * 11 + k] == (b & (1u16 << 11) != 0));
    assert(bits16(h)[10] == suit_ranks(s, k)[10]); assert(bits16(b)[10] == suit_ranks(t, k)[10]);
    assert(s[4 * 10 + k] == (h & (1u16 << 10) != 0) && t[4 * 10 + k] == (b & (1u16 << 10) != 0));
    assert(bits16(h)[9] == suit_ranks(s, k)[9]); assert(bits16(b)[9] == suit_ranks(t, k)[9]);
    assert(s[4 * 9 + k] == (h & (1u16 << 9) != 0) && t[4 * 9 + k] == (b & (1u16 << 9) != 0));
    assert(bits16(h)[8] == suit_ranks(s, k)[8]); assert(bits16(b)[8] == suit_ranks(t, k)[8]);
    assert(s[4 * 8 + k] == (h & (1u16 << 8) != 0) && t[4 * 8 + k] == (b & (1u16 << 8) != 0));
    if nut(s, t, k) {
        let r = choose|r: int| 8 <= r < 13 && #[trigger] s[4 * r + k] && forall|q: int| r < q < 13 ==> #[trigger] t[4 * q + k];
        assert(r < 12 ==> t[4 * 12 + k]); assert(r < 11 ==> t[4 * 11 + k]); assert(r < 10 ==> t[4 * 10 + k]); assert(r < 9 ==> t[4 * 9 + k]);
        assert(r == 8 || r == 9 || r == 10 || r == 11 || r == 12);
        assert(n);
    }
    if n {
        let r: int = if h & (1u16 << 12) != 0 { 12 } else if h & (1u16 << 11) != 0 { 11 } else if h & (1u16 << 10) != 0 { 10 } else if h & (1u16 << 9) != 0 { 9 } else { 8 };
        assert(s[4 * r + k]);
        assert forall|q: int| r < q < 13 implies #[trigger] t[4 * q + k] by { assert(q == 9 || q == 10 || q == 11 || q == 12); }
    }
}
// the two masks of a suit, and that the board leaves one of the top five open
pub proof fn lemma_suit_masks(b: u16, h: u16, s: Seq<bool>, t: Seq<bool>, k: int)
    requires 0 <= k < 4, s.len() == 52, t.len() == 52, disjoint(s, t), size(t) <= 4, b < 8192, h < 8192, bits16(b) =~= suit_ranks(t, k), bits16(h) =~= suit_ranks(s, k),
    ensures b & h == 0, ((b & 0x1f00) ^ 0x1f00) & 0x1f00 != 0,
{
    assert forall|r: int| 0 <= r < 13 implies !(#[trigger] (b & (1u16 << r as u16)) != 0 && h & (1u16 << r as u16) != 0) by {
        assert(bits16(h)[r] == suit_ranks(s, k)[r]); assert(bits16(b)[r] == suit_ranks(t, k)[r]);
        assert(!(s[4 * r + k] && t[4 * r + k]));
    }
    assert forall|r: u16| r < 13 implies !(#[trigger] (b & (1u16 << r)) != 0 && h & (1u16 << r) != 0) by { assert(!(b & (1u16 << (r as int) as u16) != 0 && h & (1u16 << (r as int) as u16) != 0)); }
    let z = b & h;
    if z != 0 {
        assert(b & (1u16 << 0) == 0 || h & (1u16 << 0) == 0); assert(b & (1u16 << 1) == 0 || h & (1u16 << 1) == 0); assert(b & (1u16 << 2) == 0 || h & (1u16 << 2) == 0); assert(b & (1u16 << 3) == 0 || h & (1u16 << 3) == 0);
        assert(b & (1u16 << 4) == 0 || h & (1u16 << 4) == 0); assert(b & (1u16 << 5) == 0 || h & (1u16 << 5) == 0); assert(b & (1u16 << 6) == 0 || h & (1u16 << 6) == 0); assert(b & (1u16 << 7) == 0 || h & (1u16 << 7) == 0);
        assert(b & (1u16 << 8) == 0 || h & (1u16 << 8) == 0); assert(b & (1u16 << 9) == 0 || h & (1u16 << 9) == 0); assert(b & (1u16 << 10) == 0 || h & (1u16 << 10) == 0); assert(b & (1u16 << 11) == 0 || h & (1u16 << 11) == 0); assert(b & (1u16 << 12) == 0 || h & (1u16 << 12) == 0);
        assert(z == 0) by (bit_vector) requires z == b & h, b < 8192, h < 8192,
            b & (1u16 << 0) == 0 || h & (1u16 << 0) == 0, b & (1u16 << 1) == 0 || h & (1u16 << 1) == 0, b & (1u16 << 2) == 0 || h & (1u16 << 2) == 0, b & (1u16 << 3) == 0 || h & (1u16 << 3) == 0,
            b & (1u16 << 4) == 0 || h & (1u16 << 4) == 0, b & (1u16 << 5) == 0 || h & (1u16 << 5) == 0, b & (1u16 << 6) == 0 || h & (1u16 << 6) == 0, b & (1u16 << 7) == 0 || h & (1u16 << 7) == 0,
            b & (1u16 << 8) == 0 || h & (1u16 << 8) == 0, b & (1u16 << 9) == 0 || h & (1u16 << 9) == 0, b & (1u16 << 10) == 0 || h & (1u16 << 10) == 0, b & (1u16 << 11) == 0 || h & (1u16 << 11) == 0, b & (1u16 << 12) == 0 || h & (1u16 << 12) == 0;
    }
    let x = ((b & 0x1f00) ^ 0x1f00) & 0x1f00;
    if x == 0 {
        assert(b & (1u16 << 8) != 0 && b & (1u16 << 9) != 0 && b & (1u16 << 10) != 0 && b & (1u16 << 11) != 0 && b & (1u16 << 12) != 0) by (bit_vector) requires ((b & 0x1f00) ^ 0x1f00) & 0x1f00 == 0;
        let c = suit_ranks(t, k);
        assert(bits16(b)[8] == 1 && bits16(b)[9] == 1 && bits16(b)[10] == 1 && bits16(b)[11] == 1 && bits16(b)[12] == 1);
        lemma_total_zero(c, 8); lemma_counts_nonneg(t);
        assert(total(c, 9) == total(c, 8) + 1); assert(total(c, 10) == total(c, 9) + 1); assert(total(c, 11) == total(c, 10) + 1); assert(total(c, 12) == total(c, 11) + 1); assert(total(c, 13) == total(c, 12) + 1);
        lemma_suits(t);
        assert(suited(t, k) >= 5);
    }
}
proof fn lemma_flags()
    ensures
        forall|d: u8| (#[trigger] (d | 1)) & 0xe0 == d & 0xe0, forall|d: u8| (#[trigger] (d | 2)) & 0xe0 == d & 0xe0, forall|d: u8| (#[trigger] (d | 4)) & 0xe0 == d & 0xe0,
        forall|d: u8| (#[trigger] (d | 8)) & 0xe0 == d & 0xe0, forall|d: u8| (#[trigger] (d | 16)) & 0xe0 == d & 0xe0,
        forall|d: u8| #![trigger d | 32] (d | 32) & 32 != 0 && (d | 32) & 64 == d & 64 && (d | 32) & 128 == d & 128,
        forall|d: u8| #![trigger d | 64] (d | 64) & 64 != 0 && (d | 64) & 32 == d & 32 && (d | 64) & 128 == d & 128,
        forall|d: u8| #![trigger d | 128] (d | 128) & 128 != 0 && (d | 128) & 32 == d & 32 && (d | 128) & 64 == d & 64 && (d | 128) & 0x7f == d & 0x7f,
        forall|d: u8| (#[trigger] (d & 0xe0)) == 0 ==> d & 32 == 0 && d & 64 == 0 && d & 128 == 0,
{
    assert(forall|d: u8| (#[trigger] (d | 1)) & 0xe0 == d & 0xe0) by (bit_vector);
    assert(forall|d: u8| (#[trigger] (d | 2)) & 0xe0 == d & 0xe0) by (bit_vector);
    assert(forall|d: u8| (#[trigger] (d | 4)) & 0xe0 == d & 0xe0) by (bit_vector);
    assert(forall|d: u8| (#[trigger] (d | 8)) & 0xe0 == d & 0xe0) by (bit_vector);
    assert(forall|d: u8| (#[trigger] (d | 16)) & 0xe0 == d & 0xe0) by (bit_vector);
    assert(forall|d: u8| #![trigger d | 32] (d | 32) & 32 != 0 && (d | 32) & 64 == d & 64 && (d | 32) & 128 == d & 128) by (bit_vector);
    assert(forall|d: u8| #![trigger d | 64] (d | 64) & 64 != 0 && (d | 64) & 32 == d & 32 && (d | 64) & 128 == d & 128) by (bit_vector);
    assert(forall|d: u8| #![trigger d | 128] (d | 128) & 128 != 0 && (d | 128) & 32 == d & 32 && (d | 128) & 64 == d & 64 && (d | 128) & 0x7f == d & 0x7f) by (bit_vector);
    assert(forall|d: u8| (#[trigger] (d & 0xe0)) == 0 ==> d & 32 == 0 && d & 64 == 0 && d & 128 == 0) by (bit_vector);
}
pub open spec fn suit_among(u: Seq<bool>, c: int, n: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] suited(u, k) == c }
pub proof fn lemma_suit_step(s: Seq<bool>, t: Seq<bool>, n: int)
    requires 0 <= n,
    ensures
        suit_among(union(s, t), 4, n + 1) == (suit_among(union(s, t), 4, n) || suited(union(s, t), n) == 4),
        suit_among(union(s, t), 3, n + 1) == (suit_among(union(s, t), 3, n) || suited(union(s, t), n) == 3),
        nut_among(s, t, n + 1) == (nut_among(s, t, n) || (drawing(union(s, t), t, n) && nut(s, t, n))),
{
    let u = union(s, t);
    if suit_among(u, 4, n + 1) && suited(u, n) != 4 { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] suited(u, k) == 4; assert(k < n); }
    if suit_among(u, 3, n + 1) && suited(u, n) != 3 { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] suited(u, k) == 3; assert(k < n); }
    if nut_among(s, t, n + 1) && !(drawing(u, t, n) && nut(s, t, n)) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] drawing(u, t, k) && nut(s, t, k); assert(k < n); }
}
proof fn lemma_draw_masks(bm: u64, hm: u64, s: Seq<bool>, t: Seq<bool>, k: int)
    requires 0 <= k < 4, s.len() == 52, t.len() == 52, disjoint(s, t), size(t) <= 4, cards_of(bm) == t, cards_of(hm) == s,
    ensures
        forall|b: u16, h: u16| #![trigger bits16(b), bits16(h)] b < 8192 && h < 8192 && bits16(b) =~= suit_ranks(t, k) && bits16(h) =~= suit_ranks(s, k) ==>
            ((b & 0x1f00) ^ 0x1f00) & 0x1f00 != 0 && (vstd::std_specs::bits::u16_leading_zeros(((b & 0x1f00) ^ 0x1f00) & 0x1f00) == vstd::std_specs::bits::u16_leading_zeros(h & 0x1f00)) == nut(s, t, k),
{
    assert forall|b: u16, h: u16| #![trigger bits16(b), bits16(h)] b < 8192 && h < 8192 && bits16(b) =~= suit_ranks(t, k) && bits16(h) =~= suit_ranks(s, k) implies
            ((b & 0x1f00) ^ 0x1f00) & 0x1f00 != 0 && (vstd::std_specs::bits::u16_leading_zeros(((b & 0x1f00) ^ 0x1f00) & 0x1f00) == vstd::std_specs::bits::u16_leading_zeros(h & 0x1f00)) == nut(s, t, k) by {
        lemma_suit_masks(b, h, s, t, k);
        lemma_nut(b, h, s, t, k);
    }
}
//@ fn src/hand_evaluator/hand.rs get_draw
//@ ret r
//@ spec
    requires
        exists|s: Seq<bool>, t: Seq<bool>| #[trigger] holds(hole_cards, s, 0) && #[trigger] is_hand(board, t) && disjoint(s, t) && size(s) == 2 && 3 <= size(t) <= 4
            && (rank == 5 ==> flush_in(union(s, t))),
    ensures
        forall|s: Seq<bool>, t: Seq<bool>| #[trigger] holds(hole_cards, s, 0) && #[trigger] is_hand(board, t) ==> {
            let u = union(s, t);
            &&& rank < 5 ==> (r & 32 != 0) == has_suit(u, 4)
            &&& rank < 5 ==> (r & 64 != 0) == (size(t) == 3 && has_suit(u, 3))
            &&& rank < 5 ==> (r & 128 != 0) == nut_among(s, t, 4)
            &&& rank == 5 ==> r & 0x7f == 0 && (forall|k: int| 0 <= k < 4 && suited(u, k) >= 5 ==> (r & 128 != 0) == #[trigger] nut(s, t, k))
            &&& rank > 5 ==> r == 0
        },
//@ at start
    let ghost (s, t) = choose|s: Seq<bool>, t: Seq<bool>| #[trigger] holds(hole_cards, s, 0) && #[trigger] is_hand(board, t) && disjoint(s, t) && size(s) == 2 && 3 <= size(t) <= 4
            && (rank == 5 ==> flush_in(union(s, t)));
    let ghost u = union(s, t);
    proof {
        tables_cards(); lemma_flags();
        assert forall|x: Seq<bool>| holds(hole_cards, x, 0) implies x == s by { assert(x =~= s); }
        assert forall|x: Seq<bool>| is_hand(board, x) implies x == t by { assert(x =~= t); }
        lemma_add(hole_cards, s, 0, board, t, 3);
        let h = Hand { key: (hole_cards.key + board.key) as u64, mask: hole_cards.mask | board.mask };
        lemma_key_bounds(u); lemma_fields(h, u, 3);
        lemma_ones(board.mask);
        assert(cards_of(board.mask) =~= t); assert(cards_of(hole_cards.mask) =~= s);
        assert(0u8 & 0xe0 == 0 && 0u8 & 0x7f == 0) by (bit_vector);
    }
//@ loop 1
    invariant draw & 0xe0 == 0,
        forall|d: u8| (#[trigger] (d | 1)) & 0xe0 == d & 0xe0, forall|d: u8| (#[trigger] (d | 2)) & 0xe0 == d & 0xe0, forall|d: u8| (#[trigger] (d | 4)) & 0xe0 == d & 0xe0,
        forall|d: u8| (#[trigger] (d | 8)) & 0xe0 == d & 0xe0,
    decreases e__1 - k__1,
//@ loop 2
    invariant draw & 0xe0 == 0, forall|d: u8| (#[trigger] (d | 16)) & 0xe0 == d & 0xe0,
    decreases e__2 - k__2,
//@ loop 3
    invariant 0 <= k__3 <= 4, e__3 == 4, u == union(s, t), disjoint(s, t), size(t) <= 4, size(t) >= 3, holds(hole_cards, s, 0), is_hand(board, t), is_hand(hand, u), cards_ok(), get_backdoors == (size(t) < 4),
        s.len() == 52, t.len() == 52,
        (draw & 32 != 0) == suit_among(u, 4, k__3 as int),
        (draw & 64 != 0) == (size(t) == 3 && suit_among(u, 3, k__3 as int)),
        (draw & 128 != 0) == nut_among(s, t, k__3 as int),
    decreases 4 - k__3,
//@ at loop 3 start
    proof {
        lemma_flags();
        lemma_fields(hand, u, 3);
        assert(i == 0 || i == 1 || i == 2 || i == 3);
        lemma_suit_step(s, t, i as int);
        assert(cards_of(board.mask) =~= t); assert(cards_of(hole_cards.mask) =~= s);
        lemma_draw_masks(board.mask, hole_cards.mask, s, t, i as int);
    }
//@ loop 4
    invariant 0 <= k__4 <= 4, e__4 == 4, is_hand(hand, u), cards_ok(), rank == 5,
        suit == 255 ==> forall|k: int| 0 <= k < k__4 ==> #[trigger] suited(u, k) < 5,
        suit != 255 ==> suit < 4 && suited(u, suit as int) >= 5,
    ensures suit == 255 ==> k__4 >= 4,
    decreases 4 - k__4,
//@ at loop 4 start
    proof { lemma_fields(hand, u, 3); assert(i == 0 || i == 1 || i == 2 || i == 3); }
//@ at loop 4 post
    proof {
        assert(suited(u, 0) < 5 || suited(u, 1) < 5 || suited(u, 2) < 5 || suited(u, 3) < 5 || suit != 255);
        lemma_draw_masks(board.mask, hole_cards.mask, s, t, suit as int);
        assert(suited(u, 0) + suited(u, 1) + suited(u, 2) + suited(u, 3) <= 7 && suited(u, 0) >= 0 && suited(u, 1) >= 0 && suited(u, 2) >= 0 && suited(u, 3) >= 0);
        assert forall|k: int| 0 <= k < 4 && suited(u, k) >= 5 implies k == suit by { assert(k == 0 || k == 1 || k == 2 || k == 3); }
    }
//@ end
} // verus!
fn main() {}
