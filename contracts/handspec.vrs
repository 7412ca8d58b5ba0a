// ------------------------------------------------------------------------------------------
// What a Hand value stands for.
//@ item src/hand_evaluator/hand.rs struct Hand derive=Clone,Copy
pub open spec fn cards_of(m: u64) -> Seq<bool> { Seq::new(52, |c: int| m & (1u64 << (card_pos(c) as u64)) != 0) }
// cards of a 52-bit card mask
pub open spec fn mask_cards(m: u64) -> Seq<bool> { Seq::new(52, |c: int| m & (1u64 << (c as u64)) != 0) }
pub open spec fn suit_sum(s: Seq<bool>) -> int { suited(s, 0) + 16 * suited(s, 1) + 256 * suited(s, 2) + 4096 * suited(s, 3) }
pub open spec fn key_of(s: Seq<bool>) -> int { key_sum(counts(s), 13) + 0x1_0000_0000 * size(s) + 0x1_0000_0000_0000 * suit_sum(s) }
// h is a sum of the cards s; base 3: built on the default hand, base 0: of cards only
pub open spec fn holds(h: Hand, s: Seq<bool>, base: int) -> bool {
    &&& s.len() == 52 && size(s) <= 7 && (base == 0 || base == 3)
    &&& h.mask & 0xe000_e000_e000_e000 == 0
    &&& cards_of(h.mask) =~= s
    &&& h.key == key_of(s) + base * 0x1111_0000_0000_0000
}
pub open spec fn is_hand(h: Hand, s: Seq<bool>) -> bool { holds(h, s, 3) }
pub open spec fn union(s: Seq<bool>, t: Seq<bool>) -> Seq<bool> { Seq::new(52, |c: int| s[c] || t[c]) }
pub open spec fn disjoint(s: Seq<bool>, t: Seq<bool>) -> bool { forall|c: int| 0 <= c < 52 ==> !(#[trigger] s[c] && t[c]) }
pub open spec fn no_cards() -> Seq<bool> { Seq::new(52, |c: int| false) }
pub open spec fn one_card(x: int) -> Seq<bool> { Seq::new(52, |c: int| c == x) }
pub open spec fn two_cards(x: int, y: int) -> Seq<bool> { Seq::new(52, |c: int| c == x || c == y) }
// the value of two hole cards
pub open spec fn hole_hand(c1: u8, c2: u8) -> Hand { choose|h: Hand| holds(h, two_cards(c1 as int, c2 as int), 0) }
pub open spec fn score_map() -> Seq<u16> { choose|f: Seq<u16>| scores(f) }
pub open spec fn score_of(st: int) -> u16 { score_map()[st] }

pub axiom fn tables_cards() ensures cards_ok();
pub axiom fn tables_scores() ensures scores_ok();
pub axiom fn tables_indices() ensures indices_ok();

// ---- arithmetic of the packed key
pub proof fn lemma_key_sum_update(c: Seq<int>, r: int, v: int, n: int)
    requires c.len() == 13, 0 <= r < 13, 0 <= n <= 13,
    ensures key_sum(c.update(r, v), n) == key_sum(c, n) + if r < n { (v - c[r]) * rank_key(r) } else { 0 },
    decreases n,
{
    if n > 0 {
        lemma_key_sum_update(c, r, v, n - 1);
        if r == n - 1 { assert(v * rank_key(r) == c[r] * rank_key(r) + (v - c[r]) * rank_key(r)) by (nonlinear_arith); }
    }
}
pub proof fn lemma_key_sum_bound(c: Seq<int>, n: int)
    requires nonneg(c), 0 <= n <= 13, cards_ok(),
    ensures 0 <= key_sum(c, n) <= total(c, n) * 0x200_0000, total(c, n) >= 0,
    decreases n,
{
    if n > 0 {
        lemma_key_sum_bound(c, n - 1);
        assert(card_entry(4 * (n - 1)));
        assert((4 * (n - 1)) / 4 == n - 1);
        let (x, k, t) = (c[n - 1], rank_key(n - 1), total(c, n - 1));
        assert(0 <= x * k <= x * 0x200_0000) by (nonlinear_arith) requires 0 <= x, 0 <= k < 0x200_0000;
        assert((t + x) * 0x200_0000 == t * 0x200_0000 + x * 0x200_0000);
    }
}
// the union of disjoint hands, in numbers
pub proof fn lemma_union_upto(s: Seq<bool>, t: Seq<bool>, n: int)
    requires s.len() == 52, t.len() == 52, disjoint(s, t), 0 <= n <= 13,
    ensures
        total(counts(union(s, t)), n) == total(counts(s), n) + total(counts(t), n),
        key_sum(counts(union(s, t)), n) == key_sum(counts(s), n) + key_sum(counts(t), n),
        forall|k: int| 0 <= k < 4 ==> #[trigger] total(suit_ranks(union(s, t), k), n) == total(suit_ranks(s, k), n) + total(suit_ranks(t, k), n),
    decreases n,
{
    if n > 0 {
        lemma_union_upto(s, t, n - 1);
        let r = n - 1;
        let u = union(s, t);
        assert(u[4 * r] == (s[4 * r] || t[4 * r])); assert(u[4 * r + 1] == (s[4 * r + 1] || t[4 * r + 1])); assert(u[4 * r + 2] == (s[4 * r + 2] || t[4 * r + 2])); assert(u[4 * r + 3] == (s[4 * r + 3] || t[4 * r + 3]));
        assert(rank_count(u, r) == rank_count(s, r) + rank_count(t, r));
        assert(rank_count(u, r) * rank_key(r) == rank_count(s, r) * rank_key(r) + rank_count(t, r) * rank_key(r)) by (nonlinear_arith) requires rank_count(u, r) == rank_count(s, r) + rank_count(t, r);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] total(suit_ranks(u, k), n) == total(suit_ranks(s, k), n) + total(suit_ranks(t, k), n) by {
            assert(u[4 * r + k] == (s[4 * r + k] || t[4 * r + k]));
            assert(total(suit_ranks(u, k), n - 1) == total(suit_ranks(s, k), n - 1) + total(suit_ranks(t, k), n - 1));
        }
    }
}
pub proof fn lemma_union(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == 52, t.len() == 52, disjoint(s, t),
    ensures
        size(union(s, t)) == size(s) + size(t),
        key_of(union(s, t)) == key_of(s) + key_of(t),
        forall|k: int| 0 <= k < 4 ==> #[trigger] suited(union(s, t), k) == suited(s, k) + suited(t, k),
{
    lemma_union_upto(s, t, 13);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] suited(union(s, t), k) == suited(s, k) + suited(t, k) by {
        assert(total(suit_ranks(union(s, t), k), 13) == total(suit_ranks(s, k), 13) + total(suit_ranks(t, k), 13));
    }
    assert(suited(union(s, t), 0) == suited(s, 0) + suited(t, 0));
    assert(suited(union(s, t), 1) == suited(s, 1) + suited(t, 1));
    assert(suited(union(s, t), 2) == suited(s, 2) + suited(t, 2));
    assert(suited(union(s, t), 3) == suited(s, 3) + suited(t, 3));
}
// numbers of a hand of at most seven cards
pub proof fn lemma_key_bounds(s: Seq<bool>)
    requires s.len() == 52, size(s) <= 7, cards_ok(),
    ensures
        0 <= key_sum(counts(s), 13) < 0x1_0000_0000,
        0 <= size(s),
        forall|k: int| 0 <= k < 4 ==> 0 <= #[trigger] suited(s, k) <= size(s),
        0 <= key_of(s) < 0x8000_0000_0000_0000,
{
    lemma_counts_nonneg(s);
    lemma_key_sum_bound(counts(s), 13);
    lemma_suits(s);
    assert(suited(s, 0) >= 0 && suited(s, 1) >= 0 && suited(s, 2) >= 0 && suited(s, 3) >= 0);
}
pub proof fn lemma_none()
    ensures size(no_cards()) == 0, key_of(no_cards()) == 0, forall|k: int| 0 <= k < 4 ==> #[trigger] suited(no_cards(), k) == 0,
{
    lemma_none_upto(13);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] suited(no_cards(), k) == 0 by { assert(total(suit_ranks(no_cards(), k), 13) == 0); }
    assert(suited(no_cards(), 0) == 0 && suited(no_cards(), 1) == 0 && suited(no_cards(), 2) == 0 && suited(no_cards(), 3) == 0);
}
pub proof fn lemma_none_upto(n: int)
    requires 0 <= n <= 13,
    ensures total(counts(no_cards()), n) == 0, key_sum(counts(no_cards()), n) == 0, forall|k: int| 0 <= k < 4 ==> #[trigger] total(suit_ranks(no_cards(), k), n) == 0,
    decreases n,
{
    if n > 0 { lemma_none_upto(n - 1); assert(0 * rank_key(n - 1) == 0) by (nonlinear_arith); assert(counts(no_cards())[n - 1] == 0); assert(forall|k: int| 0 <= k < 4 ==> total(suit_ranks(no_cards(), k), n - 1) == 0); }
}
pub proof fn lemma_insert(s: Seq<bool>, c: int)
    requires s.len() == 52, 0 <= c < 52, !s[c],
    ensures
        counts(s.update(c, true)) =~= counts(s).update(c / 4, counts(s)[c / 4] + 1),
        size(s.update(c, true)) == size(s) + 1,
        key_of(s.update(c, true)) == key_of(s) + rank_key(c / 4) + 0x1_0000_0000 + 0x1_0000_0000_0000 * suit_unit(c % 4),
        forall|k: int| 0 <= k < 4 ==> #[trigger] suited(s.update(c, true), k) == suited(s, k) + b2i(k == c % 4),
{
    let t = s.update(c, true);
    lemma_remove(t, c);
    assert(t.update(c, false) =~= s);
    assert(c == 4 * (c / 4) + c % 4);
    assert(counts(t) =~= counts(s).update(c / 4, counts(s)[c / 4] + 1)) by {
        assert forall|r: int| 0 <= r < 13 implies counts(t)[r] == counts(s).update(c / 4, counts(s)[c / 4] + 1)[r] by {}
    }
    lemma_key_sum_update(counts(s), c / 4, counts(s)[c / 4] + 1, 13);
    let (x, y) = (counts(s)[c / 4], rank_key(c / 4));
    assert((x + 1 - x) * y == y) by (nonlinear_arith);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] suited(t, k) == suited(s, k) + b2i(k == c % 4) by {}
    assert(suited(t, 0) == suited(s, 0) + b2i(0 == c % 4)); assert(suited(t, 1) == suited(s, 1) + b2i(1 == c % 4)); assert(suited(t, 2) == suited(s, 2) + b2i(2 == c % 4)); assert(suited(t, 3) == suited(s, 3) + b2i(3 == c % 4));
}
// ---- bits of the mask
pub proof fn lemma_mask_or(a: u64, b: u64)
    ensures cards_of(a | b) =~= union(cards_of(a), cards_of(b)), a & 0xe000_e000_e000_e000 == 0 && b & 0xe000_e000_e000_e000 == 0 ==> (a | b) & 0xe000_e000_e000_e000 == 0,
{
    assert forall|c: int| 0 <= c < 52 implies cards_of(a | b)[c] == union(cards_of(a), cards_of(b))[c] by {
        let x = 1u64 << (card_pos(c) as u64);
        assert(((a | b) & x != 0) == (a & x != 0 || b & x != 0)) by (bit_vector);
    }
    assert(a & 0xe000_e000_e000_e000 == 0 && b & 0xe000_e000_e000_e000 == 0 ==> (a | b) & 0xe000_e000_e000_e000 == 0) by (bit_vector);
}
pub proof fn lemma_bit(p: u64, q: u64)
    requires p < 64, q < 64,
    ensures ((1u64 << p) & (1u64 << q) != 0) == (p == q),
{
    assert(((1u64 << p) & (1u64 << q) != 0) == (p == q)) by (bit_vector) requires p < 64, q < 64;
}
pub proof fn lemma_pos(c: int, d: int)
    requires 0 <= c < 52, 0 <= d < 52,
    ensures 0 <= card_pos(c) < 64, card_pos(c) % 16 < 13, (card_pos(c) == card_pos(d)) == (c == d), card_pos(c) / 16 == 3 - c % 4, card_pos(c) % 16 == c / 4,
{
    assert(card_pos(c) == (3 - c % 4) * 16 + c / 4);
}
pub proof fn lemma_card_mask(c: int)
    requires 0 <= c < 52, cards_ok(),
    ensures cards_of(card_mask(c)) =~= one_card(c), card_mask(c) & 0xe000_e000_e000_e000 == 0, card_mask(c) == 1u64 << (card_pos(c) as u64),
{
    assert(card_entry(c));
    assert forall|d: int| 0 <= d < 52 implies cards_of(card_mask(c))[d] == one_card(c)[d] by {
        lemma_pos(c, d); lemma_pos(d, c);
        lemma_bit(card_pos(c) as u64, card_pos(d) as u64);
    }
    lemma_pos(c, c);
    let p = card_pos(c) as u64;
    assert((1u64 << p) & 0xe000_e000_e000_e000 == 0) by (bit_vector) requires p < 64, p % 16 < 13;
}
// CARDS[c] is the card c
pub proof fn lemma_one_card(h: Hand, c: int)
    requires 0 <= c < 52, h.key == card_key(c), h.mask == card_mask(c), cards_ok(),
    ensures holds(h, one_card(c), 0), size(one_card(c)) == 1,
{
    lemma_card_mask(c);
    lemma_none();
    lemma_insert(no_cards(), c);
    assert(no_cards().update(c, true) =~= one_card(c));
    assert(card_entry(c));
}
// adding disjoint hands
pub proof fn lemma_add(a: Hand, s: Seq<bool>, x: int, b: Hand, t: Seq<bool>, y: int)
    requires holds(a, s, x), holds(b, t, y), disjoint(s, t), size(s) + size(t) <= 7, x == 0 || y == 0, cards_ok(),
    ensures
        a.key + b.key <= u64::MAX,
        holds(Hand { key: (a.key + b.key) as u64, mask: a.mask | b.mask }, union(s, t), x + y),
        size(union(s, t)) == size(s) + size(t),
{
    lemma_union(s, t);
    lemma_mask_or(a.mask, b.mask);
    lemma_key_bounds(s); lemma_key_bounds(t); lemma_key_bounds(union(s, t));
    assert(suited(union(s, t), 0) <= 7 && suited(union(s, t), 1) <= 7 && suited(union(s, t), 2) <= 7 && suited(union(s, t), 3) <= 7);
}
// equal bits, equal masks
pub proof fn lemma_ext(a: u64, b: u64, k: u64)
    requires k <= 64, forall|j: u64| k <= j < 64 ==> (a & (1u64 << j) != 0) == (#[trigger] (b & (1u64 << j)) != 0),
    ensures k < 64 ==> a >> k == b >> k,
    decreases 64 - k,
{
    if k < 64 {
        lemma_ext(a, b, (k + 1) as u64);
        assert((a & (1u64 << k) != 0) == (b & (1u64 << k) != 0));
        if k == 63 {
            assert((a & (1u64 << 63) != 0) == (b & (1u64 << 63) != 0) ==> a >> 63 == b >> 63) by (bit_vector);
        } else {
            let j = (k + 1) as u64;
            assert(a >> k == b >> k) by (bit_vector) requires k < 63, j == k + 1, a >> j == b >> j, (a & (1u64 << k) != 0) == (b & (1u64 << k) != 0);
        }
    }
}
pub proof fn lemma_same_cards(a: u64, b: u64)
    requires a & 0xe000_e000_e000_e000 == 0, b & 0xe000_e000_e000_e000 == 0, cards_of(a) =~= cards_of(b),
    ensures a == b,
{
    assert forall|j: u64| 0 <= j < 64 implies (a & (1u64 << j) != 0) == (#[trigger] (b & (1u64 << j)) != 0) by {
        if j % 16 < 13 {
            let c = 4 * (j % 16) as int + (3 - (j / 16) as int);
            assert(card_pos(c) == j);
            assert(cards_of(a)[c] == cards_of(b)[c]);
        } else {
            assert(a & (1u64 << j) == 0) by (bit_vector) requires a & 0xe000_e000_e000_e000 == 0, j % 16 >= 13, j < 64;
            assert(b & (1u64 << j) == 0) by (bit_vector) requires b & 0xe000_e000_e000_e000 == 0, j % 16 >= 13, j < 64;
        }
    }
    lemma_ext(a, b, 0);
    assert(a >> 0 == a && b >> 0 == b) by (bit_vector);
}
// C03: a hand value is the set of its cards
pub proof fn theorem_same_set(a: Hand, b: Hand, s: Seq<bool>, base: int)
    requires holds(a, s, base), holds(b, s, base),
    ensures a == b,
{
    lemma_same_cards(a.mask, b.mask);
}
// ---- fields of the key
pub open spec fn nibble(key: u64, k: int) -> int { ((key as int) / (0x1_0000_0000_0000 * suit_unit(k))) % 16 }
pub proof fn lemma_fields(h: Hand, s: Seq<bool>, base: int)
    requires holds(h, s, base), cards_ok(),
    ensures
        h.key as int % 0x1_0000_0000 == key_sum(counts(s), 13),
        (h.key as int / 0x1_0000_0000) % 16 == size(s),
        nibble(h.key, 0) == suited(s, 0) + base, nibble(h.key, 1) == suited(s, 1) + base, nibble(h.key, 2) == suited(s, 2) + base, nibble(h.key, 3) == suited(s, 3) + base,
        suited(s, 0) + suited(s, 1) + suited(s, 2) + suited(s, 3) == size(s),
{
    lemma_key_bounds(s);
    lemma_suits(s);
    let (a, b, c, d) = (suited(s, 0) + base, suited(s, 1) + base, suited(s, 2) + base, suited(s, 3) + base);
    assert(0 <= a <= 10 && 0 <= b <= 10 && 0 <= c <= 10 && 0 <= d <= 10);
    assert(h.key == key_sum(counts(s), 13) + 0x1_0000_0000 * size(s) + 0x1_0000_0000_0000 * (a + 16 * b + 256 * c + 4096 * d));
    assert(h.key as int / 0x1_0000_0000_0000 == a + 16 * b + 256 * c + 4096 * d);
    assert(h.key as int / 0x10_0000_0000_0000 == b + 16 * c + 256 * d);
    assert(h.key as int / 0x100_0000_0000_0000 == c + 16 * d);
    assert(h.key as int / 0x1000_0000_0000_0000 == d);
    assert(suit_unit(0) == 1 && suit_unit(1) == 16 && suit_unit(2) == 256 && suit_unit(3) == 4096);
}
// the upper half of the key
pub proof fn lemma_counters(key: u64) -> (c: u32)
    ensures c == key as int / 0x1_0000_0000,
        nibble(key, 0) == (c / 0x1_0000) % 16, nibble(key, 1) == (c / 0x10_0000) % 16, nibble(key, 2) == (c / 0x100_0000) % 16, nibble(key, 3) == (c / 0x1000_0000) % 16,
{
    let k = key as int;
    let c = (key as int / 0x1_0000_0000) as u32;
    assert(c as int == k / 0x1_0000_0000);
    assert(c as int / 0x1_0000 == k / 0x1_0000_0000_0000);
    assert(c as int / 0x10_0000 == k / 0x10_0000_0000_0000);
    assert(c as int / 0x100_0000 == k / 0x100_0000_0000_0000);
    assert(c as int / 0x1000_0000 == k / 0x1000_0000_0000_0000);
    assert(suit_unit(0) == 1 && suit_unit(1) == 16 && suit_unit(2) == 256 && suit_unit(3) == 4096);
    c
}
impl vstd::std_specs::ops::AddSpecImpl<Hand> for Hand {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Hand) -> bool { self.key + o.key <= u64::MAX }
    open spec fn add_spec(self, o: Hand) -> Hand { Hand { key: (self.key + o.key) as u64, mask: self.mask | o.mask } }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Hand> for Hand {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: Hand) -> bool { self.key + o.key <= u64::MAX }
    open spec fn add_assign_spec(&self, o: Hand) -> &Hand { &Hand { key: (self.key + o.key) as u64, mask: self.mask | o.mask } }
}
//@ item src/constants.rs const CARD_COUNT
//@ item src/constants.rs const PERF_HASH_ROW_SHIFT
//@ item src/constants.rs const CARD_COUNT_SHIFT
//@ item src/constants.rs const SUITS_SHIFT
//@ item src/constants.rs const FLUSH_CHECK_MASK64
//@ item src/constants.rs const FLUSH_CHECK_MASK32
// ---- the tables of /repo (what they contain: tables_hand)
proof fn lemma_hole_hand(a: u8, b: u8)
    requires a < 52, b < 52, a != b,
    ensures holds(hole_hand(a, b), two_cards(a as int, b as int), 0), size(two_cards(a as int, b as int)) == 2,
{
    tables_cards();
    let (x, y) = (Hand { key: card_key(a as int) as u64, mask: card_mask(a as int) }, Hand { key: card_key(b as int) as u64, mask: card_mask(b as int) });
    assert(card_entry(a as int) && card_entry(b as int));
    lemma_one_card(x, a as int); lemma_one_card(y, b as int);
    lemma_add(x, one_card(a as int), 0, y, one_card(b as int), 0);
    assert(union(one_card(a as int), one_card(b as int)) =~= two_cards(a as int, b as int));
}
#[verifier::external_body] fn cards_at(i: usize) -> (r: Hand) requires i < 52, ensures r.key == card_key(i as int), r.mask == card_mask(i as int), { unimplemented!() }
#[verifier::external_body] fn lookup_get(i: usize) -> (r: u16) requires i < lookup_len(), ensures r == lookup_at(i as int), { unimplemented!() }
#[verifier::external_body] fn flush_get(i: usize) -> (r: u16) requires i < flush_len(), ensures r == flush_at(i as int), { unimplemented!() }
#[verifier::external_body] fn offset_get(i: usize) -> (r: u32) requires i < offset_len(), ensures r == offset_at(i as int), { unimplemented!() }
#[verifier::external_body] fn card_map_get(i: usize) -> (r: usize) requires i < card_map_len(), ensures r == card_map_at(i as int), { unimplemented!() }
#[verifier::external_body] fn mask_map_get(i: usize) -> (r: usize) requires i < mask_map_len(), ensures r == mask_map_at(i as int), { unimplemented!() }


// the ranks of a suit, as bits
pub open spec fn ranks16(m: u16) -> Seq<int> { bits16(m) }
pub proof fn lemma_suit_bits(m: u64, k: int, x: u16)
    requires 0 <= k < 4, m & 0xe000_e000_e000_e000 == 0, x == (m >> ((16 * (3 - k)) as u64)) & 0xffff,
    ensures x < 8192, bits16(x) =~= suit_ranks(cards_of(m), k),
{
    let z = (16 * (3 - k)) as u64;
    assert((m >> z) & 0xffff < 8192) by (bit_vector) requires m & 0xe000_e000_e000_e000 == 0, z == 0 || z == 16 || z == 32 || z == 48;
    assert forall|r: int| 0 <= r < 13 implies bits16(x)[r] == suit_ranks(cards_of(m), k)[r] by {
        let c = 4 * r + k;
        assert(c % 4 == k && c / 4 == r);
        let q = r as u16; let p = card_pos(c) as u64; let y = (m >> z) & 0xffff;
        assert(p == z + q);
        assert((x & (1u16 << q) != 0) == (m & (1u64 << p) != 0)) by (bit_vector) requires x == (m >> z) & 0xffff, q < 13, p == z + q, z == 0 || z == 16 || z == 32 || z == 48;
    }
}
// some card of rank r
pub open spec fn some_rank(s: Seq<bool>) -> Seq<int> { Seq::new(13, |r: int| b2i(rank_count(s, r) > 0)) }
pub open spec fn mask_upto(m: u64, n: int) -> Seq<bool> { Seq::new(52, |c: int| c < n && mask_cards(m)[c]) }
pub proof fn lemma_size_part(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == 52, t.len() == 52, forall|c: int| 0 <= c < 52 && s[c] ==> #[trigger] t[c],
    ensures size(s) <= size(t),
{
    let rest = Seq::new(52, |c: int| t[c] && !s[c]);
    assert(union(s, rest) =~= t);
    lemma_union(s, rest);
    lemma_suits(rest);
}
