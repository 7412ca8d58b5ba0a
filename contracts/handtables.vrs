// ------------------------------------------------------------------------------------------
// The tables of /repo, as uninterpreted functions, and what has to hold of them.  The checker
// program tables_hand is verified to answer "true" only if tables_ok() holds, and is run on
// the real tables on every run of a check that relies on it.
pub uninterp spec fn rank_key(r: int) -> int;      // key of one card of rank r, low 32 bits
pub uninterp spec fn card_key(c: int) -> int;      // CARDS[c].key
pub uninterp spec fn card_mask(c: int) -> u64;     // CARDS[c].mask
pub uninterp spec fn lookup_at(i: int) -> int;     // LOOKUP[i]
pub uninterp spec fn flush_at(i: int) -> int;      // LOOKUP_FLUSH[i]
pub uninterp spec fn offset_at(i: int) -> int;     // PERF_HASH_OFFSETS[i]
pub uninterp spec fn card_map_at(i: int) -> int;   // CARD_MAP[i]
pub uninterp spec fn mask_map_at(i: int) -> int;   // MASK_MAP[i]
pub uninterp spec fn lookup_len() -> int;
pub uninterp spec fn flush_len() -> int;
pub uninterp spec fn offset_len() -> int;
pub uninterp spec fn card_map_len() -> int;
pub uninterp spec fn mask_map_len() -> int;

// bit of card c in a hand's mask
pub open spec fn card_pos(c: int) -> int { (3 - c % 4) * 16 + c / 4 }
// sum of the rank keys
pub open spec fn key_sum(c: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { key_sum(c, n - 1) + c[n - 1] * rank_key(n - 1) } }
pub open spec fn hash_index(k: int) -> int { (k + offset_at(k / 4096)) % 0x1_0000_0000 }
pub open spec fn rank_counts(c: Seq<int>) -> bool { c.len() == 13 && forall|r: int| 0 <= r < 13 ==> 0 <= #[trigger] c[r] <= 4 }
pub open spec fn rank_entry(c: Seq<int>, f: Seq<u16>) -> bool {
    &&& 0 <= key_sum(c, 13) < 0x1_0000_0000
    &&& key_sum(c, 13) / 4096 < offset_len()
    &&& hash_index(key_sum(c, 13)) < lookup_len()
    &&& 0 <= best(c, false) < f.len()
    &&& lookup_at(hash_index(key_sum(c, 13))) == f[best(c, false)]
    &&& f[best(c, false)] > 0
}
pub open spec fn bits16(m: u16) -> Seq<int> { Seq::new(13, |r: int| b2i(m & (1u16 << r as u16) != 0)) }
pub open spec fn flush_entry(m: u16, f: Seq<u16>) -> bool {
    &&& 0 <= best(bits16(m), true) < f.len()
    &&& m < flush_len()
    &&& flush_at(m as int) == f[best(bits16(m), true)]
    &&& f[best(bits16(m), true)] > 0
}
// f gives the score of a strength (0: no hand has this strength); scores rise with the strength
pub open spec fn rising(f: Seq<u16>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < f.len() && f[a] > 0 && f[b] > 0 ==> #[trigger] f[a] < #[trigger] f[b]
    &&& forall|a: int| 0 <= a < f.len() && #[trigger] f[a] > 0 ==> f[a] / 4096 == a / 537824
}
pub open spec fn scores(f: Seq<u16>) -> bool {
    &&& rising(f)
    &&& forall|c: Seq<int>| rank_counts(c) && 2 <= total(c, 13) <= 7 ==> #[trigger] rank_entry(c, f)
    &&& forall|m: u16| m < 8192 && 5 <= total(bits16(m), 13) <= 7 ==> #[trigger] flush_entry(m, f)
}
pub open spec fn card_entry(c: int) -> bool {
    &&& 0 <= rank_key(c / 4) < 0x200_0000
    &&& card_key(c) == rank_key(c / 4) + 0x1_0000_0000 + (0x1_0000_0000_0000 * suit_unit(c % 4))
    &&& card_mask(c) == 1u64 << (card_pos(c) as u64)
}
pub open spec fn suit_unit(k: int) -> int { if k == 0 { 1 } else if k == 1 { 16 } else if k == 2 { 256 } else { 4096 } }
// the index of two cards, a < b
pub open spec fn pair_slot(a: int, b: int) -> int { a * (101 - a) / 2 + b - 1 }
pub open spec fn hole_index(a: int, b: int) -> int { card_map_at(pair_slot(a, b)) }
pub open spec fn mask_slot(a: int, b: int) -> int {
    let (p, q) = (card_pos(a), card_pos(b));
    if p < q { 64 * p + q } else { 64 * q + p }
}
pub open spec fn class_of(a: int, b: int) -> int { if a / 4 == b / 4 { 0 } else if a % 4 == b % 4 { 1 } else { 2 } }
pub open spec fn index_entry(a: int, b: int, inv: Seq<(u8, u8)>) -> bool {
    let i = hole_index(a, b);
    &&& 0 <= pair_slot(a, b) < card_map_len()
    &&& mask_slot(a, b) < mask_map_len()
    &&& 0 <= i < 1326 && i < inv.len()
    &&& mask_map_at(mask_slot(a, b)) == i
    &&& inv[i].0 == a && inv[i].1 == b
    &&& class_of(a, b) == if i < 78 { 0int } else if i < 390 { 1 } else { 2 }
}
pub open spec fn indices(inv: Seq<(u8, u8)>) -> bool {
    &&& inv.len() == 1326
    &&& forall|a: int, b: int| 0 <= a < b < 52 ==> #[trigger] index_entry(a, b, inv)
    &&& forall|i: int| 0 <= i < 1326 ==> #[trigger] inv[i].0 < inv[i].1 < 52 && hole_index(inv[i].0 as int, inv[i].1 as int) == i
}
pub open spec fn cards_ok() -> bool { forall|c: int| 0 <= c < 52 ==> #[trigger] card_entry(c) }
pub open spec fn scores_ok() -> bool { exists|f: Seq<u16>| scores(f) }
pub open spec fn indices_ok() -> bool { exists|inv: Seq<(u8, u8)>| indices(inv) }
