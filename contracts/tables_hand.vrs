// Checker of the hand tables: verified to print "ok" only if cards_ok() and scores_ok() and
// indices_ok() hold, then compiled with the real tables of /repo and run.
use vstd::prelude::*;
#[path = "@REPO@/src/constants.rs"] pub mod constants;
#[path = "@REPO@/src/lookup.rs"] pub mod lookup;
#[path = "@REPO@/src/flush_lookup.rs"] pub mod flush_lookup;
#[path = "@REPO@/src/hash_offsets.rs"] pub mod hash_offsets;
#[path = "@REPO@/src/map.rs"] pub mod map;
#[path = "@REPO@/src/hand_evaluator/mod.rs"] pub mod hand_evaluator;
static T_LOOKUP: &[u16] = &lookup::LOOKUP;
static T_FLUSH: &[u16] = &flush_lookup::LOOKUP_FLUSH;
static T_OFF: &[u32] = &hash_offsets::PERF_HASH_OFFSETS;
verus! {
//@ include poker
//@ include pokerlemmas
//@ include handtables

// ---- the real tables
#[verifier::external_body] fn g_rank_key(r: usize) -> (v: u64) requires r < 13, ensures v == rank_key(r as int), { hand_evaluator::CARDS[4 * r].key & 0xffff_ffff }
#[verifier::external_body] fn g_card_key(c: usize) -> (v: u64) requires c < 52, ensures v == card_key(c as int), { hand_evaluator::CARDS[c].key }
#[verifier::external_body] fn g_card_mask(c: usize) -> (v: u64) requires c < 52, ensures v == card_mask(c as int), { hand_evaluator::CARDS[c].mask }
#[verifier::external_body] fn g_lookup_len() -> (v: usize) ensures v == lookup_len(), { lookup::LOOKUP.len() }
#[verifier::external_body] fn g_lookup(i: usize) -> (v: u16) requires i < lookup_len(), ensures v == lookup_at(i as int), { T_LOOKUP[i] }
#[verifier::external_body] fn g_flush_len() -> (v: usize) ensures v == flush_len(), { flush_lookup::LOOKUP_FLUSH.len() }
#[verifier::external_body] fn g_flush(i: usize) -> (v: u16) requires i < flush_len(), ensures v == flush_at(i as int), { T_FLUSH[i] }
#[verifier::external_body] fn g_offset_len() -> (v: usize) ensures v == offset_len(), { hash_offsets::PERF_HASH_OFFSETS.len() }
#[verifier::external_body] fn g_offset(i: usize) -> (v: u32) requires i < offset_len(), ensures v == offset_at(i as int), { T_OFF[i] }
#[verifier::external_body] fn g_card_map_len() -> (v: usize) ensures v == card_map_len(), { map::CARD_MAP.len() }
#[verifier::external_body] fn g_card_map(i: usize) -> (v: i64) requires i < card_map_len(), ensures v == card_map_at(i as int), { map::CARD_MAP[i] as i64 }
#[verifier::external_body] fn g_mask_map_len() -> (v: usize) ensures v == mask_map_len(), { map::MASK_MAP.len() }
#[verifier::external_body] fn g_mask_map(i: usize) -> (v: i64) requires i < mask_map_len(), ensures v == mask_map_at(i as int), { map::MASK_MAP[i] as i64 }

// ---- executable twins of the specification
pub open spec fn ci(c: Seq<u8>) -> Seq<int> { Seq::new(c.len(), |i: int| c[i] as int) }
fn total_x(c: &Vec<u8>) -> (t: u32)
    requires c@.len() == 13, forall|i: int| 0 <= i < 13 ==> c@[i] <= 7,
    ensures t == total(ci(c@), 13),
{
    let mut t: u32 = 0;
    let mut i: usize = 0;
    while i < 13
        invariant i <= 13, c@.len() == 13, t == total(ci(c@), i as int), t <= 7 * i, forall|i: int| 0 <= i < 13 ==> c@[i] <= 7,
        decreases 13 - i,
    { t = t + c[i] as u32; i = i + 1; }
    t
}
fn groups_x(c: &Vec<u8>, k: u8) -> (t: u32)
    requires c@.len() == 13,
    ensures t == groups(ci(c@), k as int, 13),
{
    let mut t: u32 = 0;
    let mut i: usize = 0;
    while i < 13
        invariant i <= 13, c@.len() == 13, t == groups(ci(c@), k as int, i as int), t <= i,
        decreases 13 - i,
    { if c[i] == k { t = t + 1; } i = i + 1; }
    t
}
fn straight_x(c: &Vec<u8>) -> (t: u32)
    requires c@.len() == 13,
    ensures t == straight(ci(c@), 10), t <= 10,
{
    let mut h: usize = 10;
    while h > 0
        invariant h <= 10, c@.len() == 13, straight(ci(c@), 10) == straight(ci(c@), h as int),
        decreases h,
    {
        let at = if h == 1 { c[12] > 0 && c[0] > 0 && c[1] > 0 && c[2] > 0 && c[3] > 0 }
            else { c[h - 2] > 0 && c[h - 1] > 0 && c[h] > 0 && c[h + 1] > 0 && c[h + 2] > 0 };
        assert(at == straight_at(ci(c@), h - 1));
        if at { return h as u32; }
        h = h - 1;
    }
    0
}
fn tiebreak_x(c: &Vec<u8>) -> (t: u32)
    requires c@.len() == 13,
    ensures t == tiebreak(ci(c@)), t < 537824,
{
    let mut a: u32 = 0;
    let mut l: u32 = 5;
    let mut i: usize = 0;
    while i < 52
        invariant i <= 52, c@.len() == 13, (a as int, l as int) == digits(ci(c@), i as int), l <= 5, a < 537824,
        decreases 52 - i,
    {
        proof { lemma_digits(ci(c@), i as int); lemma_digits(ci(c@), i as int + 1); }
        let r = 12 - i % 13;
        let k = 4 - i / 13;
        if c[r] as usize == k && l > 0 { a = a * 14 + r as u32 + 1; l = l - 1; }
        i = i + 1;
    }
    proof { lemma_tiebreak(ci(c@)); }
    let p: u32 = if l == 0 { 1 } else if l == 1 { 14 } else if l == 2 { 196 } else if l == 3 { 2744 } else if l == 4 { 38416 } else { 537824 };
    a * p
}
fn st5_x(c: &Vec<u8>, flush: bool) -> (t: u32)
    requires c@.len() == 13,
    ensures t == st5(ci(c@), flush),
{
    let s = straight_x(c);
    let g2 = groups_x(c, 2);
    let g3 = groups_x(c, 3);
    let g4 = groups_x(c, 4);
    let cat: u32 = if s > 0 { if flush { 9 } else { 5 } } else if flush { 6 } else if g4 > 0 { 8 } else if g3 > 0 && g2 > 0 { 7 } else if g3 > 0 { 4 } else if g2 > 1 { 3 } else if g2 > 0 { 2 } else { 1 };
    cat * 537824 + if s > 0 { s } else { tiebreak_x(c) }
}
fn best_x(c: &mut Vec<u8>, flush: bool) -> (t: u32)
    requires old(c)@.len() == 13, forall|i: int| 0 <= i < 13 ==> old(c)@[i] <= 7,
    ensures t == best(ci(old(c)@), flush), final(c)@ =~= old(c)@,
    decreases total(ci(old(c)@), 13),
{
    let ghost c0 = c@;
    if total_x(c) <= 5 { return st5_x(c, flush); }
    let mut b: u32 = 0;
    let mut n: usize = 0;
    while n < 13
        invariant n <= 13, c@ =~= c0, c0 == old(c)@, c0.len() == 13, b == best_upto(ci(c0), flush, n as int), total(ci(c0), 13) > 5, forall|i: int| 0 <= i < 13 ==> c0[i] <= 7,
        decreases 13 - n,
    {
        if c[n] > 0 {
            let k = c[n];
            c.set(n, k - 1);
            proof { lemma_total_update(ci(c0), n as int, k - 1, 13); assert(ci(c@) =~= ci(c0).update(n as int, k - 1)); }
            let x = best_x(c, flush);
            c.set(n, k);
            if x > b { b = x; }
        }
        n = n + 1;
    }
    b
}
fn key_sum_x(c: &Vec<u8>) -> (t: u64)
    requires c@.len() == 13, forall|i: int| 0 <= i < 13 ==> c@[i] <= 7, cards_ok(),
    ensures t == key_sum(ci(c@), 13), t < 0x1_0000_0000,
{
    let mut t: u64 = 0;
    let mut i: usize = 0;
    while i < 13
        invariant i <= 13, c@.len() == 13, t == key_sum(ci(c@), i as int), t <= 0xE00_0000 * i, forall|i: int| 0 <= i < 13 ==> c@[i] <= 7, cards_ok(),
        decreases 13 - i,
    {
        assert(card_entry(4 * i));
        assert((4 * i) / 4 == i);
        let k = g_rank_key(i);
        assert(k < 0x200_0000);
        let n = c[i] as u64;
        assert(0 <= n * k <= 0xE00_0000) by (nonlinear_arith) requires 0 <= n <= 7, 0 <= k < 0x200_0000;
        let x = n * k;
        assert(x <= 0xE00_0000);
        assert(t + x <= 0xE00_0000 * (i + 1));
        assert(x == ci(c@)[i as int] * rank_key(i as int));
        t = t + x;
        i = i + 1;
    }
    t
}

// ---- one rank multiset
fn rank_entry_x(c: &mut Vec<u8>, f: &Vec<u16>) -> (ok: bool)
    requires old(c)@.len() == 13, forall|i: int| 0 <= i < 13 ==> old(c)@[i] <= 4, cards_ok(),
    ensures ok ==> rank_entry(ci(old(c)@), f@), final(c)@ =~= old(c)@,
{
    let b = best_x(c, false);
    let k = key_sum_x(c) as u32;
    if (k / 4096) as usize >= g_offset_len() { return false; }
    let o = g_offset((k / 4096) as usize);
    let h = k.wrapping_add(o);
    if h as usize >= g_lookup_len() || b as usize >= f.len() { return false; }
    let v = f[b as usize];
    g_lookup(h as usize) == v && v > 0
}
proof fn lemma_prefix(c: Seq<int>, d: Seq<int>, n: int)
    requires 0 <= n <= 13, c.len() == 13, d.len() == 13, forall|i: int| 0 <= i < n ==> c[i] == d[i],
    ensures total(c, n) == total(d, n),
    decreases n,
{
    if n > 0 { lemma_prefix(c, d, n - 1); }
}
proof fn lemma_total_mono(d: Seq<int>, n: int, m: int)
    requires nonneg(d), 0 <= n <= m <= 13,
    ensures total(d, n) <= total(d, m),
    decreases m,
{
    if n < m { lemma_total_mono(d, n, m - 1); }
}
// d continues c from rank r on
spec fn continues(c: Seq<u8>, d: Seq<int>, r: int) -> bool { rank_counts(d) && 2 <= total(d, 13) <= 7 && forall|i: int| 0 <= i < r ==> d[i] == #[trigger] c[i] }
fn all_ranks(r: usize, left: u32, c: &mut Vec<u8>, f: &Vec<u16>) -> (ok: bool)
    requires r <= 13, left <= 7, old(c)@.len() == 13, forall|i: int| 0 <= i < 13 ==> old(c)@[i] <= 4, cards_ok(),
        forall|i: int| r <= i < 13 ==> old(c)@[i] == 0, total(ci(old(c)@), r as int) + left == 7,
    ensures final(c)@ =~= old(c)@, ok ==> forall|d: Seq<int>| continues(old(c)@, d, r as int) ==> #[trigger] rank_entry(d, f@),
    decreases 13 - r,
{
    let ghost c0 = c@;
    if r == 13 {
        proof { assert forall|d: Seq<int>| continues(c0, d, 13) implies d =~= ci(c0) by { assert forall|i: int| 0 <= i < 13 implies d[i] == ci(c0)[i] by { assert(d[i] == c0[i]); } } }
        let t = total_x(c);
        if t < 2 { return true; }
        return rank_entry_x(c, f);
    }
    let top: u32 = if left < 4 { left } else { 4 };
    let mut k: u32 = 0;
    while k <= top
        invariant k <= top + 1, top <= left, top <= 4, left <= 7, c@ =~= c0, c0 == old(c)@, c0.len() == 13, r < 13, cards_ok(),
            forall|i: int| 0 <= i < 13 ==> c0[i] <= 4, forall|i: int| r <= i < 13 ==> c0[i] == 0, total(ci(c0), r as int) + left == 7,
            forall|d: Seq<int>| continues(c0, d, r as int) && d[r as int] < k ==> #[trigger] rank_entry(d, f@),
        decreases top + 1 - k,
    {
        c.set(r, k as u8);
        proof { lemma_prefix(ci(c@), ci(c0), r as int); }
        let ok = all_ranks(r + 1, left - k, c, f);
        proof {
            let c1 = c0.update(r as int, k as u8);
            assert(ok ==> forall|d: Seq<int>| continues(c1, d, r + 1) ==> #[trigger] rank_entry(d, f@));
            if ok {
                assert forall|d: Seq<int>| continues(c0, d, r as int) && d[r as int] < k + 1 implies #[trigger] rank_entry(d, f@) by {
                    if d[r as int] == k {
                        assert forall|i: int| 0 <= i < r + 1 implies d[i] == #[trigger] c1[i] by { if i < r { assert(d[i] == c0[i]); } }
                        assert(continues(c1, d, r + 1));
                    }
                }
            }
        }
        c.set(r, 0);
        if !ok { return false; }
        k = k + 1;
    }
    proof {
        assert forall|d: Seq<int>| continues(c0, d, r as int) implies #[trigger] rank_entry(d, f@) by {
            assert(total(ci(c0), r as int) == total(d, r as int)) by {
                assert forall|i: int| 0 <= i < r implies ci(c0)[i] == d[i] by { assert(d[i] == c0[i]); }
                lemma_prefix(ci(c0), d, r as int);
            }
            assert(d[r as int] <= 4);
            lemma_total_mono(d, r + 1, 13);
        }
    }
    true
}
fn all_flushes(f: &Vec<u16>) -> (ok: bool)
    ensures ok ==> forall|m: u16| m < 8192 && 5 <= total(bits16(m), 13) <= 7 ==> #[trigger] flush_entry(m, f@),
{
    let mut m: u16 = 0;
    while m < 8192
        invariant m <= 8192, forall|x: u16| x < m && 5 <= total(bits16(x), 13) <= 7 ==> #[trigger] flush_entry(x, f@),
        decreases 8192 - m,
    {
        let mut c: Vec<u8> = Vec::new();
        let mut i: u16 = 0;
        while i < 13
            invariant i <= 13, c@.len() == i, forall|j: int| 0 <= j < i ==> c@[j] == b2i(m & (1u16 << j as u16) != 0), forall|j: int| 0 <= j < i ==> c@[j] <= 1,
            decreases 13 - i,
        { c.push(if m & (1u16 << i) != 0 { 1 } else { 0 }); i = i + 1; }
        assert(ci(c@) =~= bits16(m));
        let t = total_x(&c);
        if t >= 5 && t <= 7 {
            let b = best_x(&mut c, true);
            if b as usize >= f.len() || m as usize >= g_flush_len() { return false; }
            let v = f[b as usize];
            if !(g_flush(m as usize) == v && v > 0) { return false; }
        }
        m = m + 1;
    }
    true
}
fn rising_x(f: &Vec<u16>) -> (ok: bool)
    ensures ok ==> rising(f@),
{
    let mut i: usize = 0;
    let mut last: u16 = 0;
    while i < f.len()
        invariant i <= f@.len(), forall|a: int| 0 <= a < i && #[trigger] f@[a] > 0 ==> f@[a] <= last,
            forall|a: int, b: int| 0 <= a < b < i && f@[a] > 0 && f@[b] > 0 ==> #[trigger] f@[a] < #[trigger] f@[b],
            forall|a: int| 0 <= a < i && #[trigger] f@[a] > 0 ==> f@[a] / 4096 == a / 537824,
        decreases f@.len() - i,
    {
        let v = f[i];
        if v > 0 {
            if v <= last || (v / 4096) as usize != i / 537824 { return false; }
            last = v;
        }
        i = i + 1;
    }
    true
}
fn cards_x() -> (ok: bool)
    ensures ok ==> cards_ok(),
{
    let mut c: usize = 0;
    while c < 52
        invariant c <= 52, forall|x: int| 0 <= x < c ==> #[trigger] card_entry(x),
        decreases 52 - c,
    {
        let k = g_rank_key(c / 4);
        if k >= 0x200_0000 { return false; }
        let u: u64 = if c % 4 == 0 { 1 } else if c % 4 == 1 { 16 } else if c % 4 == 2 { 256 } else { 4096 };
        if g_card_key(c) != k + 0x1_0000_0000 + 0x1_0000_0000_0000 * u { return false; }
        if g_card_mask(c) != 1u64 << (((3 - c % 4) * 16 + c / 4) as u64) { return false; }
        c = c + 1;
    }
    true
}
fn pos_x(c: usize) -> (p: usize)
    requires c < 52,
    ensures p == card_pos(c as int), p < 64,
{ (3 - c % 4) * 16 + c / 4 }
fn index_entry_x(a: usize, b: usize, inv: &Vec<(u8, u8)>) -> (ok: bool)
    requires a < b < 52,
    ensures ok ==> index_entry(a as int, b as int, inv@),
{
    assert(0 <= a * (101 - a) <= 52 * 101) by (nonlinear_arith) requires 0 <= a < 52;
    let slot = a * (101 - a) / 2 + b - 1;
    if slot >= g_card_map_len() { return false; }
    let i = g_card_map(slot);
    let (p, q) = (pos_x(a), pos_x(b));
    let ms = if p < q { 64 * p + q } else { 64 * q + p };
    if ms >= g_mask_map_len() || i < 0 || i >= 1326 || i as usize >= inv.len() { return false; }
    let e = inv[i as usize];
    let cl: usize = if a / 4 == b / 4 { 0 } else if a % 4 == b % 4 { 1 } else { 2 };
    let want: usize = if i < 78 { 0 } else if i < 390 { 1 } else { 2 };
    g_mask_map(ms) == i && e.0 as usize == a && e.1 as usize == b && cl == want
}
fn indices_x(inv: &Vec<(u8, u8)>) -> (ok: bool)
    ensures ok ==> indices(inv@),
{
    if inv.len() != 1326 { return false; }
    let mut a: usize = 0;
    while a < 52
        invariant a <= 52, forall|x: int, y: int| 0 <= x < a && x < y < 52 ==> #[trigger] index_entry(x, y, inv@),
        decreases 52 - a,
    {
        let mut b: usize = a + 1;
        while b < 52
            invariant a < b <= 52, forall|x: int, y: int| 0 <= x < a && x < y < 52 ==> #[trigger] index_entry(x, y, inv@),
                forall|y: int| a < y < b ==> #[trigger] index_entry(a as int, y, inv@),
            decreases 52 - b,
        {
            if !index_entry_x(a, b, inv) { return false; }
            b = b + 1;
        }
        a = a + 1;
    }
    let mut i: usize = 0;
    while i < 1326
        invariant i <= 1326, inv.len() == 1326, forall|x: int, y: int| 0 <= x < y < 52 ==> #[trigger] index_entry(x, y, inv@),
            forall|j: int| 0 <= j < i ==> #[trigger] inv@[j].0 < inv@[j].1 < 52 && hole_index(inv@[j].0 as int, inv@[j].1 as int) == j,
        decreases 1326 - i,
    {
        let (a, b) = (inv[i].0 as usize, inv[i].1 as usize);
        if a >= b || b >= 52 { return false; }
        proof {
            assert(index_entry(a as int, b as int, inv@));
            assert(0 <= a * (101 - a) <= 52 * 101) by (nonlinear_arith) requires 0 <= a < 52;
        }
        if g_card_map(a * (101 - a) / 2 + b - 1) != i as i64 { return false; }
        i = i + 1;
    }
    true
}
// proposals, checked above
#[verifier::external_body] fn propose_scores() -> (f: Vec<u16>) {
    let mut f = vec![0u16; 14 * 14 * 14 * 14 * 14 * 10];
    fn go(r: usize, left: u32, c: &mut Vec<u8>, f: &mut Vec<u16>) {
        if r == 13 {
            if c.iter().map(|x| *x as u32).sum::<u32>() < 2 { return }
            let k: u64 = (0..13).map(|i| c[i] as u64 * g_rank_key(i)).sum();
            let Some(o) = hash_offsets::PERF_HASH_OFFSETS.get(k as usize >> 12) else { return };
            let h = (k as u32).wrapping_add(*o) as usize;
            let b = best_x(c, false) as usize;
            if let Some(v) = lookup::LOOKUP.get(h) { if f[b] == 0 { f[b] = *v } }
            return;
        }
        for k in 0..=left.min(4) { c[r] = k as u8; go(r + 1, left - k, c, f); }
        c[r] = 0;
    }
    go(0, 7, &mut vec![0; 13], &mut f);
    for m in 0..8192usize {
        let mut c: Vec<u8> = (0..13).map(|i| (m >> i & 1) as u8).collect();
        let n = m.count_ones();
        if n < 5 || n > 7 { continue }
        let b = best_x(&mut c, true) as usize;
        if let Some(v) = flush_lookup::LOOKUP_FLUSH.get(m) { if f[b] == 0 { f[b] = *v } }
    }
    f
}
#[verifier::external_body] fn propose_indices() -> (inv: Vec<(u8, u8)>) {
    let mut inv = vec![(255u8, 255u8); 1326];
    for a in 0..52usize { for b in a + 1..52 {
        if let Some(i) = map::CARD_MAP.get(a * (101 - a) / 2 + b - 1) { if let Some(e) = inv.get_mut(*i as usize) { *e = (a as u8, b as u8) } }
    } }
    inv
}
fn check_cards() -> (ok: bool) ensures ok ==> cards_ok(), { cards_x() }
fn check_scores() -> (ok: bool) ensures ok ==> cards_ok() && scores_ok(),
{
    if !cards_x() { return false; }
    let f = propose_scores();
    let mut c: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    while i < 13
        invariant i <= 13, c@.len() == i, forall|j: int| 0 <= j < i ==> c@[j] == 0,
        decreases 13 - i,
    { c.push(0); i = i + 1; }
    let ok = rising_x(&f) && all_ranks(0, 7, &mut c, &f) && all_flushes(&f);
    proof {
        if ok {
            assert forall|d: Seq<int>| rank_counts(d) && 2 <= total(d, 13) <= 7 implies #[trigger] rank_entry(d, f@) by {
                assert(continues(c@, d, 0));
            }
            assert(scores(f@));
        }
    }
    ok
}
fn check_indices() -> (ok: bool) ensures ok ==> indices_ok(),
{
    let inv = propose_indices();
    let ok = indices_x(&inv);
    proof { if ok { assert(indices(inv@)); } }
    ok
}
} // verus!
fn main() {
    let mut bad = false;
    for a in std::env::args().skip(1) {
        let ok = match a.as_str() { "cards" => check_cards(), "scores" => check_scores(), "indices" => check_indices(), _ => panic!() };
        println!("{a}: {}", if ok { "ok" } else { "WRONG" });
        bad |= !ok;
    }
    if bad { std::process::exit(1) }
}
