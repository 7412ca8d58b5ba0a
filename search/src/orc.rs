//! Independent reference definitions (the oracle). Nothing here uses the code under test.

/// xorshift64* random numbers, seeded by VERIF_SEED
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 { r.0 = 1 }
        for _ in 0..8 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    /// k distinct cards not in `used`
    pub fn cards(&mut self, k: usize, used: u64) -> Vec<u8> {
        let mut used = used;
        let mut v = vec![];
        while v.len() < k {
            let c = self.below(52) as u8;
            if used & (1 << c) == 0 { used |= 1 << c; v.push(c) }
        }
        v
    }
}

pub const RANKS: [char; 13] = ['2', '3', '4', '5', '6', '7', '8', '9', 'T', 'J', 'Q', 'K', 'A'];
pub const SUITS: [char; 4] = ['s', 'h', 'c', 'd'];

pub fn card_name(c: u8) -> String {
    format!("{}{}", RANKS[(c / 4) as usize], SUITS[(c % 4) as usize])
}
pub fn names(cs: &[u8]) -> String { cs.iter().map(|c| card_name(*c)).collect() }
pub fn mask_cards(m: u64) -> Vec<u8> { (0..52u8).filter(|c| m >> c & 1 == 1).collect() }
pub fn cards_mask(cs: &[u8]) -> u64 { cs.iter().fold(0, |m, c| m | 1u64 << c) }

fn straight_high(ranks: u32) -> Option<u32> {
    // value: rank index of the high card; the wheel counts as 5-high (index 3)
    let mut h = 12i32;
    while h >= 4 {
        if (0..5).all(|k| ranks >> (h - k) & 1 == 1) { return Some(h as u32) }
        h -= 1;
    }
    if ranks >> 12 & 1 == 1 && ranks & 0xf == 0xf { return Some(3) }
    None
}

/// Standard high-hand strength of the best five of at most seven distinct cards.
/// bits 24..: category 1..9 (high card .. straight flush); then five 4-bit fields, the
/// ranks that break ties, most important first (rank index + 1, 0 = no card).
pub fn strength(cards: &[u8]) -> u32 {
    let mut cnt = [0u8; 13];
    let mut suit = [0u32; 4];
    for &c in cards {
        cnt[(c / 4) as usize] += 1;
        suit[(c % 4) as usize] |= 1 << (c / 4);
    }
    strength_counts(&cnt, suit.iter().copied().find(|m| m.count_ones() >= 5).unwrap_or(0))
}

/// `flush`: the ranks held in the suit with five or more cards, or 0
pub fn strength_counts(cnt: &[u8; 13], flush: u32) -> u32 {
    let pack = |cat: u32, ks: &[u32]| {
        let mut v = cat;
        for i in 0..5 { v = v << 4 | ks.get(i).copied().unwrap_or(0) }
        v
    };
    let mut all = 0u32;
    for r in 0..13 { if cnt[r] > 0 { all |= 1 << r } }
    if flush != 0 {
        if let Some(h) = straight_high(flush) { return pack(9, &[h + 1]) }
    }
    // ranks by descending rank with at least k copies
    let top = |k: u8, not: &[u32]| (0..13u32).rev().find(|r| cnt[*r as usize] >= k && !not.contains(r));
    let kick = |n: usize, not: &[u32]| -> Vec<u32> {
        (0..13u32).rev().filter(|r| cnt[*r as usize] > 0 && !not.contains(r)).take(n).map(|r| r + 1).collect()
    };
    if let Some(q) = top(4, &[]) {
        let mut v = vec![q + 1];
        v.extend(kick(1, &[q]));
        return pack(8, &v);
    }
    if let Some(t) = top(3, &[]) {
        if let Some(p) = top(2, &[t]) { return pack(7, &[t + 1, p + 1]) }
    }
    if flush != 0 {
        let v: Vec<u32> = (0..13u32).rev().filter(|r| flush >> r & 1 == 1).take(5).map(|r| r + 1).collect();
        return pack(6, &v);
    }
    if let Some(h) = straight_high(all) { return pack(5, &[h + 1]) }
    if let Some(t) = top(3, &[]) {
        let mut v = vec![t + 1];
        v.extend(kick(2, &[t]));
        return pack(4, &v);
    }
    if let Some(p) = top(2, &[]) {
        if let Some(q) = top(2, &[p]) {
            let mut v = vec![p + 1, q + 1];
            v.extend(kick(1, &[p, q]));
            return pack(3, &v);
        }
        let mut v = vec![p + 1];
        v.extend(kick(3, &[p]));
        return pack(2, &v);
    }
    pack(1, &kick(5, &[]))
}

/// position of a two-card hand in the documented order: pairs (AA first, suits s h c d),
/// suited hands, then offsuit hands, in descending rank order
pub fn all_hands() -> Vec<(u8, u8)> {
    let mut v = vec![];
    for r in (0..13u8).rev() {
        for s1 in 0..4u8 { for s2 in s1 + 1..4 { v.push((4 * r + s1, 4 * r + s2)) } }
    }
    for hi in (0..13u8).rev() { for lo in (0..hi).rev() { for s in 0..4u8 { v.push((4 * hi + s, 4 * lo + s)) } } }
    for hi in (0..13u8).rev() { for lo in (0..hi).rev() {
        for s1 in 0..4u8 { for s2 in 0..4u8 { if s1 != s2 { v.push((4 * hi + s1, 4 * lo + s2)) } } }
    } }
    v
}
pub fn all_classes() -> Vec<String> {
    let n = |r: u8| RANKS[r as usize];
    let mut v = vec![];
    for r in (0..13u8).rev() { v.push(format!("{}{}", n(r), n(r))) }
    for x in ["s", "o"] {
        for hi in (0..13u8).rev() { for lo in (0..hi).rev() { v.push(format!("{}{}{}", n(hi), n(lo), x)) } }
    }
    v
}

/// suit masks (13 bits each) of a card mask
pub fn suit_masks(m: u64) -> [u16; 4] {
    let mut s = [0u16; 4];
    let mut m = m;
    while m != 0 {
        let c = m.trailing_zeros();
        s[(c & 3) as usize] |= 1 << (c >> 2);
        m &= m - 1;
    }
    s
}

fn top(m: u16) -> u32 { 15 - m.leading_zeros() }
fn run_high(r: u16) -> u32 {
    // rank of the highest straight's top card + 1, 0 when none
    let w = ((r as u32) << 1) | (r as u32 >> 12 & 1); // bit 0 = ace low
    let x = w & w << 1 & w << 2 & w << 3 & w << 4;
    if x == 0 { 0 } else { 31 - x.leading_zeros() }
}

/// same as `strength`, bit-parallel (compared with it at start-up)
pub fn fast(s: [u16; 4]) -> u32 {
    let pack = |cat: u32, v: [u32; 5]| v.iter().fold(cat, |a, x| a << 4 | x);
    let mut flush = 0u16;
    for m in s { if m.count_ones() >= 5 { flush = m } }
    if flush != 0 {
        let h = run_high(flush);
        if h > 0 { return pack(9, [h, 0, 0, 0, 0]) }
    }
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    let any = a | b | c | d;
    let two = a & b | (a | b) & c | (a | b | c) & d;
    let three = a & b & c | (a & b | (a | b) & c) & d;
    let four = a & b & c & d;
    let mut left = any;
    let take = |left: &mut u16| -> u32 { if *left == 0 { 0 } else { let t = top(*left); *left &= !(1 << t); t + 1 } };
    if four != 0 {
        let q = top(four);
        left &= !(1 << q);
        return pack(8, [q + 1, take(&mut left), 0, 0, 0]);
    }
    if three != 0 {
        let t = top(three);
        let p = two & !(1 << t);
        if p != 0 { return pack(7, [t + 1, top(p) + 1, 0, 0, 0]) }
    }
    if flush != 0 {
        let mut f = flush;
        let v = [take(&mut f), take(&mut f), take(&mut f), take(&mut f), take(&mut f)];
        return pack(6, v);
    }
    let h = run_high(any);
    if h > 0 { return pack(5, [h, 0, 0, 0, 0]) }
    if three != 0 {
        let t = top(three);
        left &= !(1 << t);
        return pack(4, [t + 1, take(&mut left), take(&mut left), 0, 0]);
    }
    if two != 0 {
        let p = top(two);
        left &= !(1 << p);
        let q = two & !(1 << p);
        if q != 0 {
            let q = top(q);
            left &= !(1 << q);
            return pack(3, [p + 1, q + 1, take(&mut left), 0, 0]);
        }
        return pack(2, [p + 1, take(&mut left), take(&mut left), take(&mut left), 0]);
    }
    let v = [take(&mut left), take(&mut left), take(&mut left), take(&mut left), take(&mut left)];
    pack(1, v)
}

pub fn fast_mask(m: u64) -> u32 { fast(suit_masks(m)) }

/// The two definitions of hand strength agree (guards the oracle itself)
pub fn self_test() {
    let mut r = Rng::new(7);
    for i in 0..20000u64 {
        let k = 2 + (i % 6) as usize;
        let cs = if i % 3 == 0 {
            // few ranks, or few suits, so that all categories occur
            let m: Vec<u8> = (0..52u8).filter(|c| if i % 2 == 0 { c / 4 < 4 } else { c % 4 < 2 }).collect();
            let mut used = 0u64;
            let mut v = vec![];
            while v.len() < k { let c = *r.pick(&m); if used >> c & 1 == 0 { used |= 1 << c; v.push(c) } }
            v
        } else { r.cards(k, 0) };
        assert_eq!(strength(&cs), fast_mask(cards_mask(&cs)), "oracle disagrees with itself on {}", names(&cs));
    }
}
