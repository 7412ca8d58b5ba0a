// C10, C11: cards, masks and holdings as text.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/hand_range.rs struct Combo derive=Clone,Copy
//@ item src/constants.rs const CARD_COUNT
//@ item src/constants.rs const RANK_TO_CHAR | const RANK_TO_CHAR: &[char; 13] = $e; =>> exec static RANK_TO_CHAR: &'static [char; 13] ensures rank_chars(RANK_TO_CHAR@) { $e }
//@ item src/constants.rs static SUIT_TO_CHAR | static SUIT_TO_CHAR: &[char; 4] = $e; =>> exec static SUIT_TO_CHAR: &'static [char; 4] ensures suit_chars(SUIT_TO_CHAR@) { $e }
// ---- the notation
pub open spec fn rank_char(r: int) -> char {
    if r == 12 { 'A' } else if r == 11 { 'K' } else if r == 10 { 'Q' } else if r == 9 { 'J' } else if r == 8 { 'T' } else if r == 7 { '9' } else if r == 6 { '8' } else if r == 5 { '7' }
    else if r == 4 { '6' } else if r == 3 { '5' } else if r == 2 { '4' } else if r == 1 { '3' } else { '2' }
}
pub open spec fn suit_char(s: int) -> char { if s == 0 { 's' } else if s == 1 { 'h' } else if s == 2 { 'c' } else { 'd' } }
pub open spec fn rank_chars(t: Seq<char>) -> bool { t.len() == 13 && forall|r: int| 0 <= r < 13 ==> #[trigger] t[r] == rank_char(r) }
pub open spec fn suit_chars(t: Seq<char>) -> bool { t.len() == 4 && forall|r: int| 0 <= r < 4 ==> #[trigger] t[r] == suit_char(r) }
// lower case
pub open spec fn rank_of(c: char) -> int {
    if c == 'a' { 12 } else if c == 'k' { 11 } else if c == 'q' { 10 } else if c == 'j' { 9 } else if c == 't' { 8 } else if '2' <= c <= '9' { c as int - '2' as int } else { -1 }
}
pub open spec fn suit_of(c: char) -> int { if c == 's' { 0 } else if c == 'h' { 1 } else if c == 'c' { 2 } else if c == 'd' { 3 } else { -1 } }
pub open spec fn card_of(r: char, s: char) -> int { if rank_of(r) >= 0 && suit_of(s) >= 0 { 4 * rank_of(r) + suit_of(s) } else { -1 } }
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u8 + 32) as u8) as char } else { c } }
// a text of pairs
pub open spec fn pair(t: Seq<char>, k: int) -> int { card_of(t[2 * k], t[2 * k + 1]) }
pub open spec fn pairs_good(t: Seq<char>, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] pair(t, k) >= 0 }
pub open spec fn listed(t: Seq<char>, n: int, b: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] pair(t, k) == b }
#[verifier::opaque]
pub open spec fn bit(m: u64, b: int) -> bool { m & (1u64 << (b as u64)) != 0 }
// m has exactly the cards of the first n pairs
pub open spec fn exactly(m: u64, t: Seq<char>, n: int) -> bool { forall|b: int| 0 <= b < 64 ==> #[trigger] bit(m, b) == listed(t, n, b) }
pub open spec fn is_mask_of(m: u64, t: Seq<char>) -> bool {
    if t.len() % 2 == 0 && pairs_good(t, t.len() as int / 2) { exactly(m, t, t.len() as int / 2) } else { m == 0 }
}
pub open spec fn card_text(c: int) -> Seq<char> { seq![rank_char(c / 4), suit_char(c % 4)] }
// the first n cards of the deck that are in m
pub open spec fn mask_text(m: u64, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { mask_text(m, n - 1) + if bit(m, n - 1) { card_text(n - 1) } else { Seq::empty() } } }
// ---- the standard library
pub uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;
pub axiom fn axiom_lowercase(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < '\u{80}',
    ensures lowercase(s) == s.map_values(|c: char| lower(c));
#[verifier::external_body]
pub fn lower_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == lowercase(s@), r@.len() <= 0x1fff_ffff_ffff_ffff,
{ s.to_lowercase().chars().collect() }
pub assume_specification[ char::to_ascii_lowercase ](c: &char) -> (r: char)
    ensures r == lower(*c);
#[verifier::external_body]
pub fn text_of(v: Vec<char>) -> (r: String)
    ensures r@ == v@,
{ String::from_iter(v) }
#[verifier::external_body]
pub fn text_of_two(v: [char; 2]) -> (r: String)
    ensures r@ == v@,
{ String::from_iter(v) }
// where a value is written to
pub struct Out { pub text: Ghost<Seq<char>> }
impl Out {
    #[verifier::external_body]
    pub fn put(&mut self, s: String) -> (r: Result<(), ()>)
        ensures r.is_ok() ==> final(self).text@ == old(self).text@ + s@,
    { unimplemented!() }
}
// the characters of a text still to be read; skip: blanks before the next one are dropped
pub open spec fn blank(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub open spec fn skipped(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s[0]) { skipped(s.drop_first()) } else { s } }
pub struct Text { pub rest: Ghost<Seq<char>>, pub skip: Ghost<bool> }
pub open spec fn ahead(t: Text) -> Seq<char> { if t.skip@ { skipped(t.rest@) } else { t.rest@ } }
impl Text {
    #[verifier::external_body]
    pub fn of(s: &str) -> (r: Text)
        ensures r.rest@ == s@, !r.skip@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures !final(self).skip@, ahead(*old(self)).len() == 0 ==> r.is_none() && final(self).rest@.len() == 0,
            ahead(*old(self)).len() > 0 ==> r == Some(ahead(*old(self))[0]) && final(self).rest@ == ahead(*old(self)).drop_first(),
    { unimplemented!() }
    // by_ref().skip_while(f), for what is read next
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&char) -> bool>(&mut self, f: F)
        requires forall|c: char| call_requires(f, (&c,)), forall|c: char, b: bool| call_ensures(f, (&c,), b) ==> b == blank(c),
        ensures final(self).rest@ == old(self).rest@, final(self).skip@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn no_skip(&mut self)
        ensures final(self).rest@ == old(self).rest@, !final(self).skip@,
    { unimplemented!() }
}
// ---- cards and flops
// the card in front of s
pub open spec fn first_card(s: Seq<char>) -> int { if s.len() < 2 { -1 } else { card_of(lower(s[0]), s[1]) } }
pub open spec fn after_card(s: Seq<char>) -> Seq<char> { s.skip(2) }
pub open spec fn names_card(s: Seq<char>) -> bool { s.len() == 2 && first_card(s) >= 0 }
pub open spec fn flop2(s: Seq<char>) -> Seq<char> { skipped(after_card(s)) }
pub open spec fn flop3(s: Seq<char>) -> Seq<char> { skipped(after_card(flop2(s))) }
pub open spec fn names_flop(s: Seq<char>) -> bool {
    &&& first_card(s) >= 0 && first_card(flop2(s)) >= 0 && first_card(flop3(s)) >= 0
    &&& after_card(flop3(s)).len() == 0
    &&& first_card(s) != first_card(flop2(s)) && first_card(s) != first_card(flop3(s)) && first_card(flop2(s)) != first_card(flop3(s))
}
pub open spec fn is_flop(r: Seq<u8>, s: Seq<char>) -> bool {
    let (a, b, c) = (first_card(s), first_card(flop2(s)), first_card(flop3(s)));
    r.len() == 3 && r[0] < r[1] < r[2] && (a == r[0] || a == r[1] || a == r[2]) && (b == r[0] || b == r[1] || b == r[2]) && (c == r[0] || c == r[1] || c == r[2])
}
pub open spec fn takes(a: Seq<u8>, b: Seq<u8>, p: Seq<int>) -> bool {
    &&& p.len() == 3 && p[0] != p[1] && p[1] != p[2] && p[0] != p[2]
    &&& 0 <= p[0] < 3 && 0 <= p[1] < 3 && 0 <= p[2] < 3
    &&& b[0] == a[p[0]] && b[1] == a[p[1]] && b[2] == a[p[2]]
}
#[verifier::external_body]
fn sort_three(v: &mut [u8; 3])
    ensures final(v)[0] <= final(v)[1] <= final(v)[2], exists|p: Seq<int>| #[trigger] takes(old(v)@, final(v)@, p),
{ v.sort_unstable() }
// ---- bits
proof fn lemma_set(m: u64, c: u8)
    requires c < 64,
    ensures forall|b: int| 0 <= b < 64 ==> #[trigger] bit(m | (1u64 << c), b) == (bit(m, b) || b == c),
{
    reveal(bit);
    assert forall|b: int| 0 <= b < 64 implies #[trigger] bit(m | (1u64 << c), b) == (bit(m, b) || b == c) by {
        let k = b as u64;
        assert(((m | (1u64 << c)) & (1u64 << k) != 0) == ((m & (1u64 << k) != 0) || k == c)) by (bit_vector) requires c < 64, k < 64;
    }
}
proof fn lemma_none()
    ensures forall|b: int| 0 <= b < 64 ==> !#[trigger] bit(0, b),
{
    reveal(bit);
    assert forall|b: int| 0 <= b < 64 implies !#[trigger] bit(0, b) by { let k = b as u64; assert(0u64 & (1u64 << k) == 0) by (bit_vector); }
}
proof fn lemma_is_bit(m: u64, i: u8)
    requires i < 64,
    ensures ((1u64 << i) & m != 0) == bit(m, i as int),
{ reveal(bit); let k = i as u64; assert((1u64 << i) & m == m & (1u64 << k)) by (bit_vector) requires k == i; }
proof fn lemma_card(c: u8)
    ensures c >> 2 == c / 4, c & 3 == c % 4,
{ assert(c >> 2 == c / 4 && c & 3 == c % 4) by (bit_vector); }
proof fn lemma_hole(m: u64, a: int, b: int, n: int)
    requires 0 <= a < b < 52, 0 <= n <= 52, forall|k: int| 0 <= k < 64 ==> #[trigger] bit(m, k) == (k == a || k == b),
    ensures mask_text(m, n) == if n <= a { Seq::empty() } else if n <= b { card_text(a) } else { card_text(a) + card_text(b) },
    decreases n,
{
    if n > 0 { lemma_hole(m, a, b, n - 1); }
    assert(mask_text(m, n) =~= if n <= a { Seq::empty() } else if n <= b { card_text(a) } else { card_text(a) + card_text(b) });
}
// C10: back and forth
pub proof fn lemma_char(c: int)
    requires 0 <= c < 52,
    ensures ({ let t = card_text(c); t[0] < '\u{80}' && t[1] < '\u{80}' && card_of(lower(t[0]), lower(t[1])) == c }),
{}
proof fn lemma_written(m: u64, n: int)
    requires 0 <= n <= 52,
    ensures ({
        let t = mask_text(m, n); let l = t.map_values(|c: char| lower(c));
        &&& t.len() % 2 == 0 && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < '\u{80}')
        &&& pairs_good(l, t.len() as int / 2)
        &&& forall|b: int| #[trigger] listed(l, t.len() as int / 2, b) == (0 <= b < n && bit(m, b))
    }),
    decreases n,
{
    let f = |c: char| lower(c);
    let t = mask_text(m, n); let l = t.map_values(f);
    if n > 0 {
        lemma_written(m, n - 1);
        lemma_char(n - 1);
        let u = mask_text(m, n - 1); let k = u.map_values(f); let h = u.len() as int / 2;
        if bit(m, n - 1) {
            let c = card_text(n - 1);
            assert(t == u + c);
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < '\u{80}' by { if i < u.len() { assert(t[i] == u[i]); } else if i == u.len() { assert(t[i] == c[0]); } else { assert(t[i] == c[1]); } }
            assert(t.len() as int / 2 == h + 1);
            assert forall|i: int| 0 <= i < h + 1 implies #[trigger] pair(l, i) == (if i < h { pair(k, i) } else { n - 1 }) by {
                if i < h { assert(l[2 * i] == k[2 * i] && l[2 * i + 1] == k[2 * i + 1]); } else { assert(l[2 * i] == lower(c[0]) && l[2 * i + 1] == lower(c[1])); }
            }
            assert forall|b: int| #[trigger] listed(l, h + 1, b) == (0 <= b < n && bit(m, b)) by {
                if listed(k, h, b) { let i = choose|i: int| 0 <= i < h && #[trigger] pair(k, i) == b; assert(pair(l, i) == b); }
                if b == n - 1 { assert(pair(l, h) == b); }
                if listed(l, h + 1, b) { let i = choose|i: int| 0 <= i < h + 1 && #[trigger] pair(l, i) == b; if i < h { assert(pair(k, i) == b); assert(listed(k, h, b)); } }
            }
        } else {
            assert(t =~= u);
            assert forall|b: int| #[trigger] listed(l, h, b) == (0 <= b < n && bit(m, b)) by { assert(listed(k, h, b) == (0 <= b < n - 1 && bit(m, b))); }
        }
    }
}
proof fn lemma_ext(a: u64, b: u64, k: u64)
    requires k <= 64, forall|j: u64| k <= j < 64 ==> (a & (1u64 << j) != 0) == (#[trigger] (b & (1u64 << j)) != 0),
    ensures k < 64 ==> a >> k == b >> k,
    decreases 64 - k,
{
    if k < 64 {
        lemma_ext(a, b, (k + 1) as u64);
        assert((a & (1u64 << k) != 0) == (b & (1u64 << k) != 0));
        if k == 63 {
            assert((a & (1u64 << 63) != 0) == (b & (1u64 << 63) != 0) ==> a >> 63 == b >> 63) by (bit_vector);
        } else {
            let j = (k + 1) as u64;
            assert(a >> k == b >> k) by (bit_vector) requires k < 63, j == k + 1, a >> j == b >> j, (a & (1u64 << k) != 0) == (b & (1u64 << k) != 0);
        }
    }
}
// reading what mask_to_string wrote gives the mask back
pub proof fn theorem_round_trip(m: u64, r: u64)
    requires m < 1u64 << 52, is_mask_of(r, lowercase(mask_text(m, 52))),
    ensures r == m,
{
    let t = mask_text(m, 52);
    lemma_written(m, 52);
    axiom_lowercase(t);
    let l = t.map_values(|c: char| lower(c));
    assert forall|j: u64| 0 <= j < 64 implies (m & (1u64 << j) != 0) == (#[trigger] (r & (1u64 << j)) != 0) by {
        reveal(bit);
        let b = j as int;
        assert(bit(r, b) == listed(l, l.len() as int / 2, b));
        assert(j >= 52 ==> m & (1u64 << j) == 0) by (bit_vector) requires m < 1u64 << 52, j < 64;
        assert(bit(m, b) == (m & (1u64 << j) != 0));
    }
    lemma_ext(m, r, 0);
    assert(m >> 0 == m && r >> 0 == r) by (bit_vector);
}
//@ fn src/hand_range.rs char_to_rank
//@ ret r
//@ spec
    ensures rank_of(c) >= 0 ==> r == rank_of(c), rank_of(c) < 0 ==> r == 255,
//@ end
//@ fn src/hand_range.rs char_to_suit
//@ ret r
//@ spec
    ensures suit_of(c) >= 0 ==> r == suit_of(c), suit_of(c) < 0 ==> r == 255,
//@ end
//@ fn src/hand_range.rs card_from_chars
//@ ret r
//@ sig <T: Iterator<Item = char>> =>>
//@ sig &mut T =>> &mut Text
//@ spec
    ensures r.is_ok() == (first_card(ahead(*old(chars))) >= 0), r.is_ok() ==> r.unwrap() == first_card(ahead(*old(chars))) && final(chars).rest@ == after_card(ahead(*old(chars))) && !final(chars).skip@,
//@ at tail
    proof { let u = ahead(*old(chars)); assert(u.drop_first().drop_first() =~= after_card(u)); }
//@ end
//@ fn src/hand_range.rs card_from_str
//@ ret r
//@ rw s.chars() =>> Text::of(s)
//@ spec
    ensures r.is_ok() == names_card(s@), r.is_ok() ==> r.unwrap() == first_card(s@),
//@ end
//@ fn src/hand_range.rs flop_from_str
//@ ret r
//@ rw s.chars() =>> Text::of(s)
//@ rw card_from_chars(&mut $one_c.by_ref().skip_while(|$x| $p))? =>> { $one_c.skip_while(|$x: &char| -> (b__: bool) ensures b__ == blank(*$x) { $p }); let card__ = card_from_chars(&mut $one_c); $one_c.no_skip(); card__? }
//@ rw $one_r.sort_unstable() =>> sort_three(&mut $one_r)
//@ spec
    ensures r.is_ok() == names_flop(s@), r.is_ok() ==> is_flop(r.unwrap()@, s@),
//@ end
//@ fn src/hand_range.rs get_card_mask
//@ ret r
//@ rw $one_t.to_lowercase().chars().collect() =>> lower_chars($one_t)
//@ spec
    ensures is_mask_of(r, lowercase(text@)),
//@ loop 1
    invariant len == char_vec.len(), char_vec@ == lowercase(text@), len % 2 == 0, len <= 0x1fff_ffff_ffff_ffff, k__1 % 2 == 0, 0 <= k__1 <= len, e__1 == len, pairs_good(char_vec@, k__1 as int / 2), exactly(cards, char_vec@, k__1 as int / 2),
    decreases e__1 - k__1,
//@ at loop 1 pre
    proof { lemma_none(); }
//@ at loop 1 start
    let ghost before = cards;
    proof { assert(pair(char_vec@, i as int / 2) == card_of(char_vec@[i as int], char_vec@[i + 1])); let h = i as int / 2; let g = len as int / 2; assert(0 <= h < g); if pair(char_vec@, h) < 0 { assert(!pairs_good(char_vec@, g)); } assert(char_vec@ == lowercase(text@)); }
//@ at loop 1 end
    proof {
        let h = k__1 as int / 2;
        assert(pair(char_vec@, h - 1) == card);
        lemma_set(before, card);
        assert forall|b: int| 0 <= b < 64 implies #[trigger] bit(cards, b) == listed(char_vec@, h, b) by {
            assert(bit(before, b) == listed(char_vec@, h - 1, b));
            if listed(char_vec@, h, b) { let k = choose|k: int| 0 <= k < h && #[trigger] pair(char_vec@, k) == b; if k < h - 1 { assert(listed(char_vec@, h - 1, b)); } }
        }
    }
//@ end
//@ fn src/hand_range.rs mask_to_string
//@ ret r
//@ spec
    ensures r@ == mask_text(card_mask, 52),
//@ loop 1
    invariant 0 <= k__1 <= 52, e__1 == 52, card_str@ == mask_text(card_mask, k__1 as int),
    decreases e__1 - k__1,
//@ at loop 1 start
    proof { lemma_is_bit(card_mask, i); lemma_card(i); }
    let ghost before = card_str@;
//@ at loop 1 end
    proof { assert(card_str@ =~= mask_text(card_mask, k__1 as int)); }
//@ end
//@ fn src/hand_range.rs card_to_string
//@ ret r
//@ rw String::from_iter($e) =>> text_of_two($e)
//@ spec
    requires card < 52,
    ensures r@ =~= card_text(card as int),
//@ at start
    proof { lemma_card(card); }
//@ end
//@ fn src/hand_range.rs hole_to_string
//@ ret r
//@ rw format!("{}", $e) =>> $e
//@ spec
    requires hole.0 < 52, hole.1 < 52,
    ensures r.is_ok(), hole.0 != hole.1 ==> r.unwrap()@ == hole_text(hole.0 as int, hole.1 as int),
//@ at start
    proof {
        lemma_none(); lemma_set(0, hole.0); lemma_set(0u64 | (1u64 << hole.0), hole.1);
        let x = 1u64 << hole.0;
        assert(0u64 | x == x) by (bit_vector);
        let m = x | (1u64 << hole.1);
        if hole.0 < hole.1 { lemma_hole(m, hole.0 as int, hole.1 as int, 52); }
        if hole.1 < hole.0 { lemma_hole(m, hole.1 as int, hole.0 as int, 52); }
    }
//@ end
pub open spec fn hole_text(a: int, b: int) -> Seq<char> { if a < b { card_text(a) + card_text(b) } else { card_text(b) + card_text(a) } }
pub open spec fn holes_ok(h: Seq<(u8, u8)>) -> bool { forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]).0 < 52 && h[k].1 < 52 }
pub open spec fn holes_written(h: Seq<(u8, u8)>, r: Seq<String>, n: int) -> bool { r.len() == n && forall|k: int| 0 <= k < n && h[k].0 != h[k].1 ==> (#[trigger] r[k])@ == hole_text(h[k].0 as int, h[k].1 as int) }
//@ fn src/hand_range.rs holes_to_strings
//@ ret r
//@ rw holes.iter().map(|&$h| $e).collect() =>> { let mut v__: Vec<String> = Vec::new(); let mut i__: usize = 0; while i__ < holes.len() invariant 0 <= i__ <= holes.len(), holes_ok(holes@), holes_written(holes@, v__@, i__ as int), decreases holes.len() - i__ { let $h = holes[i__]; match $e { Ok(x__) => { v__.push(x__); } Err(x__) => { return Err(x__); } } i__ += 1; } Ok(v__) }
//@ spec
    requires holes_ok(holes@),
    ensures r.is_ok(), holes_written(holes@, r.unwrap()@, holes.len() as int),
//@ end
//@ fn src/hand_range.rs <fmt::Display for Combo>::fmt
//@ inherent
//@ ret r
//@ sig &mut fmt::Formatter<'_> =>> &mut Out
//@ sig fmt::Result =>> Result<(), ()>
//@ rw write!(f, "{}", String::from_iter($e)) =>> f.put(text_of($e))
//@ spec
    requires self.0 < 52, self.1 < 52,
    ensures r.is_ok() ==> final(f).text@ == old(f).text@ + card_text(self.0 as int) + card_text(self.1 as int),
//@ at start
    proof { lemma_card(self.0); lemma_card(self.1); }
    let ghost t0 = f.text@;
    proof { assert(seq![rank_char(self.0 as int / 4), suit_char(self.0 as int % 4), rank_char(self.1 as int / 4), suit_char(self.1 as int % 4)] =~= card_text(self.0 as int) + card_text(self.1 as int)); assert((t0 + card_text(self.0 as int)) + card_text(self.1 as int) =~= t0 + (card_text(self.0 as int) + card_text(self.1 as int))); }
//@ end
} // verus!
fn main() {}
