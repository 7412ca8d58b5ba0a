// C08: whatever the text, reading it is safe and gives a canonical range.
#![feature(allocator_api)]
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@ include std
//@ include rangespec
//@ include rangestd
//@ include combos
// all hands are two cards of the deck, the higher one first, with a weight of at most 100
pub open spec fn sound(l: Seq<Combo>) -> bool { forall|k: int| 0 <= k < l.len() ==> is_combo(#[trigger] l[k]) }
pub open spec fn canonical(l: Seq<Combo>, t: Seq<char>) -> bool { sound(l) && distinct(l) && (t != "random"@ ==> ascending(l)) }
pub open spec fn spaced(l: Seq<Combo>, c1: int, c2: int) -> bool {
    sound(l) && distinct(l) && forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).0 < c1 || (l[k].0 == c1 && l[k].1 < c2)
}
//@ fn src/hand_range.rs char_to_rank
//@ ret r
//@ spec
    ensures r == 255 || r < 13, c == ' ' ==> r == 255,
//@ end
//@ fn src/hand_range.rs char_to_suit
//@ ret r
//@ spec
    ensures r == 255 || r < 4, c == ' ' ==> r == 255,
//@ end
//@ fn src/hand_range.rs HandRange::parse_char
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@), c != ' ',
    ensures final(self).char_vec == old(self).char_vec, final(self).hands@ == old(self).hands@, *old(i) <= *final(i) < old(self).char_vec.len(), r ==> *final(i) > *old(i),
//@ end
//@ fn src/hand_range.rs HandRange::parse_rank
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@),
    ensures final(self).char_vec == old(self).char_vec, final(self).hands@ == old(self).hands@, r ==> *final(rank) < 13, *old(i) <= *final(i) < old(self).char_vec.len(), r ==> *final(i) > *old(i),
//@ end
//@ fn src/hand_range.rs HandRange::parse_suit
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@),
    ensures final(self).char_vec == old(self).char_vec, final(self).hands@ == old(self).hands@, r ==> *final(suit) < 4, *old(i) <= *final(i) < old(self).char_vec.len(),
//@ end
//@ fn src/hand_range.rs HandRange::parse_weight
//@ ret r
//@ spec
    requires *old(i) < self.char_vec.len(), text_ok(self.char_vec@), *old(weight) <= 100,
    ensures *final(weight) <= 100, *old(i) <= *final(i) < self.char_vec.len(),
//@ loop 1
    invariant *old(i) <= *i < self.char_vec.len(), text_ok(self.char_vec@), backtrack == *old(i), *weight <= 100,
    decreases self.char_vec.len() - *i,
//@ end
//@ fn src/hand_range.rs HandRange::parse_combos_dash
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@), rank1 < 13, rank2 < 13,
    ensures final(self).char_vec == old(self).char_vec, final(self).hands@ == old(self).hands@, *old(i) <= *final(i) < old(self).char_vec.len(), r ==> *final(rank3) < 13 && *final(rank4) < 13,
//@ rw? rank3 != rank4 =>> *rank3 != *rank4
//@ rw? rank3 == rank4 =>> *rank3 == *rank4
//@ rw? &rank1 != rank3 =>> rank1 != *rank3
//@ rw? &rank1 != rank4 =>> rank1 != *rank4
//@ rw? &rank2 != rank3 =>> rank2 != *rank3
//@ rw? &rank2 != rank4 =>> rank2 != *rank4
//@ end
//@ fn src/hand_range.rs HandRange::add_combo
//@ spec
    requires weight <= 100, sound(old(self).hands@),
    ensures final(self).char_vec == old(self).char_vec, sound(final(self).hands@),
        forall|m: int, n: int| 0 <= n < m < 52 && m == c1 && n == c2 && #[trigger] spaced(old(self).hands@, m, n) ==> spaced(final(self).hands@, m, n + 1),
//@ at start
    proof { assert(c1 >> 2 == c1 / 4 && c2 >> 2 == c2 / 4 && c1 & 3 == c1 % 4 && c2 & 3 == c2 % 4) by (bit_vector); }
//@ end
//@ fn src/hand_range.rs HandRange::add_combos
//@ spec
    requires rank1 < 13, rank2 < 13, weight <= 100, sound(old(self).hands@),
    ensures final(self).char_vec == old(self).char_vec, sound(final(self).hands@),
//@ at start
    let ghost chars = self.char_vec;
//@ loop 1
    invariant k__1 <= 4, e__1 == 4, rank1 < 13, rank2 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases 4 - k__1,
//@ loop 2
    invariant k__2 <= 4, e__2 == 4, rank1 < 13, rank2 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases 4 - k__2,
//@ loop 3
    invariant k__3 <= 4, e__3 == 4, suit1 < 4, rank1 < 13, rank2 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases 4 - k__3,
//@ end
//@ fn src/hand_range.rs HandRange::add_combos_plus
//@ spec
    requires rank1 < 13, rank2 < 13, weight <= 100, sound(old(self).hands@),
    ensures final(self).char_vec == old(self).char_vec, sound(final(self).hands@),
//@ at start
    let ghost chars = self.char_vec;
//@ loop 1
    invariant k__1 <= 13, e__1 == 13, rank1 < 13, rank2 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__1 - k__1,
//@ loop 2
    invariant e__2 == rank1, k__2 <= 13, rank1 < 13, rank2 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__2 - k__2,
//@ end
//@ fn src/hand_range.rs HandRange::add_combos_dash
//@ spec
    requires rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(old(self).hands@),
    ensures final(self).char_vec == old(self).char_vec, sound(final(self).hands@),
//@ at start
    let ghost chars = self.char_vec;
//@ loop 1
    invariant e__1 < 13, k__1 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__1 + 1 - k__1,
//@ loop 2
    invariant e__2 < 13, k__2 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__2 + 1 - k__2,
//@ loop 3
    invariant e__3 < 13, k__3 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__3 + 1 - k__3,
//@ loop 4
    invariant e__4 < 13, k__4 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__4 + 1 - k__4,
//@ loop 5
    invariant e__5 < 13, k__5 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__5 + 1 - k__5,
//@ loop 6
    invariant e__6 < 13, k__6 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__6 + 1 - k__6,
//@ loop 7
    invariant e__7 < 13, k__7 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__7 + 1 - k__7,
//@ loop 8
    invariant e__8 < 13, k__8 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__8 + 1 - k__8,
//@ loop 9
    invariant e__9 < 13, k__9 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__9 + 1 - k__9,
//@ loop 10
    invariant e__10 < 13, k__10 <= 13, rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, weight <= 100, sound(self.hands@), self.char_vec == chars,
    decreases e__10 + 1 - k__10,
//@ end
//@ fn src/hand_range.rs HandRange::add_all
//@ spec
    requires old(self).hands@.len() == 0,
    ensures sound(final(self).hands@), distinct(final(self).hands@),
//@ loop 1
    invariant k__1 <= 52, e__1 == 52, spaced(self.hands@, k__1 as int, 0),
    decreases 52 - k__1,
//@ loop 2
    invariant k__2 <= e__2, e__2 <= c1, c1 < 52, spaced(self.hands@, c1 as int, k__2 as int),
    decreases e__2 - k__2,
//@ end
//@ fn src/hand_range.rs HandRange::remove_duplicates
//@ spec
    requires sound(old(self).hands@),
    ensures sound(final(self).hands@), ascending(final(self).hands@), distinct(final(self).hands@),
//@ at start
    let ghost before = self.hands@;
    let ghost mut middle = self.hands@;
//@ at stmt `self.hands.dedup();` 1 before
    proof { middle = self.hands@; }
//@ at end
    proof {
        let p = choose|p: Seq<int>| #[trigger] sorts(before, middle, p);
        assert forall|k: int| 0 <= k < middle.len() implies is_combo(#[trigger] middle[k]) by { assert(middle[k] == before[p[k]]); }
        assert forall|j: int, k: int| 0 <= j < k < middle.len() implies combo_key(#[trigger] middle[j]) <= combo_key(#[trigger] middle[k]) by { assert(<Combo as OrdSpec>::cmp_spec(&middle[j], &middle[k]) != Ordering::Greater); }
        lemma_dedup(middle);
        let d = self.hands@;
        assert forall|k: int| 0 <= k < d.len() implies is_combo(#[trigger] d[k]) by { let j = choose|j: int| 0 <= j < middle.len() && #[trigger] middle[j] == d[k] && first_at(middle, j); }
        assert forall|j: int, k: int| 0 <= j < k < d.len() implies !((#[trigger] d[j]).0 == (#[trigger] d[k]).0 && d[j].1 == d[k].1) by { assert(combo_key(d[j]) < combo_key(d[k])); }
    }
//@ end
//@ fn src/hand_range.rs HandRange::parse_hand
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@), sound(old(self).hands@),
    ensures final(self).char_vec == old(self).char_vec, *old(i) <= *final(i) < old(self).char_vec.len(), sound(final(self).hands@), r ==> *final(i) > *old(i),
//@ end
//@ fn src/hand_range.rs HandRange::from_string
//@ ret r
//@ spec
    ensures canonical(r.hands@, text@),
//@ rw text == "random" =>> is_text(&text, "random")
//@ rw text.to_lowercase().chars().collect() =>> lower_chars(&text)
//@ loop 1
    invariant i < range.char_vec.len(), text_ok(range.char_vec@), sound(range.hands@),
    decreases range.char_vec.len() - i,
//@ end
} // verus!
fn main() {}
