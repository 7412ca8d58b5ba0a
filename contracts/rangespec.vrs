// Cards, holdings and the range notation
//@ item src/hand_range.rs struct Combo derive=Clone,Copy
//@ item src/hand_range.rs struct HandRange
pub open spec fn ordering(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
// the place of a hand in a range: first rank, second rank, first suit, second suit
#[verifier::opaque]
pub open spec fn place(a: u8, b: u8) -> int { ((a / 4) * 1024 + (b / 4) * 16 + (a % 4) * 4 + b % 4) as int }
pub open spec fn combo_key(c: Combo) -> int { place(c.0, c.1) }
// two cards of the deck, the higher one first
pub open spec fn ordered(hi: int, lo: int) -> bool { 0 <= lo < hi < 52 }
pub open spec fn is_combo(c: Combo) -> bool { ordered(c.0 as int, c.1 as int) && c.2 <= 100 }
pub open spec fn rank_of(c: char) -> int {
    if c == 'a' { 12 } else if c == 'k' { 11 } else if c == 'q' { 10 } else if c == 'j' { 9 } else if c == 't' { 8 } else if '2' <= c <= '9' { c as int - '2' as int } else { -1 }
}
pub open spec fn suit_of(c: char) -> int { if c == 's' { 0 } else if c == 'h' { 1 } else if c == 'c' { 2 } else if c == 'd' { 3 } else { -1 } }
pub open spec fn digit_of(c: char) -> int { if '0' <= c <= '9' { c as int - '0' as int } else { -1 } }

// ---- what an item of the notation names
pub enum Item {
    Cards { c1: int, c2: int },
    // pairs: the pairs of the ranks from..to; otherwise rank top with each of the ranks from..to
    Run { pairs: bool, top: int, from: int, to: int, suited: bool, offsuited: bool },
}
pub open spec fn of_ranks(a: int, b: int, suited: bool, offsuited: bool, hi: int, lo: int) -> bool {
    ((hi / 4 == a && lo / 4 == b) || (hi / 4 == b && lo / 4 == a)) && (if hi % 4 == lo % 4 { suited } else { offsuited })
}
pub open spec fn in_run(it: Item, r: int, hi: int, lo: int) -> bool {
    match it { Item::Run { pairs, top, from, to, suited, offsuited } => of_ranks(if pairs { r } else { top }, r, suited, offsuited, hi, lo), _ => false }
}
pub open spec fn names(it: Item, hi: int, lo: int) -> bool {
    match it {
        Item::Cards { c1, c2 } => (hi == c1 && lo == c2) || (hi == c2 && lo == c1),
        Item::Run { pairs, top, from, to, suited, offsuited } => exists|r: int| from <= r < to && #[trigger] in_run(it, r, hi, lo),
    }
}
// ---- reading an item; a text ends with a blank, which no reader accepts
pub open spec fn text_ok(v: Seq<char>) -> bool { v.len() >= 1 && v[v.len() - 1] == ' ' }
pub open spec fn digits_end(v: Seq<char>, i: int) -> int decreases v.len() - i { if 0 <= i < v.len() && digit_of(v[i]) >= 0 { digits_end(v, i + 1) } else { i } }
pub open spec fn decimal(v: Seq<char>, i: int, e: int) -> int decreases e - i { if e <= i { 0 } else { decimal(v, i, e - 1) * 10 + digit_of(v[e - 1]) } }
// the weight at i, and where the text goes on
#[verifier::opaque]
pub open spec fn read_weight(v: Seq<char>, i: int) -> (int, int) {
    if v[i] != '@' { (100, i) } else {
        let e = digits_end(v, i + 1);
        if decimal(v, i + 1, e) > 100 { (100, i + 1) } else { (decimal(v, i + 1, e), e) }
    }
}
pub open spec fn low(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn high(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn between(top: int, a: int, b: int, suited: bool, offsuited: bool) -> Item { Item::Run { pairs: false, top, from: low(a, b), to: high(a, b) + 1, suited, offsuited } }
// the second item of an interval at i: where it ends, or -1
#[verifier::opaque]
pub open spec fn read_dash(v: Seq<char>, i: int, r1: int, r2: int, suited: bool, offsuited: bool) -> int {
    let (r3, r4) = (rank_of(v[i]), rank_of(v[i + 1]));
    if r3 < 0 || r4 < 0 { -1 } else {
        let a = i + 2;
        if v[a] == 'o' && (!offsuited || suited) { -1 } else {
            let b = if v[a] == 'o' { a + 1 } else { a };
            if v[b] == 's' && (!suited || offsuited) { -1 } else {
                let c = if v[b] == 's' { b + 1 } else { b };
                if (r1 == r2) != (r3 == r4) { -1 }
                else if r1 != r2 && r1 != r3 && r1 != r4 && r2 != r3 && r2 != r4 { -1 }
                else { c }
            }
        }
    }
}
pub open spec fn dash_item(r1: int, r2: int, r3: int, r4: int, suited: bool, offsuited: bool) -> Item {
    if r1 == r2 { Item::Run { pairs: true, top: 0, from: low(r1, r3), to: high(r1, r3) + 1, suited, offsuited } }
    else if r1 == r3 { between(r1, r2, r4, suited, offsuited) }
    else if r1 == r4 { between(r1, r2, r3, suited, offsuited) }
    else if r2 == r3 { between(r2, r1, r4, suited, offsuited) }
    else { between(r2, r1, r3, suited, offsuited) }
}
pub open spec fn plus_item(r1: int, r2: int, suited: bool, offsuited: bool) -> Item {
    if r1 == r2 { Item::Run { pairs: true, top: 0, from: r1, to: 13, suited, offsuited } } else { Item::Run { pairs: false, top: r1, from: r2, to: r1, suited, offsuited } }
}
pub open spec fn with_weight(v: Seq<char>, it: Item, i: int) -> Option<(Item, int, int)> { let (w, e) = read_weight(v, i); Some((it, w, e)) }
// the item at i, its weight, and where the text goes on
pub open spec fn read_item(v: Seq<char>, i: int) -> Option<(Item, int, int)> {
    let r1 = rank_of(v[i]);
    if r1 < 0 { None }
    else if suit_of(v[i + 1]) >= 0 {
        let (s1, r2, s2) = (suit_of(v[i + 1]), rank_of(v[i + 2]), suit_of(v[i + 3]));
        if r2 < 0 || s2 < 0 || 4 * r1 + s1 == 4 * r2 + s2 { None } else { with_weight(v, Item::Cards { c1: 4 * r1 + s1, c2: 4 * r2 + s2 }, i + 4) }
    } else {
        let r2 = rank_of(v[i + 1]);
        if r2 < 0 { None } else {
            let (suited, offsuited) = (v[i + 2] != 'o', v[i + 2] != 's');
            let j = if suited && offsuited { i + 2 } else { i + 3 };
            if v[j] == '+' { with_weight(v, plus_item(r1, r2, suited, offsuited), j + 1) }
            else if v[j] == '-' {
                let e = read_dash(v, j + 1, r1, r2, suited, offsuited);
                if e < 0 { None } else { with_weight(v, dash_item(r1, r2, rank_of(v[j + 1]), rank_of(v[j + 2]), suited, offsuited), e) }
            }
            else { with_weight(v, Item::Run { pairs: false, top: r1, from: r2, to: r2 + 1, suited, offsuited }, j) }
        }
    }
}
// the items of a comma-separated text, up to the first one that does not parse
pub open spec fn read_items(v: Seq<char>, i: int) -> Seq<(Item, int)> decreases v.len() - i {
    match read_item(v, i) {
        None => Seq::empty(),
        Some((it, w, e)) => if i < e < v.len() && v[e] == ',' { seq![(it, w)] + read_items(v, e + 1) } else { seq![(it, w)] },
    }
}
// the weight the first item naming a hand gives it
pub open spec fn first_weight(items: Seq<(Item, int)>, hi: int, lo: int) -> Option<int> decreases items.len() {
    if items.len() == 0 { None } else {
        match first_weight(items.drop_last(), hi, lo) {
            Some(w) => Some(w),
            None => if names(items.last().0, hi, lo) { Some(items.last().1) } else { None },
        }
    }
}
// ---- lists of hands
// b is a with hands added: exactly those named, with the weight w
pub open spec fn adds(a: Seq<Combo>, b: Seq<Combo>, w: int, p: spec_fn(int, int) -> bool) -> bool {
    &&& a.len() <= b.len()
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k]
    &&& forall|k: int| a.len() <= k < b.len() ==> ordered((#[trigger] b[k]).0 as int, b[k].1 as int) && b[k].2 == w && p(b[k].0 as int, b[k].1 as int)
    &&& forall|hi: int, lo: int| ordered(hi, lo) && #[trigger] p(hi, lo) ==> added(a, b, hi, lo)
}
pub open spec fn added(a: Seq<Combo>, b: Seq<Combo>, hi: int, lo: int) -> bool { exists|k: int| a.len() <= k < b.len() && (#[trigger] b[k]).0 == hi && b[k].1 == lo }
pub open spec fn adds_item(a: Seq<Combo>, b: Seq<Combo>, w: int, it: Item) -> bool { adds(a, b, w, |hi: int, lo: int| names(it, hi, lo)) }
// the hand at k is the first one of its cards
pub open spec fn first_at(l: Seq<Combo>, k: int) -> bool { forall|j: int| 0 <= j < k ==> !((#[trigger] l[j]).0 == l[k].0 && l[j].1 == l[k].1) }
// the hands named by the items, the first one of each with its weight
pub open spec fn lists(l: Seq<Combo>, items: Seq<(Item, int)>) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> is_combo(#[trigger] l[k]) && first_weight(items, l[k].0 as int, l[k].1 as int) is Some
        && (first_at(l, k) ==> first_weight(items, l[k].0 as int, l[k].1 as int) == Some(l[k].2 as int))
    &&& forall|hi: int, lo: int| ordered(hi, lo) && #[trigger] first_weight(items, hi, lo) is Some ==> listed(l, hi, lo)
}
pub open spec fn listed(l: Seq<Combo>, hi: int, lo: int) -> bool { exists|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0 == hi && l[k].1 == lo }
// strictly ascending, hence without repetition
pub open spec fn ascending(l: Seq<Combo>) -> bool { forall|j: int, k: int| 0 <= j < k < l.len() ==> combo_key(#[trigger] l[j]) < combo_key(#[trigger] l[k]) }
pub open spec fn distinct(l: Seq<Combo>) -> bool { forall|j: int, k: int| 0 <= j < k < l.len() ==> !((#[trigger] l[j]).0 == (#[trigger] l[k]).0 && l[j].1 == l[k].1) }
// l is the range of the items: every hand named, once, with the weight of the first item naming it
pub open spec fn is_range(l: Seq<Combo>, items: Seq<(Item, int)>) -> bool {
    &&& ascending(l) && distinct(l)
    &&& forall|k: int| 0 <= k < l.len() ==> is_combo(#[trigger] l[k])
    &&& forall|k: int| 0 <= k < l.len() ==> first_weight(items, (#[trigger] l[k]).0 as int, l[k].1 as int) == Some(l[k].2 as int)
    &&& forall|hi: int, lo: int| ordered(hi, lo) && #[trigger] first_weight(items, hi, lo) is Some ==> listed(l, hi, lo)
}
// every hand of the deck once, with full weight
pub open spec fn is_full(l: Seq<Combo>) -> bool {
    &&& distinct(l)
    &&& forall|k: int| 0 <= k < l.len() ==> is_combo(#[trigger] l[k]) && l[k].2 == 100
    &&& forall|hi: int, lo: int| #[trigger] ordered(hi, lo) ==> listed(l, hi, lo)
}
// what a text stands for
pub open spec fn is_read(l: Seq<Combo>, t: Seq<char>) -> bool { if t == "random"@ { is_full(l) } else { is_range(l, read_items(lowercase(t).push(' '), 0)) } }
