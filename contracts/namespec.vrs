// ------------------------------------------------------------------------------------------
// The name tables of /repo, as uninterpreted functions, and what has to hold of them.
pub uninterp spec fn hand_name_at(i: int) -> Seq<char>;    // INDEX_TO_HAND[i]
pub uninterp spec fn class_name_at(i: int) -> Seq<char>;   // INDEX_TO_COMBO[i]
pub open spec fn rank_char(r: int) -> char {
    if r == 12 { 'A' } else if r == 11 { 'K' } else if r == 10 { 'Q' } else if r == 9 { 'J' } else if r == 8 { 'T' } else if r == 7 { '9' } else if r == 6 { '8' } else if r == 5 { '7' }
    else if r == 4 { '6' } else if r == 3 { '5' } else if r == 2 { '4' } else if r == 1 { '3' } else { '2' }
}
pub open spec fn suit_char(s: int) -> char { if s == 0 { 's' } else if s == 1 { 'h' } else if s == 2 { 'c' } else { 'd' } }
pub open spec fn card_name(c: int) -> Seq<char> { seq![rank_char(c / 4), suit_char(c % 4)] }
// the name of the cards a < b: the higher rank first, equal ranks in the order of the suits
pub open spec fn hole_name(a: int, b: int) -> Seq<char> {
    if a / 4 == b / 4 { seq![rank_char(a / 4), suit_char(a % 4), rank_char(b / 4), suit_char(b % 4)] } else { seq![rank_char(b / 4), suit_char(b % 4), rank_char(a / 4), suit_char(a % 4)] }
}
// the class of the hand of index i, and its name
pub open spec fn class_index(i: int) -> int { if i < 78 { i / 6 } else if i < 390 { 13 + (i - 78) / 4 } else { 91 + (i - 390) / 12 } }
pub open spec fn hole_class(a: int, b: int) -> Seq<char> {
    if a / 4 == b / 4 { seq![rank_char(b / 4), rank_char(a / 4)] } else if a % 4 == b % 4 { seq![rank_char(b / 4), rank_char(a / 4), 's'] } else { seq![rank_char(b / 4), rank_char(a / 4), 'o'] }
}
pub open spec fn name_entry(a: int, b: int) -> bool {
    let i = hole_index(a, b);
    0 <= i < 1326 && hand_name_at(i) == hole_name(a, b) && class_name_at(class_index(i)) == hole_class(a, b)
}
pub open spec fn names_ok() -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < 52 ==> #[trigger] name_entry(a, b)
    &&& forall|i: int, j: int| 0 <= i < j < 1326 ==> #[trigger] hand_name_at(i) != #[trigger] hand_name_at(j)
    &&& forall|i: int, j: int| 0 <= i < j < 169 ==> #[trigger] class_name_at(i) != #[trigger] class_name_at(j)
}
