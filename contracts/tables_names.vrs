// Checker of the name tables: verified to print "ok" only if names_ok() holds, then compiled
// with the real tables of /repo and run.
use vstd::prelude::*;
#[path = "@REPO@/src/map.rs"] pub mod map;
#[path = "@REPO@/src/string_lookup.rs"] pub mod string_lookup;
verus! {
//@ include poker
//@ include handtables
//@ include namespec
#[verifier::external_body] fn g_card_map_len() -> (v: usize) ensures v == card_map_len(), { map::CARD_MAP.len() }
#[verifier::external_body] fn g_card_map(i: usize) -> (v: i64) requires i < card_map_len(), ensures v == card_map_at(i as int), { map::CARD_MAP[i] as i64 }
#[verifier::external_body] fn g_hand(i: usize) -> (v: Vec<char>) requires i < 1326, ensures v@ == hand_name_at(i as int), { string_lookup::INDEX_TO_HAND[i].chars().collect() }
#[verifier::external_body] fn g_class(i: usize) -> (v: Vec<char>) requires i < 169, ensures v@ == class_name_at(i as int), { string_lookup::INDEX_TO_COMBO[i].chars().collect() }

fn rank_x(r: usize) -> (c: char) ensures c == rank_char(r as int), {
    if r == 12 { 'A' } else if r == 11 { 'K' } else if r == 10 { 'Q' } else if r == 9 { 'J' } else if r == 8 { 'T' } else if r == 7 { '9' } else if r == 6 { '8' } else if r == 5 { '7' }
    else if r == 4 { '6' } else if r == 3 { '5' } else if r == 2 { '4' } else if r == 1 { '3' } else { '2' }
}
fn suit_x(s: usize) -> (c: char) ensures c == suit_char(s as int), { if s == 0 { 's' } else if s == 1 { 'h' } else if s == 2 { 'c' } else { 'd' } }
fn same(a: &Vec<char>, b: &Vec<char>) -> (r: bool)
    ensures r == (a@ == b@),
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a.len(), a.len() == b.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k],
        decreases a.len() - i,
    {
        if a[i] != b[i] { return false; }
        i = i + 1;
    }
    assert(a@ =~= b@);
    true
}
fn entry_x(a: usize, b: usize) -> (ok: bool)
    requires a < b < 52,
    ensures ok ==> name_entry(a as int, b as int),
{
    assert(0 <= a * (101 - a) <= 52 * 101) by (nonlinear_arith) requires 0 <= a < 52;
    let slot = a * (101 - a) / 2 + b - 1;
    if slot >= g_card_map_len() { return false; }
    let i = g_card_map(slot);
    if i < 0 || i >= 1326 { return false; }
    let i = i as usize;
    let mut h: Vec<char> = Vec::new();
    let (x, y) = if a / 4 == b / 4 { (a, b) } else { (b, a) };
    h.push(rank_x(x / 4)); h.push(suit_x(x % 4)); h.push(rank_x(y / 4)); h.push(suit_x(y % 4));
    assert(h@ =~= hole_name(a as int, b as int));
    let mut c: Vec<char> = Vec::new();
    c.push(rank_x(b / 4)); c.push(rank_x(a / 4));
    if a / 4 != b / 4 { if a % 4 == b % 4 { c.push('s'); } else { c.push('o'); } }
    assert(c@ =~= hole_class(a as int, b as int));
    let k = if i < 78 { i / 6 } else if i < 390 { 13 + (i - 78) / 4 } else { 91 + (i - 390) / 12 };
    let n = g_hand(i); let m = g_class(k);
    same(&n, &h) && same(&m, &c)
}
fn entries_x() -> (ok: bool)
    ensures ok ==> forall|a: int, b: int| 0 <= a < b < 52 ==> #[trigger] name_entry(a, b),
{
    let mut a: usize = 0;
    while a < 52
        invariant a <= 52, forall|x: int, y: int| 0 <= x < a && x < y < 52 ==> #[trigger] name_entry(x, y),
        decreases 52 - a,
    {
        let mut b: usize = a + 1;
        while b < 52
            invariant a < b <= 52, forall|x: int, y: int| 0 <= x < a && x < y < 52 ==> #[trigger] name_entry(x, y), forall|y: int| a < y < b ==> #[trigger] name_entry(a as int, y),
            decreases 52 - b,
        {
            if !entry_x(a, b) { return false; }
            b = b + 1;
        }
        a = a + 1;
    }
    true
}
fn apart_x(v: &Vec<Vec<char>>) -> (ok: bool)
    ensures ok ==> forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v@[i]@ != #[trigger] v@[j]@,
{
    let mut j: usize = 0;
    while j < v.len()
        invariant j <= v.len(), forall|i: int, k: int| 0 <= i < k < j ==> #[trigger] v@[i]@ != #[trigger] v@[k]@,
        decreases v.len() - j,
    {
        let mut i: usize = 0;
        while i < j
            invariant i <= j, j < v.len(), forall|i: int, k: int| 0 <= i < k < j ==> #[trigger] v@[i]@ != #[trigger] v@[k]@, forall|x: int| 0 <= x < i ==> #[trigger] v@[x]@ != v@[j as int]@,
            decreases j - i,
        {
            if same(&v[i], &v[j]) { return false; }
            i = i + 1;
        }
        j = j + 1;
    }
    true
}
fn check_names() -> (ok: bool) ensures ok ==> names_ok(),
{
    let mut h: Vec<Vec<char>> = Vec::new();
    let mut i: usize = 0;
    while i < 1326
        invariant i <= 1326, h.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] h@[k])@ == hand_name_at(k),
        decreases 1326 - i,
    { h.push(g_hand(i)); i = i + 1; }
    let mut c: Vec<Vec<char>> = Vec::new();
    i = 0;
    while i < 169
        invariant i <= 169, c.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] c@[k])@ == class_name_at(k),
        decreases 169 - i,
    { c.push(g_class(i)); i = i + 1; }
    let ok = entries_x() && apart_x(&h) && apart_x(&c);
    proof {
        if ok {
            assert forall|i: int, j: int| 0 <= i < j < 1326 implies #[trigger] hand_name_at(i) != #[trigger] hand_name_at(j) by { assert(h@[i]@ != h@[j]@); }
            assert forall|i: int, j: int| 0 <= i < j < 169 implies #[trigger] class_name_at(i) != #[trigger] class_name_at(j) by { assert(c@[i]@ != c@[j]@); }
        }
    }
    ok
}
} // verus!
fn main() {
    let mut bad = false;
    for a in std::env::args().skip(1) {
        let ok = match a.as_str() { "names" => check_names(), _ => panic!() };
        println!("{a}: {}", if ok { "ok" } else { "WRONG" });
        bad |= !ok;
    }
    if bad { std::process::exit(1) }
}
