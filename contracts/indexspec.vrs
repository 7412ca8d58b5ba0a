// ------------------------------------------------------------------------------------------
// The index of a pair of cards (C04).
pub open spec fn lower_first(a: int, b: int) -> (int, int) { if a < b { (a, b) } else { (b, a) } }
// the index of an unordered pair of cards
pub open spec fn index_of(a: int, b: int) -> int { if a < b { hole_index(a, b) } else { hole_index(b, a) } }
pub open spec fn inverse() -> Seq<(u8, u8)> { choose|inv: Seq<(u8, u8)>| indices(inv) }
pub proof fn lemma_index(a: int, b: int)
    requires 0 <= a < b < 52,
    ensures index_entry(a, b, inverse()),
{
    tables_indices();
    assert(indices(inverse()));
}
// C04: every pair has its own index, in its part of 0..1325, and every index belongs to a pair
pub proof fn theorem_bijection()
    ensures
        forall|a: int, b: int, c: int, d: int| 0 <= a < b < 52 && 0 <= c < d < 52 && #[trigger] index_of(a, b) == #[trigger] index_of(c, d) ==> a == c && b == d,
        forall|a: int, b: int| 0 <= a < 52 && 0 <= b < 52 && a != b ==> #[trigger] index_of(a, b) == index_of(b, a) && 0 <= index_of(a, b) < 1326
            && class_of(a, b) == (if index_of(a, b) < 78 { 0int } else if index_of(a, b) < 390 { 1 } else { 2 }),
        forall|i: int| 0 <= i < 1326 ==> 0 <= (#[trigger] inverse()[i]).0 < inverse()[i].1 < 52 && index_of(inverse()[i].0 as int, inverse()[i].1 as int) == i,
{
    tables_indices();
    assert(indices(inverse()));
    assert forall|a: int, b: int, c: int, d: int| 0 <= a < b < 52 && 0 <= c < d < 52 && #[trigger] index_of(a, b) == #[trigger] index_of(c, d) implies a == c && b == d by {
        lemma_index(a, b); lemma_index(c, d);
    }
    assert forall|a: int, b: int| 0 <= a < 52 && 0 <= b < 52 && a != b implies #[trigger] index_of(a, b) == index_of(b, a) && 0 <= index_of(a, b) < 1326
            && class_of(a, b) == (if index_of(a, b) < 78 { 0int } else if index_of(a, b) < 390 { 1 } else { 2 }) by {
        if a < b { lemma_index(a, b); } else { lemma_index(b, a); }
    }
}
