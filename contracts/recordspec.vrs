// no range lists a hand twice
pub open spec fn once_each(rs: Seq<HandRange>) -> bool {
    forall|p: int, j: int, k: int| #![trigger rs[p].hands@[j], rs[p].hands@[k]] 0 <= p < rs.len() && 0 <= j < k < rs[p].hands.len() ==> pair_index(rs[p].hands@[j]) != pair_index(rs[p].hands@[k])
}
pub open spec fn pair_index(h: RangeCombo) -> int { index_of(h.0 as int, h.1 as int) }
pub open spec fn slot(rs: Seq<HandRange>, p: int, k: int) -> int { 1326 * p + pair_index(rs[p].hands@[k]) }
pub open spec fn no_slot(rs: Seq<HandRange>, i: int) -> bool { forall|p: int, k: int| 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() ==> #[trigger] slot(rs, p, k) != i }
proof fn lemma_slot(rs: Seq<HandRange>, p: int, k: int)
    requires proper(rs), 0 <= p < rs.len(), 0 <= k < rs[p].hands.len(),
    ensures 0 <= pair_index(rs[p].hands@[k]) < 1326, 0 <= slot(rs, p, k) < 1326 * rs.len(),
{ assert(deck_hand(rs[p].hands@[k])); theorem_bijection(); }
proof fn lemma_slots(rs: Seq<HandRange>, p: int, j: int, q: int, k: int)
    requires proper(rs), once_each(rs), 0 <= p < rs.len(), 0 <= j < rs[p].hands.len(), 0 <= q < rs.len(), 0 <= k < rs[q].hands.len(),
    ensures slot(rs, p, j) == slot(rs, q, k) ==> p == q && j == k, 0 <= slot(rs, p, j) < 1326 * rs.len(),
{
    lemma_slot(rs, p, j); lemma_slot(rs, q, k);
    if slot(rs, p, j) == slot(rs, q, k) {
        assert(p == q);
        if j < k { assert(pair_index(rs[p].hands@[j]) != pair_index(rs[p].hands@[k])); }
        if k < j { assert(pair_index(rs[p].hands@[k]) != pair_index(rs[p].hands@[j])); }
    }
}
// ---- C19: weights
pub open spec fn full(r: HandRange) -> bool { forall|j: int| 0 <= j < r.hands.len() ==> (#[trigger] r.hands@[j]).2 == 100 }
// during the run the hands of a range of full weight count 1 each
pub open spec fn kept_weight(rs: Seq<HandRange>, p: int, k: int) -> int { if full(rs[p]) { 1 } else { rs[p].hands@[k].2 as int } }
pub open spec fn noted_weights(a: Seq<UnitResults>, b: Seq<UnitResults>, rs: Seq<HandRange>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (UnitResults { weight: b[i].weight, valid: b[i].valid, ..a[i] })
    &&& forall|i: int| 0 <= i < a.len() && no_slot(rs, i) ==> #[trigger] b[i] == a[i]
    &&& forall|p: int, k: int| 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() ==> b[#[trigger] slot(rs, p, k)].valid && b[slot(rs, p, k)].weight == kept_weight(rs, p, k)
}
pub open spec fn weight_only(a: UnitResults, b: UnitResults) -> bool { b == (UnitResults { weight: b.weight, ..a }) }
// the records show the weights of the ranges
pub open spec fn shows_weights(a: Seq<UnitResults>, b: Seq<UnitResults>, rs: Seq<HandRange>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> weight_only(a[i], #[trigger] b[i])
    &&& forall|i: int| 0 <= i < a.len() && no_slot(rs, i) ==> #[trigger] b[i] == a[i]
    &&& forall|p: int, k: int| 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() ==> b[#[trigger] slot(rs, p, k)].valid && b[slot(rs, p, k)].weight == rs[p].hands@[k].2
}
// ---- C18: labels
pub open spec fn off_board(rs: Seq<HandRange>, b: Seq<bool>) -> bool { forall|p: int, k: int| #![trigger rs[p].hands@[k]] 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() ==> !b[rs[p].hands@[k].0 as int] && !b[rs[p].hands@[k].1 as int] }
pub open spec fn labels_only(a: UnitResults, b: UnitResults) -> bool { b == (UnitResults { rank: b.rank, draw: b.draw, ..a }) }
// the category of the hand with the board, and the flush-draw flags (C22)
pub open spec fn labels_of(u: UnitResults, h: RangeCombo, b: Seq<bool>) -> bool {
    let s = two_cards(h.0 as int, h.1 as int);
    let x = union(s, b);
    &&& u.rank == strength(x) / 537824 - 1 && u.rank < 9
    &&& size(b) == 5 ==> u.draw == 0
    &&& size(b) < 5 && u.rank < 5 ==> (u.draw & 32 != 0) == has_suit(x, 4) && (u.draw & 64 != 0) == (size(b) == 3 && has_suit(x, 3)) && (u.draw & 128 != 0) == nut_among(s, b, 4)
    &&& size(b) < 5 && u.rank == 5 ==> u.draw & 0x7f == 0 && (forall|k: int| 0 <= k < 4 && suited(x, k) >= 5 ==> (u.draw & 128 != 0) == #[trigger] nut(s, b, k))
    &&& size(b) < 5 && u.rank > 5 ==> u.draw == 0
}
pub open spec fn labels_set(a: Seq<UnitResults>, b: Seq<UnitResults>, rs: Seq<HandRange>, board: Seq<bool>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> labels_only(a[i], #[trigger] b[i])
    &&& forall|i: int| 0 <= i < a.len() && no_slot(rs, i) ==> #[trigger] b[i] == a[i]
    &&& forall|p: int, k: int| 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() ==> labels_of(b[#[trigger] slot(rs, p, k)], rs[p].hands@[k], board)
}
// ---- C21: weights in lowest terms
pub open spec fn gcd(a: int, b: int) -> int decreases b { if b <= 0 { a } else { gcd(b, a % b) } }
pub open spec fn gcd_to(h: Seq<RangeCombo>, k: int) -> int decreases k { if k <= 0 { 0 } else { gcd(gcd_to(h, k - 1), h[k - 1].2 as int) } }
pub open spec fn lowest(a: HandRange, b: HandRange) -> bool {
    let g = gcd_to(a.hands@, a.hands.len() as int);
    &&& b.hands.len() == a.hands.len() && b.char_vec == a.char_vec
    &&& forall|k: int| 0 <= k < a.hands.len() ==> (#[trigger] b.hands@[k]).0 == a.hands@[k].0 && b.hands@[k].1 == a.hands@[k].1 && b.hands@[k].2 == if g > 1 { a.hands@[k].2 as int / g } else { a.hands@[k].2 as int }
}
pub open spec fn has_weight(u: UnitResults, w: int) -> bool { u.valid && u.weight == w }
// bit p stands for player p's range being of full weight
pub open spec fn flagged(f: u16, p: int) -> bool { f & (1u16 << (p as u16)) != 0 }
// a copy of the ranges
#[verifier::external_body]
fn owned(rs: &[HandRange]) -> (r: Vec<HandRange>)
    ensures r@ == rs@,
{ unimplemented!() }
