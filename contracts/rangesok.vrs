// ------------------------------------------------------------------------------------------
// Ranges of hands of two different cards of the deck.
// ------------------------------------------------------------------------------------------
// Where the record of a hand is, and what it says about the hand.
pub open spec fn deck_hand(h: RangeCombo) -> bool { h.0 < 52 && h.1 < 52 && h.0 != h.1 }
pub open spec fn proper(rs: Seq<HandRange>) -> bool { forall|p: int, k: int| #![trigger rs[p].hands@[k]] 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() ==> deck_hand(rs[p].hands@[k]) }
