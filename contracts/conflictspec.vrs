// ------------------------------------------------------------------------------------------
// Removing hands that share a card with the board or the dead cards.
pub open spec fn has_bit(m: u64, c: u8) -> bool { m & (1u64 << (c as u64)) != 0 }
pub open spec fn clear(c: RangeCombo, m: u64) -> bool { !has_bit(m, c.0) && !has_bit(m, c.1) }
// the hands that share no card with the board or the dead cards
pub open spec fn kept(h: Seq<RangeCombo>, board: u64, dead: u64) -> Seq<RangeCombo> { h.filter(|c: RangeCombo| clear(c, board) && clear(c, dead)) }
