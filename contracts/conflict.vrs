// C09: removing hands that conflict.
#![feature(allocator_api)]
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@ include std
//@ include rangespec
//@ include rangestd
pub type RangeCombo = Combo;
//@ include conflictspec
//@ fn src/hand_range.rs HandRange::remove_conflicting_combos
//@ spec
    requires forall|k: int| 0 <= k < old(self).hands.len() ==> (#[trigger] old(self).hands@[k]).0 < 64 && old(self).hands@[k].1 < 64,
    ensures final(self).char_vec == old(self).char_vec, final(self).hands@ == kept(old(self).hands@, board_mask, dead_mask),
//@ rw retain(|$x| $e) =>> retain(|$x: &Combo| -> (b: bool) requires $x.0 < 64, $x.1 < 64, ensures b == ($e), { $e })
//@ at start
    let ghost before = self.hands@;
//@ at end
    proof {
        let p = |c: Combo| clear(c, board_mask) && clear(c, dead_mask);
        let keep = choose|keep: Seq<bool>| keep.len() == before.len() && self.hands@ == #[trigger] pick(before, keep)
            && forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == ((((1u64 << before[i].0) | (1u64 << before[i].1)) & (board_mask | dead_mask)) == 0);
        assert forall|i: int| 0 <= i < keep.len() implies keep[i] == p(before[i]) by {
            let (a, b) = (before[i].0, before[i].1);
            let (x, y) = (a as u64, b as u64);
            assert(((((1u64 << a) | (1u64 << b)) & (board_mask | dead_mask)) == 0) == (board_mask & (1u64 << x) == 0 && board_mask & (1u64 << y) == 0 && dead_mask & (1u64 << x) == 0 && dead_mask & (1u64 << y) == 0)) by (bit_vector) requires a < 64, b < 64, x == a as u64, y == b as u64;
        }
        lemma_pick(before, keep, p);
    }
//@ end
} // verus!
fn main() {}
