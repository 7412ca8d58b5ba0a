// C13, C15, C16: what one showdown adds to the counters.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ floats
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ import evaluate Hand::evaluate
//@ import evaluate Hand::evaluate_without_flush
pub open spec fn scored(st: int) -> bool { 0 <= st < score_map().len() && score_of(st) > 0 }
//@ include simspec
// runs in which a counter would overflow are not considered: the program stops there
#[verifier::external_body]
fn stop_on_overflow(s: &SimulationResultsBatch, h: &Vec<UnitResults>, lookup: &[usize; MAX_PLAYERS], n: usize, weight: u64)
    ensures s.eval_count < u64::MAX, forall|w: int| 0 <= w < 512 ==> #[trigger] s.wins_by_mask@[w] + weight <= u64::MAX,
        forall|p: int| 0 <= p < n && p < 9 && lookup@[p] < h.len() ==> h@[#[trigger] lookup@[p] as int].total + weight <= u64::MAX && h@[lookup@[p] as int].wins + weight <= u64::MAX && h@[lookup@[p] as int].ties + weight <= u64::MAX,
{ unimplemented!() }
//@ fn src/equity_calculator/simulator.rs UnitResults::update_total
//@ spec
    requires old(self).total + weight <= u64::MAX,
    ensures unit_added(*old(self), *final(self), weight as int, 0, 0, 0real),
//@ end
//@ fn src/equity_calculator/simulator.rs UnitResults::update_wins
//@ spec
    requires old(self).wins + weight <= u64::MAX,
    ensures unit_added(*old(self), *final(self), 0, weight as int, 0, 0real),
//@ end
//@ fn src/equity_calculator/simulator.rs UnitResults::update_ties
//@ spec
    requires old(self).ties + weight <= u64::MAX,
    ensures unit_added(*old(self), *final(self), 0, 0, weight as int, rl(weight as int) / rl(counter as int)),
//@ end
//@ fn src/equity_calculator/simulator.rs Simulator::evaluate_hands
//@ spec
    requires 1 <= self.n_players <= 9, player_hands.len() >= self.n_players, own_slots(lookup@, self.n_players as int, old(hand_results).len() as int),
        is_hand(*board, cards_of(board.mask)), size(cards_of(board.mask)) == 5,
        forall|p: int| 0 <= p < self.n_players ==> holds_two(#[trigger] player_hands@[p]) && disjoint(cards_of(board.mask), cards_of(player_hands@[p].mask))
            && (flush_possible || !flush_in(union(cards_of(board.mask), cards_of(player_hands@[p].mask)))),
    ensures dealt(*old(results), old(hand_results)@, *final(results), final(hand_results)@, lookup@, self.n_players as int,
            point(winner_set(strengths(cards_of(board.mask), hole_cards(player_hands@, self.n_players as int))), weight as int)),
        final(results).eval_count == old(results).eval_count + 1,
//@ at start
    stop_on_overflow(results, hand_results, lookup, self.n_players, weight);
    let ghost n = self.n_players as int;
    let ghost b = cards_of(board.mask);
    let ghost st = strengths(b, hole_cards(player_hands@, n));
    let ghost v = top(st, n);
    let ghost w = winner_set(st);
    let ghost h0 = hand_results@;
    let ghost mut h1 = h0;
    let ghost s0 = *results;
    proof { tables_cards(); tables_scores(); assert(scores(score_map())); assert(1u16 << 0u16 == 1) by (bit_vector); }
//@ loop 1
    invariant 0 <= k__1 <= n, e__1 == n, n == self.n_players, 1 <= n <= 9, player_hands.len() >= n, b == cards_of(board.mask), st == strengths(b, hole_cards(player_hands@, n)), cards_ok(), scores(score_map()),
        is_hand(*board, b), size(b) == 5,
        forall|p: int| 0 <= p < n ==> holds_two(#[trigger] player_hands@[p]) && disjoint(b, cards_of(player_hands@[p].mask)) && (flush_possible || !flush_in(union(b, cards_of(player_hands@[p].mask)))),
        player_mask == 1u16 << (k__1 as u16),
        k__1 == 0 ==> best_score == 0 && winner_mask == 0 && counter == 0,
        k__1 > 0 ==> scored(top(st, k__1 as int)) && best_score == score_of(top(st, k__1 as int)),
        k__1 > 0 ==> winner_mask == set_of(st, top(st, k__1 as int), k__1 as int) && counter == num_of(st, top(st, k__1 as int), k__1 as int),
        k__1 > 0 ==> forall|p: int| 0 <= p < k__1 && st[p] == top(st, k__1 as int) ==> indexes@[num_of(st, st[p], p)] == p,
        0 <= counter <= k__1,
    decreases e__1 - k__1,
//@ at loop 1 start
    let ghost v0 = top(st, i as int);
    proof {
        let h = player_hands@[i as int];
        lemma_add(*board, b, 3, h, cards_of(h.mask), 0);
        lemma_mask_or(board.mask, h.mask);
        lemma_top(st, i as int + 1);
        if i > 0 { lemma_top(st, i as int); }
        let u = union(b, cards_of(h.mask));
        if !flush_in(u) { lemma_no_flush(u); }
        let both = Hand { key: (board.key + h.key) as u64, mask: board.mask | h.mask };
        assert(is_hand(both, u) && size(u) >= 2);
        assert(is_hand(both, u) || holds(both, u, 0));
        assert(st[i as int] == strength(u));
        if i > 0 && st[i as int] > v0 { lemma_none_of(st, st[i as int], i as int); }
        let x = i as u16;
        assert(1u16 << x << 1 == 1u16 << add(x, 1)) by (bit_vector) requires x < 9;
        assert(0u16 | (1u16 << x) == 1u16 << x) by (bit_vector);
        let z = set_of(st, v0, i as int);
        assert(z | 0 == z) by (bit_vector);
    }
//@ at loop 1 end
    proof {
        let v1 = top(st, i as int + 1);
        assert(score == score_of(st[i as int]));
        assert(num_of(st, v1, i as int + 1) == num_of(st, v1, i as int) + b2i(st[i as int] == v1));
        assert(set_of(st, v1, i as int + 1) == set_of(st, v1, i as int) | if st[i as int] == v1 { 1u16 << (i as u16) } else { 0 });
        assert forall|p: int| 0 <= p < i + 1 && st[p] == v1 implies indexes@[num_of(st, st[p], p)] == p by {
            if p < i { lemma_num_of(st, v1, p, i as int); }
        }
    }
//@ at loop 2 pre
    proof { lemma_top(st, n); let p = choose|p: int| 0 <= p < n && st[p] == v; lemma_num_of(st, v, p, n); assert(st.len() == n); lemma_winners(st, v, n, 9); lemma_set_of(st, v, n, 0); }
//@ loop 2
    invariant 0 <= k__2 <= n, e__2 == n, n == self.n_players, 1 <= n <= 9, own_slots(lookup@, n, h0.len() as int), hand_results.len() == h0.len(),
        forall|p: int| 0 <= p < n ==> h0[#[trigger] lookup@[p] as int].total + weight <= u64::MAX,
        forall|p: int| 0 <= p < n ==> unit_added(h0[#[trigger] lookup@[p] as int], hand_results@[lookup@[p] as int], if p < k__2 { weight as int } else { 0 }, 0, 0, 0real),
        forall|i: int| 0 <= i < h0.len() && (forall|p: int| 0 <= p < n ==> #[trigger] lookup@[p] != i) ==> #[trigger] hand_results@[i] == h0[i],
    decreases e__2 - k__2,
//@ at loop 2 start
    proof { assert(lookup@[k__2 - 1] < h0.len()); }
    let ghost was = hand_results@;
//@ at loop 2 end
    proof {
        assert forall|p: int| 0 <= p < n implies unit_added(h0[#[trigger] lookup@[p] as int], hand_results@[lookup@[p] as int], if p < k__2 { weight as int } else { 0 }, 0, 0, 0real) by {
            assert(1326 * p <= lookup@[p] < 1326 * (p + 1)); assert(1326 * (k__2 - 1) <= lookup@[k__2 - 1] < 1326 * k__2);
            if p != k__2 - 1 { assert(hand_results@[lookup@[p] as int] == was[lookup@[p] as int]); }
        }
        assert forall|i: int| 0 <= i < h0.len() && (forall|p: int| 0 <= p < n ==> #[trigger] lookup@[p] != i) implies #[trigger] hand_results@[i] == h0[i] by { assert(lookup@[k__2 - 1] != i); assert(was[i] == h0[i]); }
    }
//@ at loop 2 post
    proof { assert forall|p: int| 0 <= p < n implies num_of(st, v, p) >= 0 by { lemma_num_of(st, v, p, n); } h1 = hand_results@; let p = lemma_nth(st, v, 0, n); assert(indexes@[0] == p); assert(lookup@[p] < h0.len()); }
//@ loop 3
    invariant 0 <= k__3 <= counter, e__3 == counter, n == self.n_players, 1 <= n <= 9, own_slots(lookup@, n, h0.len() as int), hand_results.len() == h0.len(), st.len() == n, counter == num_of(st, v, n), counter <= 9,
        forall|p: int| 0 <= p < n && st[p] == v ==> indexes@[num_of(st, st[p], p)] == p,
        forall|p: int| 0 <= p < n ==> h0[#[trigger] lookup@[p] as int].ties + weight <= u64::MAX,
        forall|p: int| 0 <= p < n ==> unit_added(h0[#[trigger] lookup@[p] as int], hand_results@[lookup@[p] as int], weight as int, 0, if st[p] == v && num_of(st, v, p) < k__3 { weight as int } else { 0 }, if st[p] == v && num_of(st, v, p) < k__3 { rl(weight as int) / rl(counter as int) } else { 0real }),
        forall|i: int| 0 <= i < h0.len() && (forall|p: int| 0 <= p < n ==> #[trigger] lookup@[p] != i) ==> #[trigger] hand_results@[i] == h0[i],
    decreases e__3 - k__3,
//@ at loop 3 start
    let ghost q = lemma_nth(st, v, k__3 - 1, n);
    proof { assert(indexes@[k__3 - 1] == q); assert(lookup@[q] < h0.len()); }
    let ghost was = hand_results@;
//@ at loop 3 end
    proof {
        assert forall|p: int| 0 <= p < n implies unit_added(h0[#[trigger] lookup@[p] as int], hand_results@[lookup@[p] as int], weight as int, 0, if st[p] == v && num_of(st, v, p) < k__3 { weight as int } else { 0 }, if st[p] == v && num_of(st, v, p) < k__3 { rl(weight as int) / rl(counter as int) } else { 0real }) by {
            assert(1326 * p <= lookup@[p] < 1326 * (p + 1)); assert(1326 * q <= lookup@[q] < 1326 * (q + 1));
            if p != q {
                assert(hand_results@[lookup@[p] as int] == was[lookup@[p] as int]);
                if st[p] == v { lemma_num_of(st, v, if p < q { p } else { q }, if p < q { q } else { p }); }
            }
        }
        assert forall|i: int| 0 <= i < h0.len() && (forall|p: int| 0 <= p < n ==> #[trigger] lookup@[p] != i) implies #[trigger] hand_results@[i] == h0[i] by { assert(lookup@[q] != i); assert(was[i] == h0[i]); }
    }
//@ at end
    proof {
        let t = point(w, weight as int);
        assert forall|p: int| 0 <= p < n implies tally_added(h0[#[trigger] lookup@[p] as int], hand_results@[lookup@[p] as int], t, p) by {
            lemma_point(w, weight as int, p, 512);
            lemma_set_of(st, v, n, p);
            lemma_num_of(st, v, p, n);
            assert(1326 * p <= lookup@[p] < 1326 * (p + 1));
            if counter == 1 {
                let q = lemma_nth(st, v, 0, n);
                assert(1326 * q <= lookup@[q] < 1326 * (q + 1));
                if st[p] == v { lemma_num_of(st, v, if p < q { p } else { q }, if p < q { q } else { p }); assert(p == q); } else { assert(p != q); assert(hand_results@[lookup@[p] as int] == h1[lookup@[p] as int]); }
            }
        }
        assert forall|i: int| 0 <= i < h0.len() && (forall|p: int| 0 <= p < n ==> #[trigger] lookup@[p] != i) implies #[trigger] hand_results@[i] == h0[i] by { if counter == 1 { let q = lemma_nth(st, v, 0, n); assert(lookup@[q] != i); } }
    }
//@ end
} // verus!
fn main() {}
