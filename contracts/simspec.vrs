// ------------------------------------------------------------------------------------------
// Showdowns and the counters they are added to.
//@ floats
//@ grw? Arc<AtomicBool> =>> Shared
//@ grw? RwLock<SimulationResults> =>> Shared
//@ grw? Mutex<u64> =>> Shared
//@ include floats
//@ item src/constants.rs const SUIT_COUNT
//@ item src/constants.rs const HAND_CATEGORY_OFFSET
//@ item src/equity_calculator/simulator.rs const MAX_PLAYERS
//@ item src/equity_calculator/simulator.rs const BOARD_CARDS
//@ item src/equity_calculator/simulator.rs const NUM_HANDS
//@ item src/equity_calculator/simulator.rs const NUM_COMBOS
//@ item src/hand_range.rs struct Combo derive=Clone,Copy | Combo =>> RangeCombo
//@ item src/hand_range.rs struct HandRange | Combo =>> RangeCombo
//@ item src/equity_calculator/combined_range.rs struct Combo derive=Clone,Copy
//@ item src/equity_calculator/combined_range.rs struct CombinedRange
//@ item src/equity_calculator/simulator.rs struct UnitResults derive=Clone,Copy
//@ item src/equity_calculator/simulator.rs struct SimulationResults
//@ item src/equity_calculator/simulator.rs struct SimulationResultsBatch derive=Clone,Copy | 1 << MAX_PLAYERS =>> 512
//@ item src/equity_calculator/simulator.rs struct HandWithIndex derive=Clone,Copy
// what threads share (a lock, a flag): only reached through the functions below
// first: the results it was made with; at: the position
pub struct Shared { pub first: Ghost<Option<SimulationResults>>, pub at: Ghost<int> }
//@ item src/equity_calculator/simulator.rs struct Simulator

// ---- winner sets: bit p stands for player p
pub open spec fn has(w: int, p: int) -> bool { (w as u64) & (1u64 << (p as u64)) != 0 }
pub open spec fn winners(w: int, n: int) -> int decreases n { if n <= 0 { 0 } else { winners(w, n - 1) + b2i(has(w, n - 1)) } }
// the players among the first k with strength v, as a set and their number
pub open spec fn set_of(st: Seq<int>, v: int, k: int) -> u16 decreases k { if k <= 0 { 0 } else { set_of(st, v, k - 1) | if st[k - 1] == v { 1u16 << ((k - 1) as u16) } else { 0 } } }
pub open spec fn num_of(st: Seq<int>, v: int, k: int) -> int decreases k { if k <= 0 { 0 } else { num_of(st, v, k - 1) + b2i(st[k - 1] == v) } }
pub open spec fn top(st: Seq<int>, k: int) -> int decreases k { if k <= 1 { st[0] } else if st[k - 1] > top(st, k - 1) { st[k - 1] } else { top(st, k - 1) } }
// the winners of a showdown with these strengths
pub open spec fn winner_set(st: Seq<int>) -> int { set_of(st, top(st, st.len() as int), st.len() as int) as int }
proof fn lemma_set_of(st: Seq<int>, v: int, k: int, p: int)
    requires 0 <= k <= 9, 0 <= p < 16,
    ensures has(set_of(st, v, k) as int, p) == (p < k && st[p] == v), set_of(st, v, k) < 512, set_of(st, v, k) < 1u16 << (k as u16),
    decreases k,
{
    let q = p as u64;
    if k > 0 {
        lemma_set_of(st, v, k - 1, p);
        let (a, j) = (set_of(st, v, k - 1), (k - 1) as u16);
        let b = if st[k - 1] == v { 1u16 << j } else { 0u16 };
        assert(((a | b) as u64) & (1u64 << q) != 0 <==> ((a as u64) & (1u64 << q) != 0 || (b as u64) & (1u64 << q) != 0)) by (bit_vector);
        assert(((1u16 << j) as u64) & (1u64 << q) != 0 <==> q == j) by (bit_vector) requires j < 9, q < 16;
        assert(0u64 & (1u64 << q) == 0) by (bit_vector);
        assert((a | b) < 512 && (a | b) < 1u16 << add(j, 1)) by (bit_vector) requires j < 9, a < 512, a < 1u16 << j, b == 0 || b == 1u16 << j;
        assert(add(j, 1) == k as u16);
    } else {
        assert(0u64 & (1u64 << q) == 0) by (bit_vector);
        assert(0u16 < 1u16 << 0u16) by (bit_vector);
    }
}
proof fn lemma_winners(st: Seq<int>, v: int, k: int, m: int)
    requires 0 <= m <= 9, 0 <= k <= 9,
    ensures winners(set_of(st, v, k) as int, m) == num_of(st, v, if m < k { m } else { k }),
    decreases m,
{ if m > 0 { lemma_winners(st, v, k, m - 1); lemma_set_of(st, v, k, m - 1); } }
// strength above all others: nobody had it
proof fn lemma_none_of(st: Seq<int>, v: int, k: int)
    requires forall|p: int| 0 <= p < k ==> st[p] != v,
    ensures set_of(st, v, k) == 0, num_of(st, v, k) == 0,
    decreases k,
{ if k > 0 { lemma_none_of(st, v, k - 1); assert(0u16 | 0u16 == 0) by (bit_vector); } }
proof fn lemma_num_of(st: Seq<int>, v: int, j: int, k: int)
    requires 0 <= j <= k,
    ensures 0 <= num_of(st, v, j) <= num_of(st, v, k) <= k, forall|p: int| j <= p < k && st[p] == v ==> num_of(st, v, j) < num_of(st, v, k),
    decreases k,
{ if j < k { lemma_num_of(st, v, j, k - 1); } else if k > 0 { lemma_num_of(st, v, j - 1, k - 1); } }
// the player who is the j-th with strength v
proof fn lemma_nth(st: Seq<int>, v: int, j: int, k: int) -> (p: int)
    requires 0 <= j < num_of(st, v, k),
    ensures 0 <= p < k, st[p] == v, num_of(st, v, p) == j,
    decreases k,
{ if k <= 0 { 0 } else if j < num_of(st, v, k - 1) { lemma_nth(st, v, j, k - 1) } else { k - 1 } }
proof fn lemma_top(st: Seq<int>, k: int)
    requires 1 <= k,
    ensures forall|p: int| 0 <= p < k ==> st[p] <= top(st, k), exists|p: int| 0 <= p < k && st[p] == top(st, k),
    decreases k,
{ if k > 1 { lemma_top(st, k - 1); if st[k - 1] > top(st, k - 1) { assert(st[k - 1] == top(st, k)); } else { let p = choose|p: int| 0 <= p < k - 1 && st[p] == top(st, k - 1); assert(st[p] == top(st, k)); } } else { assert(st[0] == top(st, k)); } }

// ---- tallies: the weight counted for each of the 512 winner sets
pub open spec fn tally(t: Seq<int>) -> bool { t.len() == 512 }
pub open spec fn all_of(t: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { all_of(t, k - 1) + t[k - 1] } }
// weight of the winner sets that hold player p alone / with others
pub open spec fn won(t: Seq<int>, p: int, k: int) -> int decreases k { if k <= 0 { 0 } else { won(t, p, k - 1) + if has(k - 1, p) && winners(k - 1, 9) == 1 { t[k - 1] } else { 0 } } }
pub open spec fn tied(t: Seq<int>, p: int, k: int) -> int decreases k { if k <= 0 { 0 } else { tied(t, p, k - 1) + if has(k - 1, p) && winners(k - 1, 9) > 1 { t[k - 1] } else { 0 } } }
// player p's shares of the tied pots
pub open spec fn split(t: Seq<int>, p: int, k: int) -> real decreases k { if k <= 0 { 0real } else { split(t, p, k - 1) + if has(k - 1, p) && winners(k - 1, 9) > 1 { rl(t[k - 1]) / rl(winners(k - 1, 9)) } else { 0real } } }
pub open spec fn plus(t: Seq<int>, u: Seq<int>) -> Seq<int> { Seq::new(512, |w: int| t[w] + u[w]) }
pub open spec fn zero_tally() -> Seq<int> { Seq::new(512, |w: int| 0int) }
pub open spec fn point(v: int, x: int) -> Seq<int> { Seq::new(512, |w: int| if w == v { x } else { 0 }) }
proof fn lemma_plus(t: Seq<int>, u: Seq<int>, p: int, k: int)
    requires tally(t), tally(u), 0 <= k <= 512,
    ensures all_of(plus(t, u), k) == all_of(t, k) + all_of(u, k), won(plus(t, u), p, k) == won(t, p, k) + won(u, p, k), tied(plus(t, u), p, k) == tied(t, p, k) + tied(u, p, k), split(plus(t, u), p, k) == split(t, p, k) + split(u, p, k),
    decreases k,
{
    if k > 0 {
        lemma_plus(t, u, p, k - 1);
        let (a, b, c) = (rl(t[k - 1]), rl(u[k - 1]), rl(winners(k - 1, 9)));
        if winners(k - 1, 9) > 1 { assert((a + b) / c == a / c + b / c) by (nonlinear_arith) requires c > 0real; }
    }
}
proof fn lemma_point(v: int, x: int, p: int, k: int)
    requires 0 <= v < 512, 0 <= k <= 512,
    ensures all_of(point(v, x), k) == (if v < k { x } else { 0 }),
        won(point(v, x), p, k) == (if v < k && has(v, p) && winners(v, 9) == 1 { x } else { 0 }),
        tied(point(v, x), p, k) == (if v < k && has(v, p) && winners(v, 9) > 1 { x } else { 0 }),
        split(point(v, x), p, k) == (if v < k && has(v, p) && winners(v, 9) > 1 { rl(x) / rl(winners(v, 9)) } else { 0real }),
    decreases k,
{
    if k > 0 {
        lemma_point(v, x, p, k - 1);
        if k - 1 != v && winners(k - 1, 9) > 1 { let c = rl(winners(k - 1, 9)); assert(0real / c == 0real) by (nonlinear_arith) requires c > 0real; }
    }
}
proof fn lemma_zero_tally(p: int, k: int)
    requires 0 <= k <= 512,
    ensures all_of(zero_tally(), k) == 0, won(zero_tally(), p, k) == 0, tied(zero_tally(), p, k) == 0, split(zero_tally(), p, k) == 0real,
    decreases k,
{ if k > 0 { lemma_zero_tally(p, k - 1); if winners(k - 1, 9) > 1 { let c = rl(winners(k - 1, 9)); assert(0real / c == 0real) by (nonlinear_arith) requires c > 0real; } } }
// ---- the counters of one player's hand
pub open spec fn unit_added(a: UnitResults, b: UnitResults, total: int, wins: int, ties: int, shares: real) -> bool {
    &&& b.total == a.total + total && b.wins == a.wins + wins && b.ties == a.ties + ties && b.corrected_ties.r@ == a.corrected_ties.r@ + shares
    &&& b.equity == a.equity && b.winrate == a.winrate && b.tierate == a.tierate && b.weight == a.weight && b.rank == a.rank && b.draw == a.draw && b.valid == a.valid
}
pub open spec fn tally_added(a: UnitResults, b: UnitResults, t: Seq<int>, p: int) -> bool { unit_added(a, b, all_of(t, 512), won(t, p, 512), tied(t, p, 512), split(t, p, 512)) }
// the tally t was added for the players' hands at lookup
pub open spec fn dealt(s0: SimulationResultsBatch, h0: Seq<UnitResults>, s1: SimulationResultsBatch, h1: Seq<UnitResults>, lookup: Seq<usize>, n: int, t: Seq<int>) -> bool {
    &&& tally(t) && s1.player_ids == s0.player_ids && h1.len() == h0.len()
    &&& forall|w: int| 0 <= w < 512 ==> #[trigger] s1.wins_by_mask@[w] == s0.wins_by_mask@[w] + t[w]
    &&& forall|p: int| 0 <= p < n ==> tally_added(h0[#[trigger] lookup[p] as int], h1[lookup[p] as int], t, p)
    &&& forall|i: int| 0 <= i < h0.len() && (forall|p: int| 0 <= p < n ==> #[trigger] lookup[p] != i) ==> #[trigger] h1[i] == h0[i]
}
// player p's hand is at lookup[p]
pub open spec fn own_slots(lookup: Seq<usize>, n: int, len: int) -> bool {
    forall|p: int| 0 <= p < n ==> 1326 * p <= #[trigger] lookup[p] < 1326 * (p + 1) && lookup[p] < len
}
proof fn lemma_dealt_zero(s: SimulationResultsBatch, h: Seq<UnitResults>, lookup: Seq<usize>, n: int)
    requires own_slots(lookup, n, h.len() as int),
    ensures dealt(s, h, s, h, lookup, n, zero_tally()),
{
    assert forall|p: int| 0 <= p < n implies tally_added(h[#[trigger] lookup[p] as int], h[lookup[p] as int], zero_tally(), p) by { lemma_zero_tally(p, 512); }
}
proof fn lemma_dealt_plus(s0: SimulationResultsBatch, h0: Seq<UnitResults>, s1: SimulationResultsBatch, h1: Seq<UnitResults>, s2: SimulationResultsBatch, h2: Seq<UnitResults>, lookup: Seq<usize>, n: int, t: Seq<int>, u: Seq<int>)
    requires dealt(s0, h0, s1, h1, lookup, n, t), dealt(s1, h1, s2, h2, lookup, n, u), own_slots(lookup, n, h0.len() as int),
    ensures dealt(s0, h0, s2, h2, lookup, n, plus(t, u)),
{
    let x = plus(t, u);
    assert forall|p: int| 0 <= p < n implies tally_added(h0[#[trigger] lookup[p] as int], h2[lookup[p] as int], x, p) by { lemma_plus(t, u, p, 512); }
}
// ---- strengths of the players' hands with a board
pub open spec fn strengths(b: Seq<bool>, hs: Seq<Seq<bool>>) -> Seq<int> { Seq::new(hs.len(), |p: int| strength(union(b, hs[p]))) }
pub open spec fn hole_cards(hands: Seq<Hand>, n: int) -> Seq<Seq<bool>> { Seq::new(n as nat, |p: int| cards_of(hands[p].mask)) }
pub open spec fn holds_two(h: Hand) -> bool { holds(h, cards_of(h.mask), 0) && size(cards_of(h.mask)) == 2 }
