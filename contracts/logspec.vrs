// ------------------------------------------------------------------------------------------
// What a thread adds to the results, batch by batch.
proof fn lemma_sizes(gs: Seq<CombinedRange>, n: int)
    requires groups_ok(gs, n),
    ensures forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).size > 0,
{ assert forall|i: int| 0 <= i < gs.len() implies (#[trigger] gs[i]).size > 0 by { assert(group_ok(gs[i], n)); } }
// ---- the counts of one deal
pub struct Table { pub gs: Seq<CombinedRange>, pub n: int, pub board: Seq<bool>, pub base: Seq<bool> }
pub open spec fn table(sim: Simulator) -> Table { Table { gs: sim.combined_ranges@, n: sim.n_players as int, board: mask_cards(sim.board_mask), base: mask_cards(sim.board_mask | sim.dead_mask) } }
pub open spec fn slot_in(t: Table, d: Seq<int>, p: int) -> int { 1326 * p + index_of(held_by(t.gs, d, p).0 as int, held_by(t.gs, d, p).1 as int) }
// ---- sums over a thread's log
pub open spec fn log_wins(l: Seq<Batch>, m: int, w: int) -> int decreases m { if m <= 0 { 0 } else { log_wins(l, m - 1, w) + l[m - 1].s.wins_by_mask@[w] } }
pub open spec fn hand_total(l: Seq<Batch>, m: int, i: int) -> int decreases m { if m <= 0 { 0 } else { hand_total(l, m - 1, i) + l[m - 1].h[i].total } }
pub open spec fn hand_wins(l: Seq<Batch>, m: int, i: int) -> int decreases m { if m <= 0 { 0 } else { hand_wins(l, m - 1, i) + l[m - 1].h[i].wins } }
pub open spec fn hand_ties(l: Seq<Batch>, m: int, i: int) -> int decreases m { if m <= 0 { 0 } else { hand_ties(l, m - 1, i) + l[m - 1].h[i].ties } }
pub open spec fn hand_shares(l: Seq<Batch>, m: int, i: int) -> real decreases m { if m <= 0 { 0real } else { hand_shares(l, m - 1, i) + l[m - 1].h[i].corrected_ties.r@ } }
pub open spec fn unit_counts(u: UnitResults, t: Seq<int>, p: int, total: int, wins: int, ties: int, shares: real) -> bool {
    total + u.total == all_of(t, 512) && wins + u.wins == won(t, p, 512) && ties + u.ties == tied(t, p, 512) && shares + u.corrected_ties.r@ == split(t, p, 512)
}
pub open spec fn unit_logged(l: Seq<Batch>, m: int, u: UnitResults, i: int, t: Seq<int>) -> bool { unit_counts(u, t, i / 1326, hand_total(l, m, i), hand_wins(l, m, i), hand_ties(l, m, i), hand_shares(l, m, i)) }
proof fn lemma_log_push(l: Seq<Batch>, b: Batch, m: int, w: int, i: int)
    requires 0 <= m <= l.len(),
    ensures log_wins(l.push(b), m, w) == log_wins(l, m, w), hand_total(l.push(b), m, i) == hand_total(l, m, i), hand_wins(l.push(b), m, i) == hand_wins(l, m, i), hand_ties(l.push(b), m, i) == hand_ties(l, m, i), hand_shares(l.push(b), m, i) == hand_shares(l, m, i),
    decreases m,
{ if m > 0 { lemma_log_push(l, b, m - 1, w, i); assert(l.push(b)[m - 1] == l[m - 1]); } }
proof fn lemma_winner_set(st: Seq<int>)
    requires 1 <= st.len() <= 9,
    ensures 0 < winner_set(st) < p2(st.len() as int),
{
    let n = st.len() as int;
    let v = top(st, n);
    lemma_top(st, n);
    let p = choose|p: int| 0 <= p < n && st[p] == top(st, n);
    lemma_set_of(st, v, n, p);
    lemma_p2(n);
    let (x, y) = (n as u64, n as u16);
    assert(1u64 << x == 1u16 << y) by (bit_vector) requires x == y, x < 10;
    let q = p as u64;
    assert(0u64 & (1u64 << q) == 0) by (bit_vector);
}
// a deal added to a thread's counts leaves them consistent
proof fn lemma_batch_sums(h: Seq<UnitResults>, h2: Seq<UnitResults>, i: int, t: Seq<int>, p: int, lo: int, n: int)
    requires 0 <= lo, 0 <= n, lo + n <= h.len(), h2.len() == h.len(), lo <= i, i < h.len(), tally_added(h[i], h2[i], t, p), forall|j: int| lo <= j < lo + n && j != i ==> #[trigger] h2[j] == h[j],
    ensures ({ let k = if i < lo + n { 1int } else { 0 };
        totals_of(h2, lo, n) == totals_of(h, lo, n) + k * all_of(t, 512) && wins_of(h2, lo, n) == wins_of(h, lo, n) + k * won(t, p, 512) && ties_of(h2, lo, n) == ties_of(h, lo, n) + k * tied(t, p, 512)
        && shares_of(h2, lo, n) == shares_of(h, lo, n) + (if i < lo + n { split(t, p, 512) } else { 0real }) }),
    decreases n,
{ if n > 0 { lemma_batch_sums(h, h2, i, t, p, lo, n - 1); let j = lo + n - 1; if j != i { assert(h2[j] == h[j]); } } }
proof fn lemma_won_tied(t: Seq<int>, p: int, k: int)
    requires 0 <= k <= t.len(), forall|w: int| 0 <= w < t.len() ==> #[trigger] t[w] >= 0,
    ensures won(t, p, k) + tied(t, p, k) <= all_of(t, k),
    decreases k,
{ if k > 0 { lemma_won_tied(t, p, k - 1); assert(t[k - 1] >= 0); } }
proof fn lemma_batch_step(s: SimulationResultsBatch, h: Seq<UnitResults>, s2: SimulationResultsBatch, h2: Seq<UnitResults>, lookup: Seq<usize>, n: int, t: Seq<int>)
    requires batch_ok(s, h, n), 1 <= n <= 9, dealt(s, h, s2, h2, lookup, n, t), own_slots(lookup, n, h.len() as int), t[0] == 0, forall|w: int| p2(n) <= w < 512 ==> #[trigger] t[w] == 0, forall|w: int| 0 <= w < 512 ==> #[trigger] t[w] >= 0,
    ensures batch_ok(s2, h2, n),
{
    let (x, y) = (tally_of(s.wins_by_mask@), tally_of(s2.wins_by_mask@));
    lemma_p2(n);
    assert(y =~= plus(x, t)) by { assert forall|w: int| 0 <= w < 512 implies y[w] == plus(x, t)[w] by { assert(s2.wins_by_mask@[w] == s.wins_by_mask@[w] + t[w]); } }
    assert(s2.wins_by_mask@[0] == s.wins_by_mask@[0] + t[0]);
    assert forall|w: int| p2(n) <= w < 512 implies #[trigger] s2.wins_by_mask@[w] == 0 by { assert(t[w] == 0); assert(s.wins_by_mask@[w] == 0); }
    assert forall|i: int| 0 <= i < 1326 * n implies within(#[trigger] h2[i]) by {
        assert(within(h[i]));
        if exists|p: int| 0 <= p < n && #[trigger] lookup[p] == i { let p = choose|p: int| 0 <= p < n && #[trigger] lookup[p] == i; assert(tally_added(h[lookup[p] as int], h2[lookup[p] as int], t, p)); lemma_won_tied(t, p, 512); }
        else { assert forall|p: int| 0 <= p < n implies #[trigger] lookup[p] != i by {} assert(h2[i] == h[i]); }
    }
    assert forall|p: int| 0 <= p < n implies #[trigger] sums_match(h2, y, p) by {
        assert(sums_match(h, x, p));
        lemma_plus(x, t, p, 512);
        let i = lookup[p] as int;
        assert forall|j: int| 1326 * p <= j < 1326 * p + 1326 && j != i implies #[trigger] h2[j] == h[j] by { assert forall|q: int| 0 <= q < n implies #[trigger] lookup[q] != j by { if q != p && lookup[q] == j { assert(q == p) by (nonlinear_arith) requires 1326 * q <= j < 1326 * (q + 1), 1326 * p <= j < 1326 * (p + 1); } } }
        assert(tally_added(h[lookup[p] as int], h2[lookup[p] as int], t, p));
        lemma_batch_sums(h, h2, i, t, p, 1326 * p, 1326);
    }
}
//@ include onesspec
pub open spec fn sim_ok(s: Simulator) -> bool {
    &&& 1 <= s.n_players <= 9 && groups_ok(s.combined_ranges@, s.n_players as int)
    &&& size(mask_cards(s.board_mask)) <= 5 && is_hand(s.fixed_board, mask_cards(s.board_mask))
    &&& 2 * s.n_players + ones(s.dead_mask, 64) + 5 <= 52
}
// ---- C13, C14: what one thread adds to the results
pub open spec fn grown(a: SimulationResults, b: SimulationResults, l: Seq<Batch>) -> bool {
    &&& same_shape(a, b)
    &&& forall|w: int| 0 <= w < a.wins_by_mask.len() ==> #[trigger] b.wins_by_mask@[w] == a.wins_by_mask@[w] + log_wins(l, l.len() as int, w)
    &&& forall|i: int| 0 <= i < a.hand_results.len() ==> unit_grown(a.hand_results@[i], #[trigger] b.hand_results@[i], l, i)
}
pub open spec fn unit_grown(a: UnitResults, b: UnitResults, l: Seq<Batch>, i: int) -> bool {
    let m = l.len() as int;
    b.total == a.total + hand_total(l, m, i) && b.wins == a.wins + hand_wins(l, m, i) && b.ties == a.ties + hand_ties(l, m, i) && b.corrected_ties.r@ == a.corrected_ties.r@ + hand_shares(l, m, i)
}
proof fn lemma_grown(a: SimulationResults, b: SimulationResults, c: SimulationResults, l: Seq<Batch>, s: SimulationResultsBatch, h: Seq<UnitResults>)
    requires grown(a, b, l), merged(b, c, s, h),
    ensures grown(a, c, l.push(Batch { s, h })),
{
    let x = Batch { s, h };
    let l2 = l.push(x);
    let k = l.len() as int;
    assert(l2[k] == x);
    assert forall|w: int| 0 <= w < a.wins_by_mask.len() implies #[trigger] c.wins_by_mask@[w] == a.wins_by_mask@[w] + log_wins(l2, l2.len() as int, w) by { lemma_log_push(l, x, k, w, 0); assert(b.wins_by_mask@[w] == a.wins_by_mask@[w] + log_wins(l, k, w)); }
    assert forall|i: int| 0 <= i < a.hand_results.len() implies unit_grown(a.hand_results@[i], #[trigger] c.hand_results@[i], l2, i) by { lemma_log_push(l, x, k, 0, i); assert(unit_grown(a.hand_results@[i], b.hand_results@[i], l, i)); assert(unit_merged(b.hand_results@[i], c.hand_results@[i], h[i])); }
    assert forall|i: int| 0 <= i < a.hand_results.len() implies same_labels(a.hand_results@[i], #[trigger] c.hand_results@[i]) by { assert(same_labels(a.hand_results@[i], b.hand_results@[i])); assert(unit_merged(b.hand_results@[i], c.hand_results@[i], h[i])); }
}
// C23: percentages, none lower than an earlier one, up to that of the position v
pub open spec fn percentages(sent: Seq<int>) -> bool { forall|i: int| 0 <= i < sent.len() ==> 0 <= #[trigger] sent[i] <= 100 }
pub open spec fn climbs(sent: Seq<int>, v: int, end: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < sent.len() ==> #[trigger] sent[i] <= #[trigger] sent[j]
    &&& forall|i: int| 0 <= i < sent.len() ==> #[trigger] sent[i] <= percent(v, end)
}
proof fn lemma_climbs(a: Seq<int>, b: Seq<int>, u: int, v: int, end: int)
    requires climbs(a, u, end), 0 <= u <= v, end > 0, b == a || (b == a.push(b[a.len() as int]) && b[a.len() as int] == percent(v, end)),
    ensures climbs(b, v, end),
{
    assert(percent(u, end) <= percent(v, end)) by (nonlinear_arith) requires 0 <= u <= v, end > 0;
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] <= percent(v, end) by { if i < a.len() { assert(a[i] <= percent(u, end)); } }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] <= #[trigger] b[j] by { if j < a.len() { assert(a[i] <= a[j]); } else { assert(a[i] <= percent(u, end)); } }
}
proof fn lemma_own_slots(t: Table, d: Seq<int>)
    requires groups_ok(t.gs, t.n), choice(t.gs, d), 0 <= t.n <= 9,
    ensures own_slots(slots_of(held(t.gs, d, t.n), t.n), t.n, 1326 * t.n),
{
    theorem_bijection();
    let (hd, s) = (held(t.gs, d, t.n), slots_of(held(t.gs, d, t.n), t.n));
    assert forall|p: int| 0 <= p < t.n implies 1326 * p <= #[trigger] s[p] < 1326 * (p + 1) && s[p] < 1326 * t.n by { lemma_held(t.gs, d, t.n, p); let y = held_by(t.gs, d, p); assert(hd[p].cards == y); assert(0 <= index_of(y.0 as int, y.1 as int) < 1326); }
}
proof fn lemma_p100_up(k: int) requires 0 <= k <= 9, ensures 1 <= p100(k) <= 1_000_000_000_000_000_000,
{ assert(p100(0) == 1 && p100(1) == 100 && p100(2) == 10000 && p100(3) == 1000000 && p100(4) == 100000000 && p100(5) == 10000000000 && p100(6) == 1000000000000 && p100(7) == 100000000000000 && p100(8) == 10000000000000000 && p100(9) == 1000000000000000000) by (compute_only); }
