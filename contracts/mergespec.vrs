// ------------------------------------------------------------------------------------------
// Adding a thread's counts to the results.
proof fn lemma_sums(a: Seq<UnitResults>, b: Seq<UnitResults>, h: Seq<UnitResults>, lo: int, n: int)
    requires 0 <= lo, 0 <= n, lo + n <= a.len(), b.len() == a.len(), h.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> unit_merged(a[i], #[trigger] b[i], h[i]),
    ensures totals_of(b, lo, n) == totals_of(a, lo, n) + totals_of(h, lo, n), wins_of(b, lo, n) == wins_of(a, lo, n) + wins_of(h, lo, n), ties_of(b, lo, n) == ties_of(a, lo, n) + ties_of(h, lo, n), shares_of(b, lo, n) == shares_of(a, lo, n) + shares_of(h, lo, n),
    decreases n,
{ if n > 0 { lemma_sums(a, b, h, lo, n - 1); assert(unit_merged(a[lo + n - 1], b[lo + n - 1], h[lo + n - 1])); } }
// C16: adding a thread's counts keeps the results consistent
proof fn lemma_merged(a: SimulationResults, b: SimulationResults, s: SimulationResultsBatch, h: Seq<UnitResults>)
    requires consistent(a), merged(a, b, s, h), batch_ok(s, h, a.wins.len() as int),
    ensures consistent(b),
{
    let n = a.wins.len() as int;
    let (t, u, v) = (tally_of(a.wins_by_mask@), tally_of(s.wins_by_mask@), tally_of(b.wins_by_mask@));
    lemma_p2(n);
    assert(v =~= plus(t, u)) by { assert forall|w: int| 0 <= w < 512 implies v[w] == plus(t, u)[w] by { if w < p2(n) { assert(b.wins_by_mask@[w] == a.wins_by_mask@[w] + s.wins_by_mask@[w]); } else { assert(s.wins_by_mask@[w] == 0); } } }
    assert forall|p: int| 0 <= p < n implies #[trigger] b.wins@[p] == won(v, p, 512) by { lemma_plus(t, u, p, 512); assert(a.wins@[p] == won(t, p, 512)); }
    assert forall|p: int| 0 <= p < n implies (#[trigger] b.ties@[p]).r@ == split(v, p, 512) by { lemma_plus(t, u, p, 512); assert(a.ties@[p].r@ == split(t, p, 512)); }
    assert forall|i: int| 0 <= i < 1326 * n implies within(#[trigger] b.hand_results@[i]) by { assert(unit_merged(a.hand_results@[i], b.hand_results@[i], h[i])); assert(within(a.hand_results@[i]) && within(h[i])); }
    assert forall|p: int| 0 <= p < n implies #[trigger] sums_match(b.hand_results@, v, p) by {
        lemma_plus(t, u, p, 512); lemma_sums(a.hand_results@, b.hand_results@, h, 1326 * p, 1326); assert(sums_match(a.hand_results@, t, p)); assert(sums_match(h, u, p));
    }
}
