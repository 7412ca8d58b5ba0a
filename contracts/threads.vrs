// ------------------------------------------------------------------------------------------
// Several threads.
// ---- C14: any number of threads, in any order.  The i-th reservation is the positions from
// cuts[i] up to cuts[i + 1] (a reservation starts where the one before it ended) and goes to
// thread owners[i]; the i-th merge adds the i-th batch of whole and is made by thread by[i].
pub open spec fn sum_rec(t: Table, ps: Seq<int>, m: int, i: int) -> Seq<int> { if i < 0 { sum_all(t, ps, m) } else { sum_of(t, ps, m, i) } }
pub open spec fn part(owners: Seq<int>, cuts: Seq<int>, k: int, m: int) -> Seq<int> decreases m {
    if m <= 0 { Seq::<int>::empty() } else if owners[m - 1] == k { part(owners, cuts, k, m - 1) + span(cuts[m - 1], cuts[m]) } else { part(owners, cuts, k, m - 1) }
}
pub open spec fn over_threads(t: Table, owners: Seq<int>, cuts: Seq<int>, threads: int, m: int, i: int) -> Seq<int> decreases threads {
    if threads <= 0 { zero_tally() } else { plus(over_threads(t, owners, cuts, threads - 1, m, i), sum_rec(t, part(owners, cuts, threads - 1, m), part(owners, cuts, threads - 1, m).len() as int, i)) }
}
proof fn lemma_sum_rec(t: Table, a: Seq<int>, b: Seq<int>, m: int, i: int)
    requires 0 <= m <= b.len(),
    ensures sum_rec(t, a + b, a.len() + m, i) =~= plus(sum_rec(t, a, a.len() as int, i), sum_rec(t, b, m, i)), sum_rec(t, a + b, a.len() as int, i) == sum_rec(t, a, a.len() as int, i), tally(sum_rec(t, b, m, i)),
    decreases m,
{
    lemma_sums_are_tallies(t, a, a.len() as int, i); lemma_sums_are_tallies(t, b, m, i);
    lemma_prefix(t, a + b, a, a.len() as int, i);
    if m > 0 {
        lemma_sum_rec(t, a, b, m - 1, i);
        assert((a + b)[a.len() + m - 1] == b[m - 1]);
        let (x, y) = (sum_rec(t, a, a.len() as int, i), sum_rec(t, b, m - 1, i));
        let z = if i < 0 { showdowns(t, picks_at(t.gs, b[m - 1])) } else { showdowns_of(t, picks_at(t.gs, b[m - 1]), i) };
        assert(plus(plus(x, y), z) =~= plus(x, plus(y, z)));
    }
}
proof fn lemma_over_threads(t: Table, owners: Seq<int>, cuts: Seq<int>, threads: int, m: int, i: int)
    requires 0 <= m < owners.len(), cuts.len() == owners.len() + 1, 0 <= owners[m],
    ensures tally(over_threads(t, owners, cuts, threads, m, i)),
        over_threads(t, owners, cuts, threads, m + 1, i) =~= (if owners[m] < threads { plus(over_threads(t, owners, cuts, threads, m, i), sum_rec(t, span(cuts[m], cuts[m + 1]), span(cuts[m], cuts[m + 1]).len() as int, i)) } else { over_threads(t, owners, cuts, threads, m, i) }),
    decreases threads,
{
    if threads > 0 {
        lemma_over_threads(t, owners, cuts, threads - 1, m, i);
        let (a, b) = (part(owners, cuts, threads - 1, m), span(cuts[m], cuts[m + 1]));
        lemma_sum_rec(t, a, b, b.len() as int, i);
        assert(part(owners, cuts, threads - 1, m + 1) == if owners[m] == threads - 1 { a + b } else { a });
    }
}
// the threads' counts add up to those of all positions once each
pub proof fn theorem_reservations(t: Table, owners: Seq<int>, cuts: Seq<int>, threads: int, m: int, i: int)
    requires 0 <= m <= owners.len(), cuts.len() == owners.len() + 1, cuts[0] == 0, forall|j: int| 0 <= j < owners.len() ==> 0 <= #[trigger] owners[j] < threads, forall|j: int| 0 <= j < owners.len() ==> #[trigger] cuts[j] <= cuts[j + 1],
    ensures cuts[m] >= 0, over_threads(t, owners, cuts, threads, m, i) =~= sum_rec(t, span(0, cuts[m]), cuts[m], i),
    decreases m,
{
    if m > 0 {
        theorem_reservations(t, owners, cuts, threads, m - 1, i);
        assert(0 <= owners[m - 1] < threads);
        assert(cuts[m - 1] <= cuts[m - 1 + 1]);
        lemma_over_threads(t, owners, cuts, threads, m - 1, i);
        let (a, b) = (span(0, cuts[m - 1]), span(cuts[m - 1], cuts[m]));
        lemma_sum_rec(t, a, b, b.len() as int, i);
        assert(a + b =~= span(0, cuts[m]));
    } else { lemma_no_reservations(t, owners, cuts, threads, i); }
}
proof fn lemma_no_reservations(t: Table, owners: Seq<int>, cuts: Seq<int>, threads: int, i: int)
    ensures over_threads(t, owners, cuts, threads, 0, i) =~= zero_tally(),
    decreases threads,
{ if threads > 0 { lemma_no_reservations(t, owners, cuts, threads - 1, i); } }
// what the merges of thread k add
pub open spec fn own_log(whole: Seq<Batch>, by: Seq<int>, k: int, m: int) -> Seq<Batch> decreases m {
    if m <= 0 { Seq::<Batch>::empty() } else if by[m - 1] == k { own_log(whole, by, k, m - 1).push(whole[m - 1]) } else { own_log(whole, by, k, m - 1) }
}
pub open spec fn logs_wins(whole: Seq<Batch>, by: Seq<int>, threads: int, m: int, w: int) -> int decreases threads {
    if threads <= 0 { 0 } else { logs_wins(whole, by, threads - 1, m, w) + log_wins(own_log(whole, by, threads - 1, m), own_log(whole, by, threads - 1, m).len() as int, w) }
}
pub open spec fn logs_total(whole: Seq<Batch>, by: Seq<int>, threads: int, m: int, i: int) -> (int, int, int, real) decreases threads {
    if threads <= 0 { (0, 0, 0, 0real) } else { let (a, l) = (logs_total(whole, by, threads - 1, m, i), own_log(whole, by, threads - 1, m)); let k = l.len() as int;
        (a.0 + hand_total(l, k, i), a.1 + hand_wins(l, k, i), a.2 + hand_ties(l, k, i), a.3 + hand_shares(l, k, i)) }
}
proof fn lemma_logs(whole: Seq<Batch>, by: Seq<int>, threads: int, m: int, w: int, i: int)
    requires 0 <= m < by.len(), by.len() == whole.len(), 0 <= by[m],
    ensures ({ let b = whole[m]; let (x, y) = (logs_total(whole, by, threads, m, i), logs_total(whole, by, threads, m + 1, i)); let on = by[m] < threads;
        logs_wins(whole, by, threads, m + 1, w) == logs_wins(whole, by, threads, m, w) + (if on { b.s.wins_by_mask@[w] as int } else { 0 })
        && y.0 == x.0 + (if on { b.h[i].total as int } else { 0 }) && y.1 == x.1 + (if on { b.h[i].wins as int } else { 0 }) && y.2 == x.2 + (if on { b.h[i].ties as int } else { 0 }) && y.3 == x.3 + (if on { b.h[i].corrected_ties.r@ } else { 0real }) }),
    decreases threads,
{
    if threads > 0 {
        lemma_logs(whole, by, threads - 1, m, w, i);
        let l = own_log(whole, by, threads - 1, m);
        if by[m] == threads - 1 { assert(own_log(whole, by, threads - 1, m + 1) == l.push(whole[m])); lemma_log_push(l, whole[m], l.len() as int, w, i); assert(l.push(whole[m])[l.len() as int] == whole[m]); }
        else { assert(own_log(whole, by, threads - 1, m + 1) == l); }
    }
}
proof fn lemma_no_logs(whole: Seq<Batch>, by: Seq<int>, threads: int, w: int, i: int)
    ensures logs_wins(whole, by, threads, 0, w) == 0, logs_total(whole, by, threads, 0, i) == (0int, 0int, 0int, 0real),
    decreases threads,
{ if threads > 0 { lemma_no_logs(whole, by, threads - 1, w, i); } }
// the merges, one after the other under the lock, leave the sum of the threads' logs
pub proof fn theorem_merges(rs: Seq<SimulationResults>, whole: Seq<Batch>, by: Seq<int>, threads: int, m: int)
    requires 0 <= m <= whole.len(), by.len() == whole.len(), rs.len() == whole.len() + 1, forall|j: int| 0 <= j < by.len() ==> 0 <= #[trigger] by[j] < threads,
        forall|j: int| 0 <= j < whole.len() ==> merged(#[trigger] rs[j], rs[j + 1], whole[j].s, whole[j].h),
    ensures same_shape(rs[0], rs[m]),
        forall|w: int| 0 <= w < rs[0].wins_by_mask.len() ==> #[trigger] rs[m].wins_by_mask@[w] == rs[0].wins_by_mask@[w] + logs_wins(whole, by, threads, m, w),
        forall|i: int| 0 <= i < rs[0].hand_results.len() ==> unit_sum(rs[0].hand_results@[i], #[trigger] rs[m].hand_results@[i], logs_total(whole, by, threads, m, i)),
    decreases m,
{
    if m > 0 {
        theorem_merges(rs, whole, by, threads, m - 1);
        let (a, b, c) = (rs[0], rs[m - 1], rs[m]);
        assert(merged(rs[m - 1], rs[m - 1 + 1], whole[m - 1].s, whole[m - 1].h));
        assert(0 <= by[m - 1] < threads);
        assert forall|w: int| 0 <= w < a.wins_by_mask.len() implies #[trigger] c.wins_by_mask@[w] == a.wins_by_mask@[w] + logs_wins(whole, by, threads, m, w) by { lemma_logs(whole, by, threads, m - 1, w, 0); assert(b.wins_by_mask@[w] == a.wins_by_mask@[w] + logs_wins(whole, by, threads, m - 1, w)); }
        assert forall|i: int| 0 <= i < a.hand_results.len() implies unit_sum(a.hand_results@[i], #[trigger] c.hand_results@[i], logs_total(whole, by, threads, m, i)) by { lemma_logs(whole, by, threads, m - 1, 0, i); assert(unit_sum(a.hand_results@[i], b.hand_results@[i], logs_total(whole, by, threads, m - 1, i))); assert(unit_merged(b.hand_results@[i], c.hand_results@[i], whole[m - 1].h[i])); }
        assert forall|i: int| 0 <= i < a.hand_results.len() implies same_labels(a.hand_results@[i], #[trigger] c.hand_results@[i]) by { assert(same_labels(a.hand_results@[i], b.hand_results@[i])); assert(unit_merged(b.hand_results@[i], c.hand_results@[i], whole[m - 1].h[i])); }
    } else {
        assert forall|w: int| 0 <= w < rs[0].wins_by_mask.len() implies #[trigger] rs[m].wins_by_mask@[w] == rs[0].wins_by_mask@[w] + logs_wins(whole, by, threads, 0, w) by { lemma_no_logs(whole, by, threads, w, 0); }
        assert forall|i: int| 0 <= i < rs[0].hand_results.len() implies unit_sum(rs[0].hand_results@[i], #[trigger] rs[m].hand_results@[i], logs_total(whole, by, threads, 0, i)) by { lemma_no_logs(whole, by, threads, 0, i); }
    }
}
pub open spec fn unit_sum(a: UnitResults, b: UnitResults, x: (int, int, int, real)) -> bool { b.total == a.total + x.0 && b.wins == a.wins + x.1 && b.ties == a.ties + x.2 && b.corrected_ties.r@ == a.corrected_ties.r@ + x.3 }
