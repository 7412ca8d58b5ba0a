// ------------------------------------------------------------------------------------------
// From the steps of a calculation to what it gives.
// ---- the same counts
spec fn same_unit(a: UnitResults, b: UnitResults) -> bool { b.total == a.total && b.wins == a.wins && b.ties == a.ties && b.corrected_ties == a.corrected_ties }
spec fn same_units(a: Seq<UnitResults>, b: Seq<UnitResults>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_unit(a[i], #[trigger] b[i]) }
spec fn same_counts(a: SimulationResults, b: SimulationResults) -> bool { b.wins == a.wins && b.ties == a.ties && b.wins_by_mask == a.wins_by_mask && same_units(a.hand_results@, b.hand_results@) }
proof fn lemma_counts_chain(a: SimulationResults, b: SimulationResults, c: SimulationResults)
    requires same_counts(a, b), same_counts(b, c),
    ensures same_counts(a, c),
{ assert forall|i: int| 0 <= i < a.hand_results.len() implies same_unit(a.hand_results@[i], #[trigger] c.hand_results@[i]) by { assert(same_unit(a.hand_results@[i], b.hand_results@[i])); } }
proof fn lemma_same_sums(a: Seq<UnitResults>, b: Seq<UnitResults>, lo: int, n: int)
    requires same_units(a, b), 0 <= lo, lo + n <= a.len(),
    ensures totals_of(b, lo, n) == totals_of(a, lo, n), wins_of(b, lo, n) == wins_of(a, lo, n), ties_of(b, lo, n) == ties_of(a, lo, n), shares_of(b, lo, n) == shares_of(a, lo, n),
    decreases n,
{ if n > 0 { lemma_same_sums(a, b, lo, n - 1); assert(same_unit(a[lo + n - 1], b[lo + n - 1])); } }
proof fn lemma_same_consistent(a: SimulationResults, b: SimulationResults)
    requires same_counts(a, b), consistent(a),
    ensures consistent(b), b.wins.len() == a.wins.len(), b.hand_results.len() == a.hand_results.len(),
{
    let n = a.wins.len() as int; let t = tally_of(a.wins_by_mask@);
    assert forall|i: int| 0 <= i < 1326 * n implies within(#[trigger] b.hand_results@[i]) by { assert(same_unit(a.hand_results@[i], b.hand_results@[i])); assert(within(a.hand_results@[i])); }
    assert forall|p: int| 0 <= p < n implies #[trigger] sums_match(b.hand_results@, t, p) by { assert(sums_match(a.hand_results@, t, p)); lemma_same_sums(a.hand_results@, b.hand_results@, 1326 * p, 1326); }
}
proof fn lemma_same_counts_are(a: SimulationResults, b: SimulationResults, c: spec_fn(int) -> Seq<int>, n: int)
    requires same_counts(a, b), counts_are(a, c, n), a.hand_results.len() == 1326 * n,
    ensures counts_are(b, c, n),
{ assert forall|i: int| 0 <= i < 1326 * n implies unit_is(#[trigger] b.hand_results@[i], c(i), i / 1326) by { assert(same_unit(a.hand_results@[i], b.hand_results@[i])); assert(unit_is(a.hand_results@[i], c(i), i / 1326)); } }
// nothing is counted yet
spec fn zeroed(r: SimulationResults, n: int) -> bool {
    &&& consistent(r) && r.wins.len() == n
    &&& forall|w: int| 0 <= w < p2(n) ==> #[trigger] r.wins_by_mask@[w] == 0
    &&& forall|i: int| 0 <= i < 1326 * n ==> zero_unit(#[trigger] r.hand_results@[i])
}
spec fn zero_unit(u: UnitResults) -> bool { u.total == 0 && u.wins == 0 && u.ties == 0 && u.corrected_ties.r@ == 0real }
proof fn lemma_zeroed(a: SimulationResults, b: SimulationResults, n: int)
    requires fresh(a, n), same_counts(a, b),
    ensures zeroed(b, n),
{
    lemma_same_consistent(a, b);
    assert forall|i: int| 0 <= i < 1326 * n implies zero_unit(#[trigger] b.hand_results@[i]) by { assert(same_unit(a.hand_results@[i], b.hand_results@[i])); assert(empty_unit(a.hand_results@[i])); }
}
// ---- the steps before and after the threads keep the counts
spec fn only_hands(a: SimulationResults, b: SimulationResults) -> bool { b == (SimulationResults { hand_results: b.hand_results, ..a }) }
// before the threads: weights are noted and hands are labelled, in either order
spec fn blank(h: Seq<UnitResults>) -> bool { forall|i: int| 0 <= i < h.len() ==> !(#[trigger] h[i]).valid && h[i].weight == 0 }
spec fn weights_noted(h: Seq<UnitResults>, ks: Seq<HandRange>) -> bool {
    &&& h.len() == 1326 * ks.len()
    &&& forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() ==> has_weight(h[#[trigger] slot(ks, p, k)], kept_weight(ks, p, k))
    &&& forall|i: int| 0 <= i < h.len() && no_slot(ks, i) ==> !(#[trigger] h[i]).valid && h[i].weight == 0
}
spec fn labels_known(h: Seq<UnitResults>, ks: Seq<HandRange>, board: Seq<bool>) -> bool { forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() ==> labels_of(h[#[trigger] slot(ks, p, k)], ks[p].hands@[k], board) }
proof fn lemma_at_first(r: SimulationResults, n: int)
    requires fresh(r, n),
    ensures blank(r.hand_results@), same_counts(r, r),
{
    assert forall|i: int| 0 <= i < r.hand_results.len() implies !(#[trigger] r.hand_results@[i]).valid && r.hand_results@[i].weight == 0 by { assert(empty_unit(r.hand_results@[i])); }
}
proof fn lemma_noted(r0: SimulationResults, a: SimulationResults, b: SimulationResults, ks: Seq<HandRange>, board: Seq<bool>)
    requires noted_weights(a.hand_results@, b.hand_results@, ks), only_hands(a, b), blank(a.hand_results@), same_counts(r0, a), proper(ks), a.hand_results.len() == 1326 * ks.len(),
    ensures same_counts(r0, b), weights_noted(b.hand_results@, ks), labels_known(a.hand_results@, ks, board) ==> labels_known(b.hand_results@, ks, board),
{
    assert forall|i: int| 0 <= i < a.hand_results.len() implies same_unit(a.hand_results@[i], #[trigger] b.hand_results@[i]) by { }
    lemma_counts_chain(r0, a, b);
    assert forall|i: int| 0 <= i < b.hand_results.len() && no_slot(ks, i) implies !(#[trigger] b.hand_results@[i]).valid && b.hand_results@[i].weight == 0 by { assert(b.hand_results@[i] == a.hand_results@[i]); }
    if labels_known(a.hand_results@, ks, board) {
        assert forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() implies labels_of(b.hand_results@[#[trigger] slot(ks, p, k)], ks[p].hands@[k], board) by { lemma_slot(ks, p, k); assert(labels_of(a.hand_results@[slot(ks, p, k)], ks[p].hands@[k], board)); }
    }
}
proof fn lemma_labelled(r0: SimulationResults, a: SimulationResults, b: SimulationResults, ks: Seq<HandRange>, board: Seq<bool>)
    requires labels_set(a.hand_results@, b.hand_results@, ks, board), only_hands(a, b), same_counts(r0, a), proper(ks),
    ensures same_counts(r0, b), labels_known(b.hand_results@, ks, board), weights_noted(a.hand_results@, ks) ==> weights_noted(b.hand_results@, ks), blank(a.hand_results@) ==> blank(b.hand_results@),
{
    assert forall|i: int| 0 <= i < a.hand_results.len() implies labels_only(a.hand_results@[i], #[trigger] b.hand_results@[i]) by { }
    assert forall|i: int| 0 <= i < a.hand_results.len() implies same_unit(a.hand_results@[i], #[trigger] b.hand_results@[i]) by { assert(labels_only(a.hand_results@[i], b.hand_results@[i])); }
    lemma_counts_chain(r0, a, b);
    if weights_noted(a.hand_results@, ks) {
        assert forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() implies has_weight(b.hand_results@[#[trigger] slot(ks, p, k)], kept_weight(ks, p, k)) by { lemma_slot(ks, p, k); assert(has_weight(a.hand_results@[slot(ks, p, k)], kept_weight(ks, p, k))); }
        assert forall|i: int| 0 <= i < b.hand_results.len() && no_slot(ks, i) implies !(#[trigger] b.hand_results@[i]).valid && b.hand_results@[i].weight == 0 by { assert(b.hand_results@[i] == a.hand_results@[i]); }
    }
    if blank(a.hand_results@) { assert forall|i: int| 0 <= i < b.hand_results.len() implies !(#[trigger] b.hand_results@[i]).valid && b.hand_results@[i].weight == 0 by { assert(labels_only(a.hand_results@[i], b.hand_results@[i])); assert(!a.hand_results@[i].valid); } }
}
proof fn lemma_shown(a: SimulationResults, b: SimulationResults, ks: Seq<HandRange>)
    requires shows_weights(a.hand_results@, b.hand_results@, ks), only_hands(a, b),
    ensures same_counts(a, b),
{ assert forall|i: int| 0 <= i < a.hand_results.len() implies same_unit(a.hand_results@[i], #[trigger] b.hand_results@[i]) by { assert(weight_only(a.hand_results@[i], b.hand_results@[i])); } }
proof fn lemma_classed(a: SimulationResults, b: SimulationResults, n: int)
    requires final_classes(a, b, n), a.hand_results.len() == 1326 * n,
    ensures same_counts(a, b),
{ assert forall|i: int| 0 <= i < a.hand_results.len() implies same_unit(a.hand_results@[i], #[trigger] b.hand_results@[i]) by { assert(rated(a.hand_results@[i], b.hand_results@[i])); } }
// ---- C13, C14, C21: the sum of what the threads have counted
spec fn figures(t: Seq<int>, p: int) -> (int, int, int, real) { (all_of(t, 512), won(t, p, 512), tied(t, p, 512), split(t, p, 512)) }
proof fn lemma_no_figures(p: int)
    ensures figures(zero_tally(), p) == (0int, 0int, 0int, 0real),
{ lemma_zero_tally(p, 512); }
proof fn lemma_over_tally(t: Table, owners: Seq<int>, cuts: Seq<int>, threads: int, m: int, i: int)
    ensures tally(over_threads(t, owners, cuts, threads, m, i)),
{ if threads > 0 { } }
spec fn all_logged(t: Table, h: History, ws: Seq<World>, threads: int) -> bool { forall|k: int| 0 <= k < threads ==> took_part(h, #[trigger] ws[k], k) && logged(t, ws[k].log@, ws[k].taken@, ws[k].taken@.len() as int) }
proof fn lemma_thread_sums(t: Table, h: History, ws: Seq<World>, threads: int, i: int, w: int)
    requires 0 <= threads <= ws.len(), all_logged(t, h, ws, threads), 0 <= w < 512, 0 <= i < 1326 * t.n,
    ensures logs_wins(h.whole, h.by, threads, h.by.len() as int, w) == over_threads(t, h.owners, h.cuts, threads, h.owners.len() as int, -1)[w],
        logs_total(h.whole, h.by, threads, h.by.len() as int, i) == figures(over_threads(t, h.owners, h.cuts, threads, h.owners.len() as int, i), i / 1326),
    decreases threads,
{
    let (m, j) = (h.owners.len() as int, h.by.len() as int);
    if threads > 0 {
        lemma_thread_sums(t, h, ws, threads - 1, i, w);
        let x = ws[threads - 1];
        assert(took_part(h, ws[threads - 1], threads - 1) && logged(t, x.log@, x.taken@, x.taken@.len() as int));
        let ps = part(h.owners, h.cuts, threads - 1, m);
        assert(x.taken@ == ps && x.log@ == own_log(h.whole, h.by, threads - 1, j));
        let (a, b) = (over_threads(t, h.owners, h.cuts, threads - 1, m, i), sum_rec(t, ps, ps.len() as int, i));
        lemma_over_tally(t, h.owners, h.cuts, threads - 1, m, i); lemma_sums_are_tallies(t, ps, ps.len() as int, i);
        lemma_plus(a, b, i / 1326, 512);
        assert(log_wins(x.log@, x.log@.len() as int, w) == sum_all(t, ps, ps.len() as int)[w]);
        assert(hand_total(x.log@, x.log@.len() as int, i) == all_of(sum_of(t, ps, ps.len() as int, i), 512));
    } else { lemma_no_figures(i / 1326); lemma_no_logs(h.whole, h.by, 0, w, i); }
}
// all merges of a history are merges of batches
proof fn lemma_all_merged(t: Team, h: History, r: SimulationResults, n: int)
    requires history(t, h, r), workers_ok(t, n),
    ensures forall|j: int| 0 <= j < h.whole.len() ==> merged(#[trigger] h.rs[j], h.rs[j + 1], h.whole[j].s, h.whole[j].h),
{ assert forall|j: int| 0 <= j < h.whole.len() implies merged(#[trigger] h.rs[j], h.rs[j + 1], h.whole[j].s, h.whole[j].h) by { lemma_merge_at(t, h, r, n, j); } }
spec fn exact_worker(sim: Simulator, w: World) -> bool {
    &&& thread_done(sim, w) && steps_ok(w.log@, w.steps@, sim.n_players as int) && percentages(w.out.sent@) && (!cancelled() ==> !w.flag.set@)
    &&& forall|i: int| 0 <= i < w.taken@.len() ==> 0 <= #[trigger] w.taken@[i] < deals(sim.combined_ranges@, sim.combined_ranges.len() as int)
    &&& alone() ==> rises(w.out.sent@) && (!w.flag.set@ ==> w.out.sent@.len() > 0 && w.out.sent@.last() == 100)
}
spec fn exact_workers(sim: Simulator, ws: Seq<World>) -> bool { forall|k: int| 0 <= k < ws.len() ==> exact_worker(sim, #[trigger] ws[k]) }
spec fn same_game(sim: Simulator, g: Game) -> bool { table(sim) == table_of(sim.combined_ranges@, g) && sim.n_players == g.rs.len() && grouped(sim.combined_ranges@, g.rs) && 1 <= g.rs.len() <= 9 }
proof fn lemma_exact_counts(sim: Simulator, g: Game, t: Team, h: History, r: SimulationResults)
    requires same_game(sim, g), history(t, h, r), zeroed(t.start@, g.rs.len() as int), t.at@ == 0, t.end@ == deals(sim.combined_ranges@, sim.combined_ranges.len() as int), t.worlds@.len() > 0, exact_workers(sim, t.worlds@), !cancelled(),
    ensures exact_counts(r, g), r.hand_results.len() == 1326 * g.rs.len(),
{
    let (gs, n, tb, ws) = (sim.combined_ranges@, g.rs.len() as int, table(sim), t.worlds@);
    let (m, j, k) = (h.owners.len() as int, h.by.len() as int, ws.len() as int);
    assert forall|x: int| 0 <= x < k implies took_part(h, #[trigger] ws[x], x) && logged(tb, ws[x].log@, ws[x].taken@, ws[x].taken@.len() as int) && h.cuts.last() == t.end@ by { assert(took_part(h, t.worlds@[x], x)); assert(exact_worker(sim, t.worlds@[x])); }
    assert(took_part(h, ws[0], 0));
    assert(workers_ok(t, n)) by { assert forall|x: int| 0 <= x < k implies steps_ok((#[trigger] t.worlds@[x]).log@, t.worlds@[x].steps@, n) by { assert(exact_worker(sim, ws[x])); } }
    lemma_all_merged(t, h, r, n);
    theorem_merges(h.rs, h.whole, h.by, k, j);
    let c = |i: int| every_deal(g, i);
    assert forall|i: int| -1 <= i < 1326 * n implies over_threads(tb, h.owners, h.cuts, k, m, i) == #[trigger] every_deal(g, i) by {
        theorem_reservations(tb, h.owners, h.cuts, k, m, i);
        theorem_every_deal(gs, g, i);
        lemma_over_tally(tb, h.owners, h.cuts, k, m, i);
    }
    assert(r.wins_by_mask.len() == p2(n));
    lemma_p2(n);
    assert forall|w: int| 0 <= w < r.wins_by_mask.len() implies #[trigger] r.wins_by_mask@[w] == c(-1)[w] by { lemma_thread_sums(tb, h, ws, k, 0, w); assert(h.rs[j].wins_by_mask@[w] == h.rs[0].wins_by_mask@[w] + logs_wins(h.whole, h.by, k, j, w)); assert(t.start@.wins_by_mask@[w] == 0); assert(over_threads(tb, h.owners, h.cuts, k, m, -1) == every_deal(g, -1)); }
    assert forall|i: int| 0 <= i < 1326 * n implies unit_is(#[trigger] r.hand_results@[i], c(i), i / 1326) by {
        lemma_thread_sums(tb, h, ws, k, i, 0);
        assert(unit_sum(h.rs[0].hand_results@[i], h.rs[j].hand_results@[i], logs_total(h.whole, h.by, k, j, i)));
        assert(zero_unit(t.start@.hand_results@[i]));
        assert(over_threads(tb, h.owners, h.cuts, k, m, i) == every_deal(g, i));
    }
}
proof fn lemma_counts_every_deal(hs: Seq<HandRange>, ks: Seq<HandRange>, rs: Seq<HandRange>, board: u64, dead: u64, sim: Simulator, t: Team, h: History, r: SimulationResults, z: SimulationResults)
    requires prepared(hs, ks, rs, board, dead), same_game(sim, game(rs, board, dead)), history(t, h, r), zeroed(t.start@, rs.len() as int), t.at@ == 0, t.end@ == deals(sim.combined_ranges@, sim.combined_ranges.len() as int), t.worlds@.len() > 0, exact_workers(sim, t.worlds@), !cancelled(), same_counts(r, z),
    ensures counts_every_deal(hs, board, dead, z),
{
    let g = game(rs, board, dead);
    lemma_exact_counts(sim, g, t, h, r);
    lemma_same_counts_are(r, z, |i: int| every_deal(g, i), rs.len() as int);
    assert(exact_counts(z, g));
}
// ---- C15: the same for simulated deals
spec fn own_walk(t: Table, w: World) -> Seq<Sample> { choose|xs: Seq<Sample>| all_fair(t, xs) && #[trigger] recorded(t, w.log@, xs) }
spec fn has_walk(t: Table, w: World) -> bool { exists|xs: Seq<Sample>| all_fair(t, xs) && #[trigger] recorded(t, w.log@, xs) }
spec fn walks(t: Table, ws: Seq<World>, k: int) -> Seq<Sample> decreases k { if k <= 0 { Seq::<Sample>::empty() } else { walks(t, ws, k - 1) + own_walk(t, ws[k - 1]) } }
proof fn lemma_outcomes_append(t: Table, a: Seq<Sample>, b: Seq<Sample>, i: int)
    ensures outcomes(t, a + b) =~= plus(outcomes(t, a), outcomes(t, b)), outcomes_for(t, a + b, i) =~= plus(outcomes_for(t, a, i), outcomes_for(t, b, i)),
    decreases b.len(),
{
    lemma_outcomes_are_tallies(t, a, i); lemma_outcomes_are_tallies(t, b, i);
    if b.len() > 0 {
        lemma_outcomes_append(t, a, b.drop_last(), i);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_outcomes_are_tallies(t, b.drop_last(), i);
    } else { assert(a + b =~= a); }
}
proof fn lemma_walk_sums(t: Table, h: History, ws: Seq<World>, threads: int, i: int, w: int)
    requires 0 <= threads <= ws.len(), forall|k: int| 0 <= k < threads ==> took_part(h, #[trigger] ws[k], k) && has_walk(t, ws[k]), 0 <= w < 512, 0 <= i < 1326 * t.n,
    ensures logs_wins(h.whole, h.by, threads, h.by.len() as int, w) == outcomes(t, walks(t, ws, threads))[w],
        logs_total(h.whole, h.by, threads, h.by.len() as int, i) == figures(outcomes_for(t, walks(t, ws, threads), i), i / 1326),
        all_fair(t, walks(t, ws, threads)),
    decreases threads,
{
    let j = h.by.len() as int;
    if threads > 0 {
        lemma_walk_sums(t, h, ws, threads - 1, i, w);
        let x = ws[threads - 1];
        assert(took_part(h, ws[threads - 1], threads - 1) && has_walk(t, x));
        let (a, b) = (walks(t, ws, threads - 1), own_walk(t, x));
        assert(all_fair(t, b) && recorded(t, x.log@, b));
        assert(x.log@ == own_log(h.whole, h.by, threads - 1, j));
        lemma_outcomes_append(t, a, b, i);
        lemma_outcomes_are_tallies(t, a, i); lemma_outcomes_are_tallies(t, b, i);
        lemma_plus(outcomes_for(t, a, i), outcomes_for(t, b, i), i / 1326, 512);
        assert(log_wins(x.log@, x.log@.len() as int, w) == outcomes(t, b)[w]);
        assert(hand_total(x.log@, x.log@.len() as int, i) == all_of(outcomes_for(t, b, i), 512));
        assert(walks(t, ws, threads) == a + b);
        assert forall|q: int| 0 <= q < (a + b).len() implies fair(t, #[trigger] (a + b)[q]) by { if q < a.len() { assert(fair(t, a[q])); } else { assert(fair(t, b[q - a.len()])); } }
    } else { lemma_no_figures(i / 1326); lemma_no_logs(h.whole, h.by, 0, w, i); }
}
spec fn as_played(gs: Seq<CombinedRange>, rs: Seq<HandRange>, xs: Seq<Sample>) -> Seq<Played> { Seq::new(xs.len(), |k: int| Played { x: unpicked(gs, rs, xs[k].d), board: xs[k].board }) }
proof fn lemma_played(gs: Seq<CombinedRange>, g: Game, xs: Seq<Sample>, i: int)
    requires grouped(gs, g.rs), 1 <= g.rs.len() <= 9, all_fair(table_of(gs, g), xs), i < 1326 * g.rs.len(),
    ensures all_proper(g, as_played(gs, g.rs, xs)), all_played(g, as_played(gs, g.rs, xs), i) == if i < 0 { outcomes(table_of(gs, g), xs) } else { outcomes_for(table_of(gs, g), xs, i) },
    decreases xs.len(),
{
    let (t, ys) = (table_of(gs, g), as_played(gs, g.rs, xs));
    if xs.len() > 0 {
        let z = xs.drop_last();
        assert forall|k: int| 0 <= k < z.len() implies fair(t, #[trigger] z[k]) by { assert(fair(t, xs[k])); }
        lemma_played(gs, g, z, i);
        assert(ys.drop_last() =~= as_played(gs, g.rs, z));
        let (x, y) = (xs.last(), ys.last());
        assert(fair(t, xs[xs.len() - 1]));
        lemma_same_hands(gs, g, x.d); lemma_unpicked(gs, g.rs, x.d);
        assert(proper_deal(g, y)) by {
            let hp = hands_at(g.rs, y.x);
            assert forall|c: int| 0 <= c < 52 && #[trigger] y.board[c] implies g.board[c] || cards_left(hp, g.base)[c] by { assert(x.board[c]); }
            assert forall|c: int| 0 <= c < 52 && #[trigger] g.board[c] implies y.board[c] by { assert(t.board[c]); }
        }
        assert(played(g, y, -1) == outcome(t, x));
        if i >= 0 { assert(holds_record(hands_at(g.rs, unpicked(gs, g.rs, x.d)), i) == (slot_in(t, x.d, i / 1326) == i)); assert(played(g, y, i) == outcome_for(t, x, i)); }
        else { assert(played(g, y, i) == outcome(t, x)); }
        assert forall|k: int| 0 <= k < ys.len() implies proper_deal(g, #[trigger] ys[k]) by { if k < ys.len() - 1 { assert(proper_deal(g, ys.drop_last()[k])); } }
    }
}
spec fn walker(sim: Simulator, t: Team, w: World) -> bool {
    &&& steps_ok(w.log@, w.steps@, sim.n_players as int) && percentages(w.out.sent@)
    &&& exists|a: World, xs: Seq<Sample>| idle(t, a) && #[trigger] walked(sim, a, w, xs)
    &&& alone() && !cancelled() ==> target_reached(w.results, sim.stdev_target.r@) || gave_up(sim, own_generator())
}
spec fn walkers(sim: Simulator, t: Team, ws: Seq<World>) -> bool { forall|k: int| 0 <= k < ws.len() ==> walker(sim, t, #[trigger] ws[k]) }
proof fn lemma_counts_proper_deals(hs: Seq<HandRange>, ks: Seq<HandRange>, rs: Seq<HandRange>, board: u64, dead: u64, sim: Simulator, t: Team, h: History, r: SimulationResults, z: SimulationResults)
    requires prepared(hs, ks, rs, board, dead), same_game(sim, game(rs, board, dead)), history(t, h, r), zeroed(t.start@, rs.len() as int), walkers(sim, t, t.worlds@), same_counts(r, z),
    ensures counts_proper_deals(hs, board, dead, z),
{
    let g = game(rs, board, dead);
    let (gs, n, tb, ws) = (sim.combined_ranges@, rs.len() as int, table(sim), t.worlds@);
    let (j, k) = (h.by.len() as int, ws.len() as int);
    assert forall|x: int| 0 <= x < k implies took_part(h, #[trigger] ws[x], x) && has_walk(tb, ws[x]) && steps_ok(ws[x].log@, ws[x].steps@, n) by {
        assert(took_part(h, t.worlds@[x], x)); assert(walker(sim, t, t.worlds@[x]));
        let (a, xs) = choose|a: World, xs: Seq<Sample>| idle(t, a) && #[trigger] walked(sim, a, ws[x], xs);
        assert(walked(sim, a, ws[x], xs));
        assert(all_fair(tb, xs) && recorded(tb, ws[x].log@, xs));
    }
    assert(workers_ok(t, n));
    lemma_all_merged(t, h, r, n);
    theorem_merges(h.rs, h.whole, h.by, k, j);
    let xs = walks(tb, ws, k);
    let ys = as_played(gs, rs, xs);
    let c = |i: int| all_played(g, ys, i);
    lemma_p2(n);
    lemma_walk_sums(tb, h, ws, k, 0, 0);
    lemma_played(gs, g, xs, -1);
    assert forall|w: int| 0 <= w < r.wins_by_mask.len() implies #[trigger] r.wins_by_mask@[w] == c(-1)[w] by { lemma_walk_sums(tb, h, ws, k, 0, w); assert(h.rs[j].wins_by_mask@[w] == h.rs[0].wins_by_mask@[w] + logs_wins(h.whole, h.by, k, j, w)); assert(t.start@.wins_by_mask@[w] == 0); }
    assert forall|i: int| 0 <= i < 1326 * n implies unit_is(#[trigger] r.hand_results@[i], c(i), i / 1326) by {
        lemma_walk_sums(tb, h, ws, k, i, 0); lemma_played(gs, g, xs, i);
        assert(unit_sum(h.rs[0].hand_results@[i], h.rs[j].hand_results@[i], logs_total(h.whole, h.by, k, j, i)));
        assert(zero_unit(t.start@.hand_results@[i]));
    }
    assert(counts_are(r, c, n));
    lemma_same_counts_are(r, z, c, n);
    assert(played_counts(z, g, ys));
}
// ---- C19: the hands outside the ranges
spec fn quiet(l: Seq<Batch>, i: int) -> bool { hand_total(l, l.len() as int, i) == 0 && hand_wins(l, l.len() as int, i) == 0 && hand_ties(l, l.len() as int, i) == 0 && hand_shares(l, l.len() as int, i) == 0real }
proof fn lemma_not_held(gs: Seq<CombinedRange>, g: Game, d: Seq<int>, i: int)
    requires grouped(gs, g.rs), choice(gs, d), 1 <= g.rs.len() <= 9, 0 <= i < 1326 * g.rs.len(), no_slot(g.rs, i),
    ensures slot_in(table_of(gs, g), d, i / 1326) != i,
{
    let x = unpicked(gs, g.rs, d);
    lemma_same_hands(gs, g, d); lemma_unpicked(gs, g.rs, d);
    let p = i / 1326;
    assert(0 <= p < g.rs.len());
    assert(holds_record(hands_at(g.rs, x), i) == (slot_in(table_of(gs, g), d, i / 1326) == i));
    assert(0 <= x[p] < g.rs[p].hands.len());
    assert(slot(g.rs, p, x[p]) != i);
    assert(hands_at(g.rs, x)[p] == (g.rs[p].hands@[x[p]].0, g.rs[p].hands@[x[p]].1, g.rs[p].hands@[x[p]].2));
}
proof fn lemma_no_sum(sim: Simulator, g: Game, ps: Seq<int>, m: int, i: int)
    requires same_game(sim, g), 0 <= m <= ps.len(), forall|k: int| 0 <= k < ps.len() ==> 0 <= #[trigger] ps[k] < deals(sim.combined_ranges@, sim.combined_ranges.len() as int), 0 <= i < 1326 * g.rs.len(), no_slot(g.rs, i),
    ensures sum_of(table(sim), ps, m, i) =~= zero_tally(),
    decreases m,
{
    if m > 0 {
        lemma_no_sum(sim, g, ps, m - 1, i);
        assert(0 <= ps[m - 1]);
        lemma_picks_at(sim.combined_ranges@, g.rs.len() as int, ps[m - 1]);
        lemma_not_held(sim.combined_ranges@, g, picks_at(sim.combined_ranges@, ps[m - 1]), i);
    }
}
proof fn lemma_no_outcomes(sim: Simulator, g: Game, xs: Seq<Sample>, i: int)
    requires same_game(sim, g), all_fair(table(sim), xs), 0 <= i < 1326 * g.rs.len(), no_slot(g.rs, i),
    ensures outcomes_for(table(sim), xs, i) =~= zero_tally(),
    decreases xs.len(),
{
    if xs.len() > 0 {
        let z = xs.drop_last();
        assert forall|k: int| 0 <= k < z.len() implies fair(table(sim), #[trigger] z[k]) by { assert(fair(table(sim), xs[k])); }
        lemma_no_outcomes(sim, g, z, i);
        assert(fair(table(sim), xs[xs.len() - 1]));
        lemma_not_held(sim.combined_ranges@, g, xs.last().d, i);
    }
}
proof fn lemma_quiet_exact(sim: Simulator, g: Game, w: World, i: int)
    requires same_game(sim, g), exact_worker(sim, w), 0 <= i < 1326 * g.rs.len(), no_slot(g.rs, i),
    ensures quiet(w.log@, i),
{
    let t = table(sim);
    let m = choose|m: int| 0 <= m <= w.taken@.len() && #[trigger] logged(table(sim), w.log@, w.taken@, m) && (w.flag.set@ || (m == w.taken@.len() && w.pos.v == deals(sim.combined_ranges@, sim.combined_ranges.len() as int)));
    assert(logged(t, w.log@, w.taken@, m));
    lemma_no_sum(sim, g, w.taken@, m, i); lemma_no_figures(i / 1326);
    assert(t.n == g.rs.len());
    assert(hand_total(w.log@, w.log@.len() as int, i) == all_of(sum_of(t, w.taken@, m, i), 512));
}
proof fn lemma_quiet_walk(sim: Simulator, g: Game, t: Team, w: World, i: int)
    requires same_game(sim, g), walker(sim, t, w), 0 <= i < 1326 * g.rs.len(), no_slot(g.rs, i),
    ensures quiet(w.log@, i),
{
    let tb = table(sim);
    let (a, xs) = choose|a: World, xs: Seq<Sample>| idle(t, a) && #[trigger] walked(sim, a, w, xs);
    assert(walked(sim, a, w, xs));
    lemma_no_outcomes(sim, g, xs, i); lemma_no_figures(i / 1326);
    assert(tb.n == g.rs.len());
    assert(hand_total(w.log@, w.log@.len() as int, i) == all_of(outcomes_for(tb, xs, i), 512));
}
proof fn lemma_quiet_logs(h: History, ws: Seq<World>, threads: int, i: int)
    requires 0 <= threads <= ws.len(), forall|k: int| 0 <= k < threads ==> took_part(h, #[trigger] ws[k], k) && quiet(ws[k].log@, i),
    ensures logs_total(h.whole, h.by, threads, h.by.len() as int, i) == (0int, 0int, 0int, 0real),
    decreases threads,
{ if threads > 0 { lemma_quiet_logs(h, ws, threads - 1, i); assert(took_part(h, ws[threads - 1], threads - 1) && quiet(ws[threads - 1].log@, i)); } }
spec fn all_quiet(t: Team, i: int) -> bool { forall|k: int| 0 <= k < t.worlds@.len() ==> quiet((#[trigger] t.worlds@[k]).log@, i) }
proof fn lemma_stays_zero(t: Team, h: History, r: SimulationResults, n: int, i: int)
    requires history(t, h, r), workers_ok(t, n), zeroed(t.start@, n), all_quiet(t, i), 0 <= i < 1326 * n,
    ensures zero_unit(r.hand_results@[i]), r.hand_results.len() == 1326 * n,
{
    let ws = t.worlds@;
    lemma_all_merged(t, h, r, n);
    theorem_merges(h.rs, h.whole, h.by, ws.len() as int, h.by.len() as int);
    assert forall|k: int| 0 <= k < ws.len() implies took_part(h, #[trigger] ws[k], k) && quiet(ws[k].log@, i) by { assert(took_part(h, t.worlds@[k], k)); }
    lemma_quiet_logs(h, ws, ws.len() as int, i);
    assert(unit_sum(h.rs[0].hand_results@[i], h.rs[h.by.len() as int].hand_results@[i], logs_total(h.whole, h.by, ws.len() as int, h.by.len() as int, i)));
    assert(zero_unit(t.start@.hand_results@[i]));
}
// the weights, after the threads
spec fn weights_shown(h: Seq<UnitResults>, ks: Seq<HandRange>) -> bool {
    &&& h.len() == 1326 * ks.len()
    &&& forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() ==> has_weight(h[#[trigger] slot(ks, p, k)], ks[p].hands@[k].2 as int)
    &&& forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) ==> !(#[trigger] h[i]).valid && h[i].weight == 0
}
// r0 to r4: the results at the start, (r2) with weights and labels, after the threads, with the ranges' weights
spec fn kept_before(ks: Seq<HandRange>, r1: SimulationResults, r3: SimulationResults) -> bool { r1.hand_results.len() == r3.hand_results.len() && forall|i: int| 0 <= i < r1.hand_results.len() ==> (#[trigger] r3.hand_results@[i]).valid == r1.hand_results@[i].valid && r3.hand_results@[i].weight == r1.hand_results@[i].weight }
proof fn lemma_kept_weights(ks: Seq<HandRange>, r2: SimulationResults, r3: SimulationResults)
    requires proper(ks), weights_noted(r2.hand_results@, ks), kept_before(ks, r2, r3),
    ensures forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() ==> has_weight(r3.hand_results@[#[trigger] slot(ks, p, k)], kept_weight(ks, p, k)),
{
    assert forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() implies has_weight(r3.hand_results@[#[trigger] slot(ks, p, k)], kept_weight(ks, p, k)) by { lemma_slot(ks, p, k); let i = slot(ks, p, k); assert(has_weight(r2.hand_results@[slot(ks, p, k)], kept_weight(ks, p, k))); assert(r3.hand_results@[i].valid == r2.hand_results@[i].valid); }
}
proof fn lemma_weights_shown(ks: Seq<HandRange>, r2: SimulationResults, r3: SimulationResults, r4: SimulationResults)
    requires proper(ks), weights_noted(r2.hand_results@, ks), kept_before(ks, r2, r3), shows_weights(r3.hand_results@, r4.hand_results@, ks),
    ensures weights_shown(r4.hand_results@, ks),
{
    assert forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) implies !(#[trigger] r4.hand_results@[i]).valid && r4.hand_results@[i].weight == 0 by { assert(r4.hand_results@[i] == r3.hand_results@[i]); assert(!r2.hand_results@[i].valid && r2.hand_results@[i].weight == 0); }
}
proof fn lemma_small(h: Seq<UnitResults>, ks: Seq<HandRange>)
    requires weights_shown(h, ks),
    ensures forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).weight <= 255,
{ assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).weight <= 255 by { if !no_slot(ks, i) { let (p, k) = choose|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() && #[trigger] slot(ks, p, k) == i; assert(has_weight(h[slot(ks, p, k)], ks[p].hands@[k].2 as int)); } } }
spec fn same_weights(a: Seq<UnitResults>, b: Seq<UnitResults>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).valid == a[i].valid && b[i].weight == a[i].weight }
proof fn lemma_same_weights(a: Seq<UnitResults>, b: Seq<UnitResults>, ks: Seq<HandRange>)
    requires weights_shown(a, ks), same_weights(a, b), proper(ks),
    ensures weights_shown(b, ks),
{ assert forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() implies has_weight(b[#[trigger] slot(ks, p, k)], ks[p].hands@[k].2 as int) by { lemma_slot(ks, p, k); let i = slot(ks, p, k); assert(has_weight(a[slot(ks, p, k)], ks[p].hands@[k].2 as int)); assert(b[i].valid == a[i].valid); } }
proof fn lemma_weights_right(hs: Seq<HandRange>, ks: Seq<HandRange>, board: u64, dead: u64, t: Team, h: History, r: SimulationResults, z: SimulationResults)
    requires left_over(hs, ks, board, dead), proper(ks), history(t, h, r), workers_ok(t, ks.len() as int), zeroed(t.start@, ks.len() as int), same_counts(r, z), weights_shown(z.hand_results@, ks), forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) ==> #[trigger] all_quiet(t, i),
    ensures weights_right(hs, board, dead, z),
{
    assert forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) implies unheld(#[trigger] z.hand_results@[i]) by { assert(all_quiet(t, i)); lemma_stays_zero(t, h, r, ks.len() as int, i); assert(same_unit(r.hand_results@[i], z.hand_results@[i])); }
    assert(weighted_hands(z, ks));
}
proof fn lemma_same_slots(ks: Seq<HandRange>, rs: Seq<HandRange>, i: int)
    requires reduced(ks, rs), no_slot(ks, i),
    ensures no_slot(rs, i),
{ assert forall|p: int, k: int| 0 <= p < rs.len() && 0 <= k < rs[p].hands.len() implies #[trigger] slot(rs, p, k) != i by { assert(lowest(ks[p], rs[p])); assert(rs[p].hands@[k].0 == ks[p].hands@[k].0); assert(slot(ks, p, k) != i); } }
proof fn lemma_all_quiet_exact(sim: Simulator, ks: Seq<HandRange>, rs: Seq<HandRange>, board: u64, dead: u64, t: Team)
    requires reduced(ks, rs), same_game(sim, game(rs, board, dead)), exact_workers(sim, t.worlds@),
    ensures forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) ==> #[trigger] all_quiet(t, i),
{
    assert forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) implies #[trigger] all_quiet(t, i) by {
        lemma_same_slots(ks, rs, i);
        assert forall|k: int| 0 <= k < t.worlds@.len() implies quiet((#[trigger] t.worlds@[k]).log@, i) by { assert(exact_worker(sim, t.worlds@[k])); lemma_quiet_exact(sim, game(rs, board, dead), t.worlds@[k], i); }
    }
}
proof fn lemma_all_quiet_walks(sim: Simulator, ks: Seq<HandRange>, rs: Seq<HandRange>, board: u64, dead: u64, t: Team)
    requires reduced(ks, rs), same_game(sim, game(rs, board, dead)), walkers(sim, t, t.worlds@),
    ensures forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) ==> #[trigger] all_quiet(t, i),
{
    assert forall|i: int| 0 <= i < 1326 * ks.len() && no_slot(ks, i) implies #[trigger] all_quiet(t, i) by {
        lemma_same_slots(ks, rs, i);
        assert forall|k: int| 0 <= k < t.worlds@.len() implies quiet((#[trigger] t.worlds@[k]).log@, i) by { assert(walker(sim, t, t.worlds@[k])); lemma_quiet_walk(sim, game(rs, board, dead), t, t.worlds@[k], i); }
    }
}
// ---- C16
proof fn lemma_shares(t: Team, h: History, r: SimulationResults, n: int, e: SimulationResults, z: SimulationResults)
    requires history(t, h, r), workers_ok(t, n), zeroed(t.start@, n), same_counts(r, z), shares_out(e), e.equities == z.equities, e.wins == z.wins, e.wins_by_mask == z.wins_by_mask,
    ensures consistent(z), z.wins.len() == n, shares_out(z),
{ lemma_left_at(t, h, r, n, h.whole.len() as int); lemma_same_consistent(r, z); }
// ---- C17
proof fn lemma_rated_sums(a: Seq<UnitResults>, b: Seq<UnitResults>, lo: int, k: int)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> rated(a[i], #[trigger] b[i]), 0 <= lo, lo + k <= a.len(),
    ensures n_of(b, lo, k) == n_of(a, lo, k), t_of(b, lo, k) == t_of(a, lo, k), w_of(b, lo, k) == w_of(a, lo, k), e_of(b, lo, k) == e_of(a, lo, k), c_of(b, lo, k) == c_of(a, lo, k), g_of(b, lo, k) == g_of(a, lo, k),
    decreases k,
{ if k > 0 { lemma_rated_sums(a, b, lo, k - 1); assert(rated(a[lo + k - 1], b[lo + k - 1])); } }
spec fn keeps_shares(a: SimulationResults, b: SimulationResults) -> bool { a.hand_results.len() == b.hand_results.len() && forall|i: int| 0 <= i < a.hand_results.len() ==> (#[trigger] b.hand_results@[i]).equity == a.hand_results@[i].equity && same_unit(a.hand_results@[i], b.hand_results@[i]) }
proof fn lemma_classes(t: Team, h: History, r: SimulationResults, n: int, a: SimulationResults, b: SimulationResults, z: SimulationResults)
    requires history(t, h, r), workers_ok(t, n), zeroed(t.start@, n), 1 <= n <= 9, keeps_shares(r, a), final_classes(a, b, n), z.hand_results == b.hand_results, z.combo_results == b.combo_results,
    ensures classes_add_up(z, n),
{
    lemma_left_at(t, h, r, n, h.whole.len() as int);
    let m = h.whole.len() as int;
    assert forall|i: int| 0 <= i < 1326 * n implies own_rates(#[trigger] z.hand_results@[i]) by {
        let (u, v, w) = (r.hand_results@[i], a.hand_results@[i], b.hand_results@[i]);
        assert(rated(a.hand_results@[i], b.hand_results@[i]));
        assert(v.equity == u.equity && same_unit(u, v));
        if m > 0 { assert(fair_share(h.rs[m].hand_results@[i])); } else { assert(zero_unit(t.start@.hand_results@[i])); }
    }
    assert forall|p: int, c: int| 0 <= p < n && 0 <= c < 169 implies class_record(#[trigger] z.combo_results@[169 * p + c], z.hand_results@, 1326 * p + class_start(c), class_size(c)) by {
        assert(class_record(b.combo_results@[169 * p + c], a.hand_results@, 1326 * p + class_start(c), class_size(c)));
        assert(0 <= class_start(c) && class_start(c) + class_size(c) <= 1326);
        assert(1326 * p + 1326 <= 1326 * n);
        lemma_rated_sums(a.hand_results@, b.hand_results@, 1326 * p + class_start(c), class_size(c));
    }
}
proof fn lemma_within_class(h: Seq<UnitResults>, lo: int, k: int)
    requires 0 <= lo, lo + k <= h.len(), forall|i: int| 0 <= i < h.len() ==> within(#[trigger] h[i]),
    ensures w_of(h, lo, k) <= t_of(h, lo, k), e_of(h, lo, k) <= t_of(h, lo, k),
    decreases k,
{ if k > 0 { lemma_within_class(h, lo, k - 1); assert(within(h[lo + k - 1])); } }
proof fn lemma_within_label(h: Seq<UnitResults>, l: int, lo: int, k: int)
    requires 0 <= lo, lo + k <= h.len(), forall|i: int| 0 <= i < h.len() ==> within(#[trigger] h[i]),
    ensures lw_of(h, l, lo, k) <= lt_of(h, l, lo, k), le_of(h, l, lo, k) <= lt_of(h, l, lo, k),
    decreases k,
{ if k > 0 { lemma_within_label(h, l, lo, k - 1); assert(within(h[lo + k - 1])); } }
// no record has more wins or ties than deals: the condition under which class_record and
// label_record give the figures always holds
proof fn theorem_records_within(r: SimulationResults, p: int, c: int, l: int)
    requires consistent(r), 0 <= p < r.wins.len(), 0 <= c < 169,
    ensures
        w_of(r.hand_results@, 1326 * p + class_start(c), class_size(c)) <= t_of(r.hand_results@, 1326 * p + class_start(c), class_size(c)), // [C17]
        e_of(r.hand_results@, 1326 * p + class_start(c), class_size(c)) <= t_of(r.hand_results@, 1326 * p + class_start(c), class_size(c)), // [C17]
        lw_of(r.hand_results@, l, 1326 * p, 1326) <= lt_of(r.hand_results@, l, 1326 * p, 1326), // [C18]
        le_of(r.hand_results@, l, 1326 * p, 1326) <= lt_of(r.hand_results@, l, 1326 * p, 1326), // [C18]
{
    assert(class_start(c) + class_size(c) <= 1326);
    assert(1326 * p + 1326 <= 1326 * r.wins.len());
    lemma_within_class(r.hand_results@, 1326 * p + class_start(c), class_size(c));
    lemma_within_label(r.hand_results@, l, 1326 * p, 1326);
}
// ---- C18
spec fn same_ranks(a: Seq<UnitResults>, b: Seq<UnitResults>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).rank == a[i].rank && b[i].draw == a[i].draw }
proof fn lemma_labels_stay(ks: Seq<HandRange>, board: Seq<bool>, r2: SimulationResults, z: SimulationResults)
    requires proper(ks), labels_known(r2.hand_results@, ks, board), same_ranks(r2.hand_results@, z.hand_results@), r2.hand_results.len() == 1326 * ks.len(),
    ensures forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() ==> labels_of(z.hand_results@[#[trigger] slot(ks, p, k)], ks[p].hands@[k], board),
{
    assert forall|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() implies labels_of(z.hand_results@[#[trigger] slot(ks, p, k)], ks[p].hands@[k], board) by {
        lemma_slot(ks, p, k); let i = slot(ks, p, k);
        assert(labels_of(r2.hand_results@[slot(ks, p, k)], ks[p].hands@[k], board));
        assert(z.hand_results@[i].rank == r2.hand_results@[i].rank);
    }
}
proof fn lemma_ranks_known(ks: Seq<HandRange>, board: u64, r2: SimulationResults, z: SimulationResults)
    requires proper(ks), labels_known(r2.hand_results@, ks, mask_cards(board)), same_ranks(r2.hand_results@, z.hand_results@), weights_shown(z.hand_results@, ks),
    ensures forall|i: int| 0 <= i < z.hand_results.len() ==> (#[trigger] z.hand_results@[i]).valid ==> z.hand_results@[i].rank < 9,
{
    lemma_labels_stay(ks, mask_cards(board), r2, z);
    assert forall|i: int| 0 <= i < z.hand_results.len() implies (#[trigger] z.hand_results@[i]).valid ==> z.hand_results@[i].rank < 9 by {
        if !no_slot(ks, i) { let (p, k) = choose|p: int, k: int| 0 <= p < ks.len() && 0 <= k < ks[p].hands.len() && #[trigger] slot(ks, p, k) == i; assert(labels_of(z.hand_results@[slot(ks, p, k)], ks[p].hands@[k], mask_cards(board))); }
    }
}
proof fn lemma_labels_right(hs: Seq<HandRange>, ks: Seq<HandRange>, board: u64, dead: u64, r2: SimulationResults, a: SimulationResults, z: SimulationResults)
    requires left_over(hs, ks, board, dead), proper(ks), size(mask_cards(board)) >= 3, labels_known(r2.hand_results@, ks, mask_cards(board)), same_ranks(r2.hand_results@, a.hand_results@), r2.hand_results.len() == 1326 * ks.len(), final_labels(a, z, ks.len() as int),
    ensures labels_right(hs, board, dead, z),
{
    lemma_labels_stay(ks, mask_cards(board), r2, z);
    assert(z.hand_results == a.hand_results);
    assert(labelled_hands(z, ks, board));
}
// ---- C24
proof fn lemma_alone_walk(sim: Simulator, t: Team, w: World, r: SimulationResults, z: SimulationResults, n: int)
    requires alone(), walker(sim, t, w), r == w.results, zeroed(t.start@, n), t.start@.eval_count == 0, t.start@.batch_count.r@ == 0real, z.eval_count == r.eval_count, same_stats(r, z),
    ensures whole_batches(z), !cancelled() ==> target_reached(z, sim.stdev_target.r@) || gave_up(sim, own_generator()),
{
    let (a, xs) = choose|a: World, xs: Seq<Sample>| idle(t, a) && #[trigger] walked(sim, a, w, xs);
    assert(walked(sim, a, w, xs));
    assert(a.results == t.start@);
    let k = w.log@.len() - 1;
    assert((4096 * k) as real == 4096real * (k as real));
    assert(rl(4096) == 4096real);
}
// ---- what the threads find
proof fn lemma_ready(hs: Seq<HandRange>, ks: Seq<HandRange>, rs: Seq<HandRange>, board: u64, dead: u64, gs: Seq<CombinedRange>)
    requires prepared(hs, ks, rs, board, dead), proper(rs), light(rs), groups_of(gs, rs), 1 <= hs.len() <= 9, forall|a: int| 0 <= a < gs.len() ==> (#[trigger] gs[a]).size > 0,
    ensures grouped(gs, rs), groups_ok(gs, hs.len() as int), deals(gs, gs.len() as int) > 0, countable(hs, board, dead) ==> deals(gs, gs.len() as int) + 2000000 <= u64::MAX,
        forall|p: int| 0 <= p < hs.len() ==> (#[trigger] ks[p]).hands.len() > 0, forall|p: int| 0 <= p < hs.len() ==> kept((#[trigger] hs[p]).hands@, board, dead).len() > 0,
{
    lemma_groups_ok(gs, rs);
    theorem_every_deal(gs, game(rs, board, dead), -1);
    lemma_same_choices(ks, rs, 0);
    lemma_some_hands(gs, ks, rs);
    assert forall|p: int| 0 <= p < hs.len() implies kept((#[trigger] hs[p]).hands@, board, dead).len() > 0 by { assert(ks[p].hands@ == kept(hs[p].hands@, board, dead)); }
}
proof fn lemma_idle(t: Team, w: World, n: int)
    requires idle(t, w), zeroed(t.start@, n),
    ensures consistent(w.results), w.results.wins.len() == n,
{ }
proof fn lemma_in_range(t: Team, x: int)
    requires sent_by_one(t, x), forall|k: int| 0 <= k < t.worlds@.len() ==> percentages((#[trigger] t.worlds@[k]).out.sent@),
    ensures 0 <= x <= 100,
{ let k = choose|k: int| 0 <= k < t.worlds@.len() && #[trigger] t.worlds@[k].out.sent@.contains(x); let s = t.worlds@[k].out.sent@; let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(percentages(s)); assert(0 <= s[j] <= 100); }
// ---- C21: multiplying the weights of a range by a factor changes nothing
pub open spec fn scaled(a: Seq<RangeCombo>, b: Seq<RangeCombo>, m: int, n: int) -> bool { a.len() == b.len() && m > 0 && n > 0 && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).0 == b[k].0 && a[k].1 == b[k].1 && m * a[k].2 == n * b[k].2 }
pub open spec fn same_ratios(a: Seq<HandRange>, b: Seq<HandRange>) -> bool { a.len() == b.len() && forall|p: int| 0 <= p < a.len() ==> exists|m: int, n: int| #[trigger] scaled((#[trigger] a[p]).hands@, b[p].hands@, m, n) }
proof fn lemma_scaled_kept(a: Seq<RangeCombo>, b: Seq<RangeCombo>, m: int, n: int, board: u64, dead: u64)
    requires scaled(a, b, m, n),
    ensures scaled(kept(a, board, dead), kept(b, board, dead), m, n),
    decreases a.len(),
{
    reveal(Seq::filter);
    let f = |c: RangeCombo| clear(c, board) && clear(c, dead);
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        assert(scaled(x, y, m, n)) by { assert forall|k: int| 0 <= k < x.len() implies (#[trigger] x[k]).0 == y[k].0 && x[k].1 == y[k].1 && m * x[k].2 == n * y[k].2 by { assert(a[k].0 == b[k].0 && m * a[k].2 == n * b[k].2); } }
        lemma_scaled_kept(x, y, m, n, board, dead);
        let (u, v) = (a.last(), b.last());
        assert(a[a.len() - 1].0 == b[a.len() - 1].0);
        assert(f(u) == f(v));
        assert(kept(a, board, dead) == if f(u) { kept(x, board, dead).push(u) } else { kept(x, board, dead) });
        assert(kept(b, board, dead) == if f(v) { kept(y, board, dead).push(v) } else { kept(y, board, dead) });
    }
}
proof fn lemma_same_sum_hands(g: Game, h: Game, x: Seq<int>, k: int, i: int)
    requires g.board == h.board, g.base == h.base, g.rs.len() == h.rs.len(), forall|p: int| 0 <= p < g.rs.len() ==> (#[trigger] g.rs[p]).hands@ == h.rs[p].hands@,
    ensures sum_hands(g, x, k, i) == sum_hands(h, x, k, i),
    decreases g.rs.len() - x.len(), k,
{
    if x.len() >= g.rs.len() {
        assert(hands_at(g.rs, x) =~= hands_at(h.rs, x)) by { assert forall|p: int| 0 <= p < g.rs.len() implies hands_at(g.rs, x)[p] == hands_at(h.rs, x)[p] by { assert(g.rs[p].hands@ == h.rs[p].hands@); } }
    } else if k > 0 {
        lemma_same_sum_hands(g, h, x, k - 1, i);
        let p = x.len() as int + 1;
        if p < g.rs.len() { assert(g.rs[p].hands@ == h.rs[p].hands@); }
        lemma_same_sum_hands(g, h, x.push(k - 1), hands_of(g.rs, p), i);
    }
}
pub proof fn theorem_relative_weights(a: Seq<HandRange>, b: Seq<HandRange>, board: u64, dead: u64, r: SimulationResults, s: SimulationResults)
    requires same_ratios(a, b), counts_every_deal(a, board, dead, r), counts_every_deal(b, board, dead, s), consistent(r), consistent(s), r.wins.len() == a.len(), s.wins.len() == b.len(),
    ensures r.wins@ =~= s.wins@, r.wins_by_mask@ =~= s.wins_by_mask@, // [C21]
        forall|p: int| 0 <= p < a.len() ==> (#[trigger] r.ties@[p]).r@ == s.ties@[p].r@, // [C21]
        forall|i: int| 0 <= i < 1326 * a.len() ==> same_figures(#[trigger] r.hand_results@[i], s.hand_results@[i]), // [C21]
        shares_out(r) && shares_out(s) && all_of(tally_of(r.wins_by_mask@), p2(a.len() as int)) > 0 ==> same_equities(r, s), // [C21]
{
    let (ks, rs) = choose|ks: Seq<HandRange>, rs: Seq<HandRange>| #[trigger] prepared(a, ks, rs, board, dead) && exact_counts(r, game(rs, board, dead));
    let (ls, ts) = choose|ls: Seq<HandRange>, ts: Seq<HandRange>| #[trigger] prepared(b, ls, ts, board, dead) && exact_counts(s, game(ts, board, dead));
    let (g, h) = (game(rs, board, dead), game(ts, board, dead));
    assert forall|p: int| 0 <= p < g.rs.len() implies (#[trigger] g.rs[p]).hands@ == h.rs[p].hands@ by {
        assert(ks[p].hands@ == kept(a[p].hands@, board, dead)); assert(ls[p].hands@ == kept(b[p].hands@, board, dead));
        let (m, n) = choose|m: int, n: int| #[trigger] scaled(a[p].hands@, b[p].hands@, m, n);
        lemma_scaled_kept(a[p].hands@, b[p].hands@, m, n, board, dead);
        assert(lowest(ks[p], rs[p]) && lowest(ls[p], ts[p]));
        theorem_scale(ks[p], ls[p], rs[p], ts[p], m, n);
    }
    assert forall|i: int| #[trigger] every_deal(g, i) == every_deal(h, i) by { if g.rs.len() > 0 { assert(g.rs[0].hands@ == h.rs[0].hands@); } lemma_same_sum_hands(g, h, Seq::<int>::empty(), hands_of(g.rs, 0), i); }
    let (c, d) = (|i: int| every_deal(g, i), |i: int| every_deal(h, i));
    assert(r.wins_by_mask@ =~= s.wins_by_mask@) by { assert forall|w: int| 0 <= w < r.wins_by_mask.len() implies r.wins_by_mask@[w] == s.wins_by_mask@[w] by { assert(r.wins_by_mask@[w] == c(-1)[w] && s.wins_by_mask@[w] == d(-1)[w]); assert(every_deal(g, -1) == every_deal(h, -1)); } }
    assert forall|i: int| 0 <= i < 1326 * a.len() implies same_figures(#[trigger] r.hand_results@[i], s.hand_results@[i]) by { assert(unit_is(r.hand_results@[i], c(i), i / 1326) && unit_is(s.hand_results@[i], d(i), i / 1326)); assert(every_deal(g, i) == every_deal(h, i)); }
    let t = tally_of(r.wins_by_mask@);
    assert(r.wins@ =~= s.wins@) by { assert forall|p: int| 0 <= p < a.len() implies r.wins@[p] == s.wins@[p] by { assert(r.wins@[p] == won(t, p, 512) && s.wins@[p] == won(t, p, 512)); } }
    assert forall|p: int| 0 <= p < a.len() implies (#[trigger] r.ties@[p]).r@ == s.ties@[p].r@ by { assert(r.ties@[p].r@ == split(t, p, 512) && s.ties@[p].r@ == split(t, p, 512)); }
}
pub open spec fn same_figures(a: UnitResults, b: UnitResults) -> bool { a.total == b.total && a.wins == b.wins && a.ties == b.ties && a.corrected_ties.r@ == b.corrected_ties.r@ }
pub open spec fn same_equities(a: SimulationResults, b: SimulationResults) -> bool { a.equities.len() == b.equities.len() && forall|p: int| 0 <= p < a.equities.len() ==> (#[trigger] a.equities@[p]).r@ == b.equities@[p].r@ }
