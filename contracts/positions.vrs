// ------------------------------------------------------------------------------------------
// The positions and the choices of joint holdings.
proof fn lemma_quot(gs: Seq<CombinedRange>, n: int, j: int, k: int)
    requires groups_ok(gs, n), 0 <= j, 0 <= k <= gs.len(),
    ensures 0 <= quot(gs, j, k) <= j,
    decreases k,
{
    if k > 0 { lemma_quot(gs, n, j, k - 1); assert(group_ok(gs[k - 1], n)); let (x, y) = (quot(gs, j, k - 1), gs[k - 1].size as int); assert(0 <= x / y <= x) by (nonlinear_arith) requires x >= 0, y > 0; }
}
proof fn lemma_picks_at(gs: Seq<CombinedRange>, n: int, j: int)
    requires groups_ok(gs, n), 0 <= j,
    ensures choice(gs, picks_at(gs, j)),
{ assert forall|a: int| 0 <= a < gs.len() implies 0 <= #[trigger] picks_at(gs, j)[a] < gs[a].combos.len() by { lemma_quot(gs, n, j, a); assert(group_ok(gs[a], n)); let (x, y) = (quot(gs, j, a), gs[a].size as int); assert(0 <= x % y < y) by (nonlinear_arith) requires y > 0; } }
// two positions with the same choices are the same
proof fn lemma_same_quot(gs: Seq<CombinedRange>, n: int, i: int, j: int, k: int)
    requires groups_ok(gs, n), 0 <= i, 0 <= j, 0 <= k <= gs.len(), picks_at(gs, i) == picks_at(gs, j), quot(gs, i, k) == quot(gs, j, k),
    ensures i == j,
    decreases k,
{
    if k > 0 {
        assert(group_ok(gs[k - 1], n));
        assert(picks_at(gs, i)[k - 1] == picks_at(gs, j)[k - 1]);
        let (x, y, z) = (quot(gs, i, k - 1), quot(gs, j, k - 1), gs[k - 1].size as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, z); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, z);
        assert(picks_at(gs, i)[k - 1] == x % z && picks_at(gs, j)[k - 1] == y % z);
        assert(x / z == y / z);
        assert(x == y);
        lemma_same_quot(gs, n, i, j, k - 1);
    }
}
// a position below the number of choices
proof fn lemma_quot_bound(gs: Seq<CombinedRange>, n: int, j: int, k: int)
    requires groups_ok(gs, n), 0 <= j < deals(gs, gs.len() as int), 0 <= k <= gs.len(),
    ensures quot(gs, j, k) * deals(gs, k) <= j,
    decreases k,
{
    if k > 0 {
        lemma_quot_bound(gs, n, j, k - 1);
        assert(group_ok(gs[k - 1], n)); lemma_sizes(gs, n);
        lemma_deals(gs, k - 1, k - 1);
        let (x, y, p) = (quot(gs, j, k - 1), gs[k - 1].size as int, deals(gs, k - 1));
        lemma_quot(gs, n, j, k - 1);
        assert((x / y) * y <= x) by (nonlinear_arith) requires y > 0;
        assert((x / y) * (p * y) <= x * p) by (nonlinear_arith) requires (x / y) * y <= x, p > 0;
    }
}
// the position of given choices
spec fn position(gs: Seq<CombinedRange>, d: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { position(gs, d, k - 1) + d[k - 1] * deals(gs, k - 1) } }
proof fn lemma_position(gs: Seq<CombinedRange>, n: int, d: Seq<int>, k: int)
    requires groups_ok(gs, n), choice(gs, d), 0 <= k <= gs.len(),
    ensures 0 <= position(gs, d, k) < deals(gs, k),
    decreases k,
{
    lemma_sizes(gs, n);
    if k > 0 {
        lemma_position(gs, n, d, k - 1); lemma_deals(gs, k - 1, k - 1);
        assert(group_ok(gs[k - 1], n));
        let (x, p, c, y) = (position(gs, d, k - 1), deals(gs, k - 1), d[k - 1], gs[k - 1].size as int);
        assert(0 <= x + c * p < p * y) by (nonlinear_arith) requires 0 <= x < p, 0 <= c <= y - 1, p > 0;
    }
}
// what is left of a position after the first k digits
spec fn upper(gs: Seq<CombinedRange>, d: Seq<int>, k: int, m: int) -> int decreases m - k { if k >= m { 0 } else { d[k] + gs[k].size * upper(gs, d, k + 1, m) } }
proof fn lemma_upper(gs: Seq<CombinedRange>, n: int, d: Seq<int>, k: int, m: int)
    requires groups_ok(gs, n), choice(gs, d), 0 <= k <= m <= gs.len(),
    ensures upper(gs, d, k, m) >= 0, position(gs, d, m) == position(gs, d, k) + deals(gs, k) * upper(gs, d, k, m),
    decreases m - k,
{
    if k < m {
        lemma_upper(gs, n, d, k + 1, m);
        assert(group_ok(gs[k], n));
        let (p, y, u, c) = (deals(gs, k), gs[k].size as int, upper(gs, d, k + 1, m), d[k]);
        assert(deals(gs, k + 1) == p * y);
        assert(position(gs, d, k + 1) == position(gs, d, k) + c * p);
        assert(c * p + (p * y) * u == p * (c + y * u)) by (nonlinear_arith);
        assert(c + y * u >= 0) by (nonlinear_arith) requires c >= 0, y > 0, u >= 0;
    } else { assert(deals(gs, k) * 0 == 0); }
}
proof fn lemma_quot_upper(gs: Seq<CombinedRange>, n: int, d: Seq<int>, k: int)
    requires groups_ok(gs, n), choice(gs, d), 0 <= k <= gs.len(),
    ensures quot(gs, position(gs, d, gs.len() as int), k) == upper(gs, d, k, gs.len() as int), k < gs.len() ==> digit(gs, position(gs, d, gs.len() as int), k) == d[k],
    decreases k,
{
    let m = gs.len() as int;
    if k > 0 {
        lemma_quot_upper(gs, n, d, k - 1);
        assert(group_ok(gs[k - 1], n)); lemma_upper(gs, n, d, k, m);
        let (y, u, c, x) = (gs[k - 1].size as int, upper(gs, d, k, m), d[k - 1], upper(gs, d, k - 1, m));
        assert(x == c + y * u);
        assert(x == u * y + c) by (nonlinear_arith) requires x == c + y * u;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, y, u, c);
    } else { lemma_upper(gs, n, d, 0, m); assert(deals(gs, 0) * upper(gs, d, 0, m) == upper(gs, d, 0, m)); }
    if k < m {
        assert(group_ok(gs[k], n)); lemma_upper(gs, n, d, k + 1, m);
        let (y, u, c, x) = (gs[k].size as int, upper(gs, d, k + 1, m), d[k], upper(gs, d, k, m));
        assert(x == c + y * u);
        assert(x == u * y + c) by (nonlinear_arith) requires x == c + y * u;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, y, u, c);
    }
}
// C13: every choice of joint holdings is at exactly one of the positions
pub proof fn theorem_positions(gs: Seq<CombinedRange>, n: int)
    requires groups_ok(gs, n),
    ensures forall|j: int| 0 <= j ==> choice(gs, #[trigger] picks_at(gs, j)),
        forall|i: int, j: int| 0 <= i < deals(gs, gs.len() as int) && 0 <= j < deals(gs, gs.len() as int) && #[trigger] picks_at(gs, i) == #[trigger] picks_at(gs, j) ==> i == j,
        forall|d: Seq<int>| #[trigger] choice(gs, d) ==> exists|j: int| 0 <= j < deals(gs, gs.len() as int) && #[trigger] picks_at(gs, j) == d,
{
    let m = gs.len() as int;
    assert forall|j: int| 0 <= j implies choice(gs, #[trigger] picks_at(gs, j)) by { lemma_picks_at(gs, n, j); }
    assert forall|i: int, j: int| 0 <= i < deals(gs, m) && 0 <= j < deals(gs, m) && #[trigger] picks_at(gs, i) == #[trigger] picks_at(gs, j) implies i == j by {
        lemma_quot_bound(gs, n, i, m); lemma_quot_bound(gs, n, j, m); lemma_quot(gs, n, i, m); lemma_quot(gs, n, j, m);
        let (x, y, p) = (quot(gs, i, m), quot(gs, j, m), deals(gs, m));
        assert(x < 1) by (nonlinear_arith) requires x >= 0, x * p <= i, i < p, p > 0;
        assert(y < 1) by (nonlinear_arith) requires y >= 0, y * p <= j, j < p, p > 0;
        lemma_same_quot(gs, n, i, j, m);
    }
    assert forall|d: Seq<int>| #[trigger] choice(gs, d) implies exists|j: int| 0 <= j < deals(gs, m) && #[trigger] picks_at(gs, j) == d by {
        lemma_position(gs, n, d, m);
        let j = position(gs, d, m);
        assert forall|k: int| 0 <= k < m implies picks_at(gs, j)[k] == d[k] by { lemma_quot_upper(gs, n, d, k); }
        assert(picks_at(gs, j) =~= d);
    }
}
