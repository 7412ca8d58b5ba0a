// ------------------------------------------------------------------------------------------
// Enumerating the boards: cnt is the number of ways to complete the board b with r of the
// cards d (those below c) so that the winner set is w.
pub open spec fn cnt(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, c: int, w: int) -> int
    decreases c,
{
    if r <= 0 { b2i(winner_set(strengths(b, hs)) == w) }
    else if c <= 0 { 0 }
    else if d[c - 1] { cnt(hs, b.update(c - 1, true), d, r - 1, c - 1, w) + cnt(hs, b, d, r, c - 1, w) }
    else { cnt(hs, b, d, r, c - 1, w) }
}
// all completions
pub open spec fn boards(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, w: int) -> int { cnt(hs, b, d, r, 52, w) }
// weight x for every completion
pub open spec fn all_boards(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, x: int) -> Seq<int> { Seq::new(512, |w: int| x * boards(hs, b, d, r, w)) }
proof fn lemma_below(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, e: Seq<bool>, r: int, c: int, w: int)
    requires 0 <= c <= 52, d.len() == 52, e.len() == 52, forall|x: int| 0 <= x < c ==> d[x] == e[x],
    ensures cnt(hs, b, d, r, c, w) == cnt(hs, b, e, r, c, w),
    decreases c,
{ if r > 0 && c > 0 { lemma_below(hs, b, d, e, r, c - 1, w); if d[c - 1] { lemma_below(hs, b.update(c - 1, true), d, e, r - 1, c - 1, w); } } }
// a card of the deck is on the board or not
proof fn lemma_split_card(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, c: int, x: int, w: int)
    requires 0 <= x < c <= 52, d.len() == 52, b.len() == 52, d[x], r >= 1,
    ensures cnt(hs, b, d, r, c, w) == cnt(hs, b.update(x, true), d.update(x, false), r - 1, c, w) + cnt(hs, b, d.update(x, false), r, c, w),
    decreases c,
{
    let e = d.update(x, false);
    let bx = b.update(x, true);
    if c - 1 == x {
        lemma_below(hs, bx, d, e, r - 1, x, w);
        lemma_below(hs, b, d, e, r, x, w);
        assert(cnt(hs, b, d, r, c, w) == cnt(hs, bx, d, r - 1, x, w) + cnt(hs, b, d, r, x, w));
        assert(!e[c - 1]);
        assert(cnt(hs, b, e, r, c, w) == cnt(hs, b, e, r, x, w));
        assert(cnt(hs, bx, e, r - 1, c, w) == cnt(hs, bx, e, r - 1, x, w));
    } else {
        lemma_split_card(hs, b, d, r, c - 1, x, w);
        assert(e[c - 1] == d[c - 1]);
        if d[c - 1] {
            let y = c - 1;
            let by = b.update(y, true);
            assert(by.update(x, true) =~= bx.update(y, true));
            assert(cnt(hs, b, d, r, c, w) == cnt(hs, by, d, r - 1, y, w) + cnt(hs, b, d, r, y, w));
            assert(cnt(hs, b, e, r, c, w) == cnt(hs, by, e, r - 1, y, w) + cnt(hs, b, e, r, y, w));
            if r > 1 {
                lemma_split_card(hs, by, d, r - 1, y, x, w);
                assert(cnt(hs, bx, e, r - 1, c, w) == cnt(hs, bx.update(y, true), e, r - 2, y, w) + cnt(hs, bx, e, r - 1, y, w));
            } else {
                assert(cnt(hs, by, d, 0, y, w) == cnt(hs, by, e, 0, y, w));
                assert(cnt(hs, bx, e, 0, c, w) == cnt(hs, bx, e, 0, y, w));
            }
        } else {
            assert(cnt(hs, b, d, r, c, w) == cnt(hs, b, d, r, c - 1, w));
            assert(cnt(hs, b, e, r, c, w) == cnt(hs, b, e, r, c - 1, w));
            assert(cnt(hs, bx, e, r - 1, c, w) == cnt(hs, bx, e, r - 1, c - 1, w));
        }
    }
}
// nothing left to deal
proof fn lemma_no_boards(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, c: int, w: int)
    requires 0 <= c <= 52, r >= 1, forall|x: int| 0 <= x < c ==> !#[trigger] d[x],
    ensures cnt(hs, b, d, r, c, w) == 0,
    decreases c,
{ if c > 0 { assert(!d[c - 1]); lemma_no_boards(hs, b, d, r, c - 1, w); } }
// ---- boards that come to the same
// no flush in suit k, whatever r more cards come
pub open spec fn hopeless(hs: Seq<Seq<bool>>, b: Seq<bool>, r: int, k: int) -> bool { forall|p: int| 0 <= p < hs.len() ==> suited(#[trigger] hs[p], k) + suited(b, k) + r < 5 }
pub open spec fn suit_same(hs: Seq<Seq<bool>>, b: Seq<bool>, e: Seq<bool>, r: int, k: int) -> bool { suit_ranks(b, k) =~= suit_ranks(e, k) || (hopeless(hs, b, r, k) && hopeless(hs, e, r, k)) }
pub open spec fn alike(hs: Seq<Seq<bool>>, b: Seq<bool>, e: Seq<bool>, r: int) -> bool {
    counts(b) =~= counts(e) && size(b) == size(e) && forall|k: int| 0 <= k < 4 ==> #[trigger] suit_same(hs, b, e, r, k)
}
pub open spec fn holes(hs: Seq<Seq<bool>>) -> bool { forall|p: int| 0 <= p < hs.len() ==> (#[trigger] hs[p]).len() == 52 && size(hs[p]) == 2 }
pub open spec fn apart_from(hs: Seq<Seq<bool>>, b: Seq<bool>) -> bool { forall|p: int| 0 <= p < hs.len() ==> disjoint(b, #[trigger] hs[p]) }
proof fn lemma_union_counts(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == 52, t.len() == 52, disjoint(s, t),
    ensures forall|r: int| 0 <= r < 13 ==> #[trigger] counts(union(s, t))[r] == counts(s)[r] + counts(t)[r],
        forall|k: int, r: int| 0 <= k < 4 && 0 <= r < 13 ==> #[trigger] suit_ranks(union(s, t), k)[r] == suit_ranks(s, k)[r] + suit_ranks(t, k)[r],
{
    let u = union(s, t);
    assert forall|r: int| 0 <= r < 13 implies #[trigger] counts(u)[r] == counts(s)[r] + counts(t)[r] by {
        assert(u[4 * r] == (s[4 * r] || t[4 * r])); assert(u[4 * r + 1] == (s[4 * r + 1] || t[4 * r + 1])); assert(u[4 * r + 2] == (s[4 * r + 2] || t[4 * r + 2])); assert(u[4 * r + 3] == (s[4 * r + 3] || t[4 * r + 3]));
    }
    assert forall|k: int, r: int| 0 <= k < 4 && 0 <= r < 13 implies #[trigger] suit_ranks(u, k)[r] == suit_ranks(s, k)[r] + suit_ranks(t, k)[r] by { assert(u[4 * r + k] == (s[4 * r + k] || t[4 * r + k])); }
}
proof fn lemma_same_strength(hs: Seq<Seq<bool>>, b: Seq<bool>, e: Seq<bool>, p: int)
    requires 0 <= p < hs.len(), holes(hs), b.len() == 52, e.len() == 52, size(b) <= 5, alike(hs, b, e, 0), apart_from(hs, b), apart_from(hs, e),
    ensures strength(union(b, hs[p])) == strength(union(e, hs[p])),
{
    let h = hs[p];
    assert(disjoint(b, h) && disjoint(e, h));
    let (u, v) = (union(b, h), union(e, h));
    lemma_union(b, h); lemma_union(e, h); lemma_union_counts(b, h); lemma_union_counts(e, h);
    assert(counts(u) =~= counts(v)) by { assert forall|r: int| 0 <= r < 13 implies counts(u)[r] == counts(v)[r] by { assert(counts(b)[r] == counts(e)[r]); } }
    assert forall|k: int| 0 <= k < 4 implies (#[trigger] suited(u, k) >= 5 <==> suited(v, k) >= 5) && (suited(u, k) >= 5 ==> suit_ranks(u, k) =~= suit_ranks(v, k)) by {
        assert(suit_same(hs, b, e, 0, k));
        assert(suited(u, k) == suited(b, k) + suited(h, k) && suited(v, k) == suited(e, k) + suited(h, k));
        if suit_ranks(b, k) =~= suit_ranks(e, k) { assert(suit_ranks(u, k) =~= suit_ranks(v, k)) by { assert forall|r: int| 0 <= r < 13 implies suit_ranks(u, k)[r] == suit_ranks(v, k)[r] by { assert(suit_ranks(b, k)[r] == suit_ranks(e, k)[r]); } } }
    }
    if flush_in(u) {
        let k: int = if suited(u, 0) >= 5 { 0 } else if suited(u, 1) >= 5 { 1 } else if suited(u, 2) >= 5 { 2 } else { 3 };
        assert(suited(u, k) >= 5);
        lemma_flush(u, k); lemma_flush(v, k);
    } else {
        assert(suited(u, 0) < 5 && suited(u, 1) < 5 && suited(u, 2) < 5 && suited(u, 3) < 5);
        assert(!flush_in(v)) by { assert(suited(v, 0) < 5 && suited(v, 1) < 5 && suited(v, 2) < 5 && suited(v, 3) < 5); }
        lemma_no_flush(u); lemma_no_flush(v);
    }
}
proof fn lemma_alike_insert(hs: Seq<Seq<bool>>, b: Seq<bool>, e: Seq<bool>, r: int, x: int)
    requires b.len() == 52, e.len() == 52, 0 <= x < 52, !b[x], !e[x], alike(hs, b, e, r),
    ensures alike(hs, b.update(x, true), e.update(x, true), r - 1),
{
    let (f, g) = (b.update(x, true), e.update(x, true));
    lemma_insert(b, x); lemma_insert(e, x);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] suit_same(hs, f, g, r - 1, k) by {
        assert(suit_same(hs, b, e, r, k));
        assert(suited(f, k) == suited(b, k) + b2i(k == x % 4) && suited(g, k) == suited(e, k) + b2i(k == x % 4));
        if suit_ranks(b, k) =~= suit_ranks(e, k) {
            assert forall|q: int| 0 <= q < 13 implies suit_ranks(f, k)[q] == suit_ranks(g, k)[q] by { assert(suit_ranks(b, k)[q] == suit_ranks(e, k)[q]); }
            assert(suit_ranks(f, k) =~= suit_ranks(g, k));
        } else {
            assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], k) + suited(f, k) + (r - 1) < 5 by { assert(suited(hs[p], k) + suited(b, k) + r < 5); }
            assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], k) + suited(g, k) + (r - 1) < 5 by { assert(suited(hs[p], k) + suited(e, k) + r < 5); }
        }
    }
}
proof fn lemma_alike(hs: Seq<Seq<bool>>, b: Seq<bool>, e: Seq<bool>, d: Seq<bool>, r: int, c: int, w: int)
    requires holes(hs), b.len() == 52, e.len() == 52, d.len() == 52, 0 <= c <= 52, r >= 0, size(b) + r <= 5, alike(hs, b, e, r), apart_from(hs, b), apart_from(hs, e), apart_from(hs, d), disjoint(d, b), disjoint(d, e),
    ensures cnt(hs, b, d, r, c, w) == cnt(hs, e, d, r, c, w),
    decreases c,
{
    if r == 0 {
        let (s, t) = (strengths(b, hs), strengths(e, hs));
        assert forall|p: int| 0 <= p < hs.len() implies s[p] == t[p] by { lemma_same_strength(hs, b, e, p); }
        assert(s =~= t);
    } else if c > 0 {
        lemma_alike(hs, b, e, d, r, c - 1, w);
        if d[c - 1] {
            let x = c - 1;
            assert(!b[x] && !e[x]);
            lemma_alike_insert(hs, b, e, r, x);
            lemma_insert(b, x);
            let (f, g, d2) = (b.update(x, true), e.update(x, true), d.update(x, false));
            assert(disjoint(d2, f) && disjoint(d2, g));
            assert forall|p: int| 0 <= p < hs.len() implies disjoint(f, #[trigger] hs[p]) by { assert(disjoint(b, hs[p]) && disjoint(d, hs[p])); }
            assert forall|p: int| 0 <= p < hs.len() implies disjoint(g, #[trigger] hs[p]) by { assert(disjoint(e, hs[p]) && disjoint(d, hs[p])); }
            assert forall|p: int| 0 <= p < hs.len() implies disjoint(d2, #[trigger] hs[p]) by { assert(disjoint(d, hs[p])); }
            lemma_alike(hs, f, g, d2, r - 1, c - 1, w);
            lemma_below(hs, f, d, d2, r - 1, c - 1, w); lemma_below(hs, g, d, d2, r - 1, c - 1, w);
        }
    }
}
// ---- a group of cards of one rank in hopeless suits: only their number matters
pub open spec fn put(b: Seq<bool>, g: Seq<int>, j: int) -> Seq<bool> decreases j { if j <= 0 { b } else { put(b, g, j - 1).update(g[j - 1], true) } }
pub open spec fn take(d: Seq<bool>, g: Seq<int>, j: int) -> Seq<bool> decreases j { if j <= 0 { d } else { take(d, g, j - 1).update(g[j - 1], false) } }
// the cards g of the deck
pub open spec fn group(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] g[i] < 52 && d[g[i]] && g[i] / 4 == g[0] / 4 && hopeless(hs, b, r, g[i] % 4)
    &&& forall|i: int, j: int| 0 <= i < j < g.len() ==> #[trigger] g[i] != #[trigger] g[j]
}
pub open spec fn deal_ok(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int) -> bool {
    holes(hs) && b.len() == 52 && d.len() == 52 && r >= 0 && size(b) + r == 5 && apart_from(hs, b) && apart_from(hs, d) && disjoint(d, b)
}
proof fn lemma_put(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, j: int)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 0 <= j <= g.len(),
    ensures put(b, g, j).len() == 52, forall|x: int| 0 <= x < 52 ==> #[trigger] put(b, g, j)[x] == (b[x] || exists|i: int| 0 <= i < j && #[trigger] g[i] == x),
        size(put(b, g, j)) == size(b) + j, apart_from(hs, put(b, g, j)),
        forall|k: int| 0 <= k < 4 ==> #[trigger] suited(put(b, g, j), k) == suited(b, k) + b2i(exists|i: int| 0 <= i < j && #[trigger] g[i] % 4 == k),
        j > 0 ==> forall|q: int| 0 <= q < 13 ==> #[trigger] counts(put(b, g, j))[q] == counts(b)[q] + if q == g[0] / 4 { j } else { 0 },
    decreases j,
{
    if j > 0 {
        lemma_put(hs, b, d, r, g, j - 1);
        let (e, x) = (put(b, g, j - 1), g[j - 1]);
        assert(!b[x]);
        assert(!e[x]) by { if exists|i: int| 0 <= i < j - 1 && #[trigger] g[i] == x { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] g[i] == x; assert(g[i] != g[j - 1]); } }
        lemma_insert(e, x);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] suited(put(b, g, j), k) == suited(b, k) + b2i(exists|i: int| 0 <= i < j && #[trigger] g[i] % 4 == k) by {
            assert(suited(e, k) == suited(b, k) + b2i(exists|i: int| 0 <= i < j - 1 && #[trigger] g[i] % 4 == k));
            assert(suited(e.update(x, true), k) == suited(e, k) + b2i(k == x % 4));
            if x % 4 == k {
                assert(g[j - 1] % 4 == k);
                if exists|i: int| 0 <= i < j - 1 && #[trigger] g[i] % 4 == k { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] g[i] % 4 == k; assert(g[i] != g[j - 1]); assert(g[i] / 4 == g[j - 1] / 4); }
            } else if exists|i: int| 0 <= i < j && #[trigger] g[i] % 4 == k { let i = choose|i: int| 0 <= i < j && #[trigger] g[i] % 4 == k; assert(i < j - 1); }
        }
        assert forall|y: int| 0 <= y < 52 implies #[trigger] put(b, g, j)[y] == (b[y] || exists|i: int| 0 <= i < j && #[trigger] g[i] == y) by { if y == x { assert(g[j - 1] == y); } }
        assert forall|p: int| 0 <= p < hs.len() implies disjoint(put(b, g, j), #[trigger] hs[p]) by { assert(disjoint(e, hs[p]) && disjoint(d, hs[p])); }
        assert(x / 4 == g[0] / 4);
    } else {
        assert forall|k: int| 0 <= k < 4 implies #[trigger] suited(put(b, g, j), k) == suited(b, k) + b2i(exists|i: int| 0 <= i < j && #[trigger] g[i] % 4 == k) by {}
    }
}
proof fn lemma_take(d: Seq<bool>, g: Seq<int>, j: int)
    requires d.len() == 52, 0 <= j <= g.len(), forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] g[i] < 52,
    ensures take(d, g, j).len() == 52, forall|x: int| 0 <= x < 52 ==> #[trigger] take(d, g, j)[x] == (d[x] && !exists|i: int| 0 <= i < j && #[trigger] g[i] == x),
    decreases j,
{
    if j > 0 {
        lemma_take(d, g, j - 1);
        assert forall|y: int| 0 <= y < 52 implies #[trigger] take(d, g, j)[y] == (d[y] && !exists|i: int| 0 <= i < j && #[trigger] g[i] == y) by { if y == g[j - 1] { assert(g[j - 1] == y); } }
    }
}
// j of the group are on the board, i of it are out of the deck
pub open spec fn ways(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, i: int, j: int, w: int) -> int { if j > r { 0 } else { boards(hs, put(b, g, j), take(d, g, i), r - j, w) } }
proof fn lemma_another_suit(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, i: int, j: int, k: int)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 0 <= j <= i < g.len(), j < r, 0 <= k < 4, !put(b, g, j)[g[i]],
    ensures suit_same(hs, put(b, g, j).update(g[i], true), put(b, g, j + 1), r - j - 1, k),
{
    let (e, x) = (put(b, g, j), g[i]);
    lemma_put(hs, b, d, r, g, j); lemma_put(hs, b, d, r, g, j + 1);
    lemma_insert(e, x);
    let (s, t) = (e.update(x, true), put(b, g, j + 1));
    assert(suited(s, k) == suited(e, k) + b2i(k == x % 4));
    assert(suited(e, k) == suited(b, k) + b2i(exists|i: int| 0 <= i < j && #[trigger] g[i] % 4 == k));
    assert(suited(t, k) == suited(b, k) + b2i(exists|i: int| 0 <= i < j + 1 && #[trigger] g[i] % 4 == k));
    if hopeless(hs, b, r, k) {
        assert(suited(e, k) <= suited(b, k) + j && suited(e, k) <= suited(b, k) + 1);
        if k == x % 4 && exists|l: int| 0 <= l < j && #[trigger] g[l] % 4 == k { let l = choose|l: int| 0 <= l < j && #[trigger] g[l] % 4 == k; assert(g[l] != g[i]); assert(g[l] / 4 == g[i] / 4); }
        lemma_stays(hs, b, s, r, j, k); lemma_stays(hs, b, t, r, j, k);
    } else {
        lemma_untouched(hs, b, d, r, g, i, j, k);
    }
}
proof fn lemma_stays(hs: Seq<Seq<bool>>, b: Seq<bool>, s: Seq<bool>, r: int, j: int, k: int)
    requires hopeless(hs, b, r, k), suited(s, k) <= suited(b, k) + 1, j >= 0,
    ensures hopeless(hs, s, r - j - 1, k),
{ assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], k) + suited(s, k) + (r - j - 1) < 5 by { assert(suited(hs[p], k) + suited(b, k) + r < 5); } }
proof fn lemma_untouched(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, i: int, j: int, k: int)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 0 <= j <= i < g.len(), j < r, 0 <= k < 4, !hopeless(hs, b, r, k),
    ensures suit_ranks(put(b, g, j).update(g[i], true), k) =~= suit_ranks(put(b, g, j + 1), k),
{
    let (e, x, t) = (put(b, g, j), g[i], put(b, g, j + 1));
    let s = e.update(x, true);
    lemma_put(hs, b, d, r, g, j); lemma_put(hs, b, d, r, g, j + 1);
    assert forall|l: int| 0 <= l < g.len() implies #[trigger] g[l] % 4 != k by { assert(hopeless(hs, b, r, g[l] % 4)); }
    assert forall|q: int| 0 <= q < 13 implies suit_ranks(s, k)[q] == suit_ranks(t, k)[q] by {
        let y = 4 * q + k;
        assert(y % 4 == k);
        assert(e[y] == b[y] && t[y] == b[y] && y != x);
    }
}
// another card of the group does as well as the next one
proof fn lemma_another(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, i: int, j: int, w: int)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 0 <= j <= i < g.len(), j < r,
    ensures cnt(hs, put(b, g, j).update(g[i], true), take(d, g, i + 1), r - j - 1, 52, w) == cnt(hs, put(b, g, j + 1), take(d, g, i + 1), r - j - 1, 52, w),
{
    let (e, x) = (put(b, g, j), g[i]);
    lemma_put(hs, b, d, r, g, j); lemma_put(hs, b, d, r, g, j + 1); lemma_take(d, g, i + 1);
    let (s, t, u) = (e.update(x, true), put(b, g, j + 1), take(d, g, i + 1));
    assert(!b[x]);
    assert(!e[x]) by { if exists|k: int| 0 <= k < j && #[trigger] g[k] == x { let k = choose|k: int| 0 <= k < j && #[trigger] g[k] == x; assert(g[k] != g[i]); } }
    lemma_insert(e, x);
    assert(x / 4 == g[0] / 4);
    assert(counts(s) =~= counts(t)) by { assert forall|q: int| 0 <= q < 13 implies counts(s)[q] == counts(t)[q] by { assert(counts(e)[q] == counts(b)[q] + if q == g[0] / 4 { j } else { 0 }) by { if j == 0 { assert(e =~= b); } } } }
    assert forall|k: int| 0 <= k < 4 implies #[trigger] suit_same(hs, s, t, r - j - 1, k) by { lemma_another_suit(hs, b, d, r, g, i, j, k); }
    assert(apart_from(hs, s)) by { assert forall|p: int| 0 <= p < hs.len() implies disjoint(s, #[trigger] hs[p]) by { assert(disjoint(e, hs[p]) && disjoint(d, hs[p])); } }
    assert(apart_from(hs, u)) by { assert forall|p: int| 0 <= p < hs.len() implies disjoint(u, #[trigger] hs[p]) by { assert(disjoint(d, hs[p])); } }
    assert(disjoint(u, s)) by { assert forall|y: int| 0 <= y < 52 implies !(#[trigger] u[y] && s[y]) by { if u[y] && s[y] { if y == x { assert(g[i] == y); } assert(y != x); assert(e[y]); if !b[y] { let l = choose|l: int| 0 <= l < j && #[trigger] g[l] == y; assert(l < i + 1 && g[l] == y); } else { assert(d[y] && b[y]); } } } }
    assert(disjoint(u, t)) by { assert forall|y: int| 0 <= y < 52 implies !(#[trigger] u[y] && t[y]) by { if u[y] && t[y] { if !b[y] { let l = choose|l: int| 0 <= l < j + 1 && #[trigger] g[l] == y; assert(l < i + 1 && g[l] == y); } else { assert(d[y] && b[y]); } } } }
    lemma_alike(hs, s, t, u, r - j - 1, 52, w);
}
proof fn lemma_pascal(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, i: int, j: int, w: int)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 0 <= j <= i < g.len(),
    ensures ways(hs, b, d, r, g, i, j, w) == ways(hs, b, d, r, g, i + 1, j, w) + ways(hs, b, d, r, g, i + 1, j + 1, w),
{
    if j <= r {
        let (e, f, x) = (put(b, g, j), take(d, g, i), g[i]);
        lemma_put(hs, b, d, r, g, j); lemma_put(hs, b, d, r, g, j + 1); lemma_take(d, g, i); lemma_take(d, g, i + 1);
        assert(f[x]) by { if exists|k: int| 0 <= k < i && #[trigger] g[k] == x { let k = choose|k: int| 0 <= k < i && #[trigger] g[k] == x; assert(g[k] != g[i]); } }
        if j < r {
            lemma_split_card(hs, e, f, r - j, 52, x, w);
            lemma_another(hs, b, d, r, g, i, j, w);
            assert(take(d, g, i + 1) =~= f.update(x, false));
        } else {
            assert(cnt(hs, e, f, 0, 52, w) == cnt(hs, e, take(d, g, i + 1), 0, 52, w));
        }
    }
}
pub open spec fn choose_of(m: int, k: int) -> int decreases m { if k < 0 || k > m { 0 } else if k == 0 || m <= 0 { 1 } else { choose_of(m - 1, k) + choose_of(m - 1, k - 1) } }
// C13: the group as a whole
proof fn lemma_group(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, w: int)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 1 <= g.len() <= 4,
    ensures ({
        let m = g.len() as int;
        let f = |k: int| ways(hs, b, d, r, g, m, k, w);
        boards(hs, b, d, r, w) == if m == 1 { f(0) + f(1) } else if m == 2 { f(0) + 2 * f(1) + f(2) } else if m == 3 { f(0) + 3 * f(1) + 3 * f(2) + f(3) } else { f(0) + 4 * f(1) + 6 * f(2) + 4 * f(3) + f(4) }
    }),
{
    let m = g.len() as int;
    lemma_pascal(hs, b, d, r, g, 0, 0, w);
    if m > 1 { lemma_pascal(hs, b, d, r, g, 1, 0, w); lemma_pascal(hs, b, d, r, g, 1, 1, w); }
    if m > 2 { lemma_pascal(hs, b, d, r, g, 2, 0, w); lemma_pascal(hs, b, d, r, g, 2, 1, w); lemma_pascal(hs, b, d, r, g, 2, 2, w); }
    if m > 3 { lemma_pascal(hs, b, d, r, g, 3, 0, w); lemma_pascal(hs, b, d, r, g, 3, 1, w); lemma_pascal(hs, b, d, r, g, 3, 2, w); lemma_pascal(hs, b, d, r, g, 3, 3, w); }
}
proof fn lemma_boards_zero(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, x: int)
    ensures all_boards(hs, b, d, 0, x) =~= point(winner_set(strengths(b, hs)), x),
{ assert forall|w: int| 0 <= w < 512 implies all_boards(hs, b, d, 0, x)[w] == point(winner_set(strengths(b, hs)), x)[w] by { let y = b2i(winner_set(strengths(b, hs)) == w); assert(x * y == if y == 1 { x } else { 0 }) by (nonlinear_arith) requires y == 0 || y == 1; } }
// one card more
proof fn lemma_take_card(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, c: int, x: int)
    requires deal_ok(hs, b, d, r), r >= 1, 0 <= c < 52, d[c],
    ensures all_boards(hs, b, d, r, x) =~= plus(all_boards(hs, b.update(c, true), d.update(c, false), r - 1, x), all_boards(hs, b, d.update(c, false), r, x)),
        deal_ok(hs, b.update(c, true), d.update(c, false), r - 1), deal_ok(hs, b, d.update(c, false), r),
        forall|k: int| 0 <= k < 4 ==> #[trigger] suited(b.update(c, true), k) == suited(b, k) + b2i(k == c % 4),
{
    let (e, f) = (b.update(c, true), d.update(c, false));
    assert forall|w: int| 0 <= w < 512 implies all_boards(hs, b, d, r, x)[w] == plus(all_boards(hs, e, f, r - 1, x), all_boards(hs, b, f, r, x))[w] by {
        lemma_split_card(hs, b, d, r, 52, c, w);
        let (y, z) = (boards(hs, e, f, r - 1, w), boards(hs, b, f, r, w));
        assert(x * (y + z) == x * y + x * z) by (nonlinear_arith);
    }
    assert(!b[c]);
    lemma_insert(b, c);
    assert forall|p: int| 0 <= p < hs.len() implies disjoint(e, #[trigger] hs[p]) by { assert(disjoint(b, hs[p]) && disjoint(d, hs[p])); }
    assert forall|p: int| 0 <= p < hs.len() implies disjoint(f, #[trigger] hs[p]) by { assert(disjoint(d, hs[p])); }
    assert(disjoint(f, e) && disjoint(f, b));
}
pub open spec fn binom(m: int, k: int) -> int {
    if k == 0 || k == m { 1 } else if m == 2 { 2 } else if m == 3 { 3 } else if m == 4 { if k == 2 { 6 } else { 4 } } else { 0 }
}
// the boards with 1..=k of the m cards of the group
pub open spec fn some_of(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, x: int, k: int) -> Seq<int>
    decreases k,
{
    if k <= 0 { zero_tally() } else { plus(some_of(hs, b, d, r, g, x, k - 1), all_boards(hs, put(b, g, k), take(d, g, g.len() as int), r - k, x * binom(g.len() as int, k))) }
}
proof fn lemma_scale(x: int, y: int, z: int) ensures x * (y * z) == (x * y) * z, { assert(x * (y * z) == (x * y) * z) by (nonlinear_arith); }
proof fn lemma_some_of(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, x: int)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 1 <= g.len() <= 4, r >= 1,
    ensures all_boards(hs, b, d, r, x) =~= plus(some_of(hs, b, d, r, g, x, if g.len() < r { g.len() as int } else { r }), all_boards(hs, b, take(d, g, g.len() as int), r, x)),
{
    let m = g.len() as int;
    let top = if m < r { m } else { r };
    assert forall|w: int| 0 <= w < 512 implies all_boards(hs, b, d, r, x)[w] == plus(some_of(hs, b, d, r, g, x, top), all_boards(hs, b, take(d, g, m), r, x))[w] by {
        lemma_group(hs, b, d, r, g, w);
        let f0 = ways(hs, b, d, r, g, m, 0, w);
        let f1 = ways(hs, b, d, r, g, m, 1, w);
        let f2 = ways(hs, b, d, r, g, m, 2, w);
        let f3 = ways(hs, b, d, r, g, m, 3, w);
        let f4 = ways(hs, b, d, r, g, m, 4, w);
        assert(put(b, g, 0) == b);
        assert(f0 == boards(hs, b, take(d, g, m), r, w));
        assert(all_boards(hs, b, d, r, x)[w] == x * boards(hs, b, d, r, w));
        assert(all_boards(hs, b, take(d, g, m), r, x)[w] == x * f0);
        let s = |k: int| some_of(hs, b, d, r, g, x, k)[w];
        assert(some_of(hs, b, d, r, g, x, 0)[w] == 0);
        let (c1, c2, c3, c4) = (binom(m, 1), binom(m, 2), binom(m, 3), binom(m, 4));
        if 1 <= top { assert(s(1) == (x * c1) * f1); }
        if 2 <= top { assert(s(2) == s(1) + (x * c2) * f2); }
        if 3 <= top { assert(s(3) == s(2) + (x * c3) * f3); }
        if 4 <= top { assert(s(4) == s(3) + (x * c4) * f4); }
        lemma_scale(x, c1, f1); lemma_scale(x, c2, f2); lemma_scale(x, c3, f3); lemma_scale(x, c4, f4);
        let (z1, z2, z3, z4) = (c1 * f1, c2 * f2, c3 * f3, c4 * f4);
        if r < 2 { assert(f2 == 0); } if r < 3 { assert(f3 == 0); } if r < 4 { assert(f4 == 0); }
        lemma_zeros(x, c2, f2); lemma_zeros(x, c3, f3); lemma_zeros(x, c4, f4);
        if m == 1 {
            assert(c1 == 1); assert(z1 == f1) by (nonlinear_arith) requires z1 == c1 * f1, c1 == 1;
            assert(x * (f0 + z1) == x * f0 + x * z1) by (nonlinear_arith);
        } else if m == 2 {
            assert(c1 == 2 && c2 == 1); assert(z1 == 2 * f1 && z2 == f2) by (nonlinear_arith) requires z1 == c1 * f1, c1 == 2, z2 == c2 * f2, c2 == 1;
            assert(x * (f0 + z1 + z2) == x * f0 + x * z1 + x * z2) by (nonlinear_arith);
        } else if m == 3 {
            assert(c1 == 3 && c2 == 3 && c3 == 1); assert(z1 == 3 * f1 && z2 == 3 * f2 && z3 == f3) by (nonlinear_arith) requires z1 == c1 * f1, c1 == 3, z2 == c2 * f2, c2 == 3, z3 == c3 * f3, c3 == 1;
            assert(x * (f0 + z1 + z2 + z3) == x * f0 + x * z1 + x * z2 + x * z3) by (nonlinear_arith);
        } else {
            assert(c1 == 4 && c2 == 6 && c3 == 4 && c4 == 1); assert(z1 == 4 * f1 && z2 == 6 * f2 && z3 == 4 * f3 && z4 == f4) by (nonlinear_arith) requires z1 == c1 * f1, c1 == 4, z2 == c2 * f2, c2 == 6, z3 == c3 * f3, c3 == 4, z4 == c4 * f4, c4 == 1;
            assert(x * (f0 + z1 + z2 + z3 + z4) == x * f0 + x * z1 + x * z2 + x * z3 + x * z4) by (nonlinear_arith);
        }
    }
}
proof fn lemma_zeros(x: int, y: int, z: int) ensures z == 0 ==> x * (y * z) == 0, { if z == 0 { assert(x * (y * z) == 0) by (nonlinear_arith) requires z == 0; } }
// what is known of a hand and the deck when k of the group are dealt
proof fn lemma_put_ok(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, k: int)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 0 <= k <= g.len(), k <= r,
    ensures deal_ok(hs, put(b, g, k), take(d, g, g.len() as int), r - k), k < g.len() ==> !put(b, g, k)[g[k]] && apart_from(hs, one_card(g[k])),
        forall|s: int| 0 <= s < 4 ==> suited(b, s) <= #[trigger] suited(put(b, g, k), s) <= suited(b, s) + 1,
        forall|s: int| 0 <= s < 4 && !hopeless(hs, b, r, s) ==> #[trigger] suited(put(b, g, k), s) == suited(b, s),
{
    let (e, f) = (put(b, g, k), take(d, g, g.len() as int));
    lemma_put(hs, b, d, r, g, k); lemma_take(d, g, g.len() as int);
    assert forall|p: int| 0 <= p < hs.len() implies disjoint(f, #[trigger] hs[p]) by { assert(disjoint(d, hs[p])); }
    assert(disjoint(f, e)) by { assert forall|y: int| 0 <= y < 52 implies !(#[trigger] f[y] && e[y]) by { if f[y] && e[y] { if !b[y] { let l = choose|l: int| 0 <= l < k && #[trigger] g[l] == y; assert(g[l] == y && l < g.len()); } else { assert(d[y] && b[y]); } } } }
    assert forall|s: int| 0 <= s < 4 implies suited(b, s) <= #[trigger] suited(e, s) <= suited(b, s) + 1 && (!hopeless(hs, b, r, s) ==> suited(e, s) == suited(b, s)) by {
        assert(suited(e, s) == suited(b, s) + b2i(exists|i: int| 0 <= i < k && #[trigger] g[i] % 4 == s));
        if exists|i: int| 0 <= i < k && #[trigger] g[i] % 4 == s { let i = choose|i: int| 0 <= i < k && #[trigger] g[i] % 4 == s; assert(hopeless(hs, b, r, g[i] % 4)); }
    }
    if k < g.len() {
        let x = g[k];
        assert(!b[x]);
        assert(!e[x]) by { if exists|l: int| 0 <= l < k && #[trigger] g[l] == x { let l = choose|l: int| 0 <= l < k && #[trigger] g[l] == x; assert(g[l] != g[k]); } }
        assert forall|p: int| 0 <= p < hs.len() implies disjoint(one_card(x), #[trigger] hs[p]) by { assert(disjoint(d, hs[p])); }
    }
}
// ---- the deck: the cards at the places i..n
pub open spec fn rest(deck: Seq<u8>, i: int, n: int) -> Seq<bool> { Seq::new(52, |c: int| exists|p: int| i <= p < n && #[trigger] deck[p] == c) }
pub open spec fn deck_ok(deck: Seq<u8>, i: int, n: int) -> bool {
    &&& deck.len() == 52 && 0 <= i && n <= 52
    &&& forall|p: int| i <= p < n ==> #[trigger] deck[p] < 52
    &&& forall|p: int, q: int| i <= p < q < n ==> #[trigger] deck[p] != #[trigger] deck[q] && deck[p] / 4 >= deck[q] / 4
}
// the cards at i..n in another order, rank by rank
pub open spec fn same_cards(a: Seq<u8>, b: Seq<u8>, i: int, n: int) -> bool {
    &&& a.len() == 52 && b.len() == 52
    &&& forall|p: int| 0 <= p < 52 && !(i <= p < n) ==> a[p] == #[trigger] b[p]
    &&& forall|p: int| i <= p < n ==> a[p] / 4 == #[trigger] b[p] / 4
    &&& rest(a, i, n) =~= rest(b, i, n)
    &&& deck_ok(b, i, n)
}
proof fn lemma_wider(a: Seq<u8>, b: Seq<u8>, j: int, i: int, n: int)
    requires 0 <= j <= i <= n <= 52, same_cards(a, b, i, n), deck_ok(a, j, n),
    ensures same_cards(a, b, j, n),
{
    assert forall|c: int| 0 <= c < 52 implies rest(a, j, n)[c] == rest(b, j, n)[c] by {
        if rest(a, j, n)[c] { let p = choose|p: int| j <= p < n && #[trigger] a[p] == c; if p < i { assert(b[p] == c); } else { assert(rest(a, i, n)[c]); assert(rest(b, i, n)[c]); let q = choose|q: int| i <= q < n && #[trigger] b[q] == c; assert(b[q] == c); } }
        if rest(b, j, n)[c] { let p = choose|p: int| j <= p < n && #[trigger] b[p] == c; if p < i { assert(a[p] == c); } else { assert(rest(b, i, n)[c]); assert(rest(a, i, n)[c]); let q = choose|q: int| i <= q < n && #[trigger] a[q] == c; assert(a[q] == c); } }
    }
    assert(rest(a, j, n) =~= rest(b, j, n));
    assert forall|p: int| j <= p < n implies #[trigger] b[p] < 52 by { if p < i { assert(a[p] < 52); } }
    assert forall|p: int, q: int| j <= p < q < n implies #[trigger] b[p] != #[trigger] b[q] && b[p] / 4 >= b[q] / 4 by {
        assert(a[p] / 4 >= a[q] / 4 && a[p] != a[q]);
        if p < i && q >= i && b[p] == b[q] { assert(rest(b, i, n)[b[q] as int]); assert(rest(a, i, n)[b[q] as int]); let z = choose|z: int| i <= z < n && #[trigger] a[z] == b[q]; assert(a[p] == a[z]); }
    }
}
proof fn lemma_same_again(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, i: int, n: int)
    requires same_cards(a, b, i, n), same_cards(b, c, i, n),
    ensures same_cards(a, c, i, n),
{ assert forall|p: int| 0 <= p < 52 && !(i <= p < n) implies a[p] == #[trigger] c[p] by { assert(b[p] == c[p]); } assert forall|p: int| i <= p < n implies a[p] / 4 == #[trigger] c[p] / 4 by { assert(b[p] / 4 == c[p] / 4); } }
proof fn lemma_swapped(a: Seq<u8>, i: int, n: int, x: int, y: int)
    requires deck_ok(a, i, n), i <= x < n, i <= y < n, a[x] / 4 == a[y] / 4,
    ensures same_cards(a, a.update(x, a[y]).update(y, a[x]), i, n),
{
    let b = a.update(x, a[y]).update(y, a[x]);
    assert forall|c: int| 0 <= c < 52 implies rest(a, i, n)[c] == rest(b, i, n)[c] by {
        if rest(a, i, n)[c] { let p = choose|p: int| i <= p < n && #[trigger] a[p] == c; let q = if p == x { y } else if p == y { x } else { p }; assert(b[q] == c); }
        if rest(b, i, n)[c] { let p = choose|p: int| i <= p < n && #[trigger] b[p] == c; let q = if p == x { y } else if p == y { x } else { p }; assert(a[q] == c); }
    }
    assert forall|p: int, q: int| i <= p < q < n implies #[trigger] b[p] != #[trigger] b[q] && b[p] / 4 >= b[q] / 4 by {
        let u = if p == x { y } else if p == y { x } else { p };
        let v = if q == x { y } else if q == y { x } else { q };
        assert(b[p] == a[u] && b[q] == a[v]);
        assert(a[p] / 4 == b[p] / 4 && a[q] / 4 == b[q] / 4);
        assert(a[p] / 4 >= a[q] / 4);
        if u < v { assert(a[u] != a[v]); } else { assert(a[v] != a[u]); }
    }
}
proof fn lemma_next(deck: Seq<u8>, i: int, n: int)
    requires deck_ok(deck, i, n), i < n,
    ensures rest(deck, i, n)[deck[i] as int], rest(deck, i + 1, n) =~= rest(deck, i, n).update(deck[i] as int, false),
{
    assert(deck[i] < 52);
    let (d, e) = (rest(deck, i, n), rest(deck, i + 1, n));
    assert forall|c: int| 0 <= c < 52 implies e[c] == d.update(deck[i] as int, false)[c] by {
        if e[c] { let p = choose|p: int| i + 1 <= p < n && #[trigger] deck[p] == c; assert(deck[i] != deck[p]); assert(d[c]); }
        if d[c] && c != deck[i] { let p = choose|p: int| i <= p < n && #[trigger] deck[p] == c; assert(i + 1 <= p); }
    }
}
pub open spec fn cards_at_places(deck: Seq<u8>, i: int, j: int) -> Seq<int> { Seq::new((j - i) as nat, |k: int| deck[i + k] as int) }
proof fn lemma_taken(deck: Seq<u8>, i: int, j: int, n: int)
    requires deck_ok(deck, i, n), i <= j <= n,
    ensures take(rest(deck, i, n), cards_at_places(deck, i, j), j - i) =~= rest(deck, j, n),
{
    let (d, g, e) = (rest(deck, i, n), cards_at_places(deck, i, j), rest(deck, j, n));
    assert forall|k: int| 0 <= k < g.len() implies 0 <= #[trigger] g[k] < 52 by { assert(deck[i + k] < 52); }
    lemma_take(d, g, j - i);
    assert forall|c: int| 0 <= c < 52 implies take(d, g, j - i)[c] == e[c] by {
        if e[c] {
            let p = choose|p: int| j <= p < n && #[trigger] deck[p] == c;
            assert(d[c]);
            if exists|k: int| 0 <= k < j - i && #[trigger] g[k] == c { let k = choose|k: int| 0 <= k < j - i && #[trigger] g[k] == c; assert(deck[i + k] != deck[p]); }
        }
        if d[c] && !e[c] { let p = choose|p: int| i <= p < n && #[trigger] deck[p] == c; assert(p < j); assert(g[p - i] == c); }
    }
}
// what the suit counters say
pub open spec fn suit_ok(hs: Seq<Seq<bool>>, b: Seq<bool>, r: int, k: int, c: int) -> bool {
    (forall|p: int| 0 <= p < hs.len() ==> suited(#[trigger] hs[p], k) + suited(b, k) <= c) || (c + r < 5 && hopeless(hs, b, r, k))
}
pub open spec fn suits_ok(hs: Seq<Seq<bool>>, b: Seq<bool>, r: int, sc: Seq<u8>) -> bool { sc.len() == 4 && forall|k: int| 0 <= k < 4 ==> suit_ok(hs, b, r, k, #[trigger] sc[k] as int) }
proof fn lemma_hopeless(hs: Seq<Seq<bool>>, b: Seq<bool>, r: int, k: int, c: int)
    requires suit_ok(hs, b, r, k, c), c + r < 5,
    ensures hopeless(hs, b, r, k),
{ if forall|p: int| 0 <= p < hs.len() ==> suited(#[trigger] hs[p], k) + suited(b, k) <= c { assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], k) + suited(b, k) + r < 5 by {} } }
// one card more on the board
proof fn lemma_deal_card(h: Hand, b: Seq<bool>, c: int)
    requires is_hand(h, b), 0 <= c < 52, !b[c], size(b) < 7, cards_ok(),
    ensures h.key + card_key(c) <= u64::MAX, is_hand(Hand { key: (h.key + card_key(c)) as u64, mask: h.mask | card_mask(c) }, b.update(c, true)),
        cards_of(h.mask | card_mask(c)) =~= b.update(c, true), card_key(c) == card_key(c) as u64,
{
    assert(card_entry(c));
    let k = Hand { key: card_key(c) as u64, mask: card_mask(c) };
    lemma_one_card(k, c);
    assert(disjoint(b, one_card(c)));
    lemma_add(h, b, 3, k, one_card(c), 0);
    assert(union(b, one_card(c)) =~= b.update(c, true));
}
// ---- the boards for one deal
pub open spec fn dealt_hand(h: HandWithIndex) -> bool { h.cards.0 < 52 && h.cards.1 < 52 && h.cards.0 != h.cards.1 }
pub open spec fn cards_in(h: HandWithIndex) -> Seq<bool> { two_cards(h.cards.0 as int, h.cards.1 as int) }
pub open spec fn deal_of(hs: Seq<HandWithIndex>, n: int) -> Seq<Seq<bool>> { Seq::new(n as nat, |p: int| cards_in(hs[p])) }
pub open spec fn slots_of(hs: Seq<HandWithIndex>, n: int) -> Seq<usize> { Seq::new(9, |p: int| if p < n { (1326 * p + index_of(hs[p].cards.0 as int, hs[p].cards.1 as int)) as usize } else { 0 }) }
pub open spec fn unused(m: u64) -> Seq<bool> { Seq::new(52, |c: int| !mask_cards(m)[c]) }
// an allowed deal: the hands and the board are among the used cards, the board apart from the hands
pub open spec fn deal(hs: Seq<HandWithIndex>, n: int, b: Seq<bool>, used: u64) -> bool {
    &&& hs.len() >= n && b.len() == 52 && size(b) <= 5
    &&& forall|p: int| 0 <= p < n ==> dealt_hand(#[trigger] hs[p]) && disjoint(b, cards_in(hs[p])) && mask_cards(used)[hs[p].cards.0 as int] && mask_cards(used)[hs[p].cards.1 as int]
    &&& forall|c: int| 0 <= c < 52 && #[trigger] b[c] ==> mask_cards(used)[c]
}
