// C12: combined ranges.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ item src/hand_range.rs struct Combo derive=Clone,Copy | Combo =>> RangeCombo
//@ item src/hand_range.rs struct HandRange | Combo =>> RangeCombo
//@ item src/equity_calculator/combined_range.rs const MAX_PLAYERS
//@ item src/equity_calculator/combined_range.rs const MAX_SIZE
//@ item src/equity_calculator/combined_range.rs struct Combo derive=Clone,Copy
//@ item src/equity_calculator/combined_range.rs struct CombinedRange
//@ import hand Hand::from_hole_cards
//@ import hand <Default for Hand>::default
//@ include rangesok
//@ include groups
// ---- lemmas on masks
proof fn lemma_or_zero(m: Seq<u64>, x: u64)
    ensures (or_all(m) & x == 0) == (forall|k: int| 0 <= k < m.len() ==> #[trigger] m[k] & x == 0),
    decreases m.len(),
{
    if m.len() == 0 { assert(0u64 & x == 0) by (bit_vector); }
    else {
        let d = m.drop_last();
        lemma_or_zero(d, x);
        let (a, b) = (or_all(d), m.last());
        assert(((a | b) & x == 0) == (a & x == 0 && b & x == 0)) by (bit_vector);
        if or_all(m) & x == 0 {
            assert forall|k: int| 0 <= k < m.len() implies #[trigger] m[k] & x == 0 by { if k < d.len() { assert(d[k] == m[k]); } }
        } else if forall|k: int| 0 <= k < m.len() ==> #[trigger] m[k] & x == 0 {
            assert(m[m.len() - 1] & x == 0);
            assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] & x == 0 by { assert(d[k] == m[k]); assert(m[k] & x == 0); }
        }
    }
}
proof fn lemma_or_add(a: Seq<u64>, b: Seq<u64>)
    ensures or_all(a + b) == or_all(a) | or_all(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); let x = or_all(a); assert(x | 0 == x) by (bit_vector); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_or_add(a, b.drop_last());
        let (x, y, z) = (or_all(a), or_all(b.drop_last()), b.last());
        assert((x | y) | z == x | (y | z)) by (bit_vector);
    }
}
proof fn lemma_apart_add(a: Seq<u64>, b: Seq<u64>)
    ensures apart(a + b) == (apart(a) && apart(b) && or_all(a) & or_all(b) == 0),
{
    let s = a + b;
    let (x, y) = (or_all(a), or_all(b));
    lemma_or_zero(a, y);
    if apart(s) {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] & #[trigger] a[j] == 0 by { assert(s[i] & s[j] == 0); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] & #[trigger] b[j] == 0 by { assert(s[a.len() + i] & s[a.len() + j] == 0); }
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] & y == 0 by {
            let u = a[k];
            lemma_or_zero(b, u);
            assert(y & u == u & y) by (bit_vector);
            assert forall|l: int| 0 <= l < b.len() implies #[trigger] b[l] & u == 0 by { assert(s[k] & s[a.len() + l] == 0); let v = b[l]; assert(u & v == v & u) by (bit_vector); }
        }
    }
    if apart(a) && apart(b) && x & y == 0 {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] & #[trigger] s[j] == 0 by {
            if j < a.len() { assert(a[i] & a[j] == 0); }
            else if i >= a.len() { assert(b[i - a.len()] & b[j - a.len()] == 0); }
            else {
                let u = a[i]; let v = b[j - a.len()];
                assert(u & y == 0);
                lemma_or_zero(b, u);
                assert(y & u == u & y) by (bit_vector);
                assert(v & u == 0);
                assert(u & v == v & u) by (bit_vector);
            }
        }
    }
}
// ---- joining two groups
pub open spec fn pair_ok(a: Seq<Combo>, b: Seq<Combo>, x: int, y: int) -> bool { a[x].mask & b[y].mask == 0 }
// number of compatible pairs: the first m of a with all of b, and a[m] with the first n of b
pub open spec fn row_pairs(a: Seq<Combo>, b: Seq<Combo>, x: int, n: int) -> int decreases n { if n <= 0 { 0 } else { row_pairs(a, b, x, n - 1) + if pair_ok(a, b, x, n - 1) { 1int } else { 0 } } }
pub open spec fn all_pairs(a: Seq<Combo>, b: Seq<Combo>, m: int) -> int decreases m { if m <= 0 { 0 } else { all_pairs(a, b, m - 1) + row_pairs(a, b, m - 1, b.len() as int) } }
proof fn lemma_row_bound(a: Seq<Combo>, b: Seq<Combo>, x: int, n: int)
    ensures 0 <= row_pairs(a, b, x, n), n >= 0 ==> row_pairs(a, b, x, n) <= n,
    decreases n,
{ if n > 0 { lemma_row_bound(a, b, x, n - 1); } }
proof fn lemma_pairs_bound(a: Seq<Combo>, b: Seq<Combo>, m: int)
    ensures 0 <= all_pairs(a, b, m), m >= 0 ==> all_pairs(a, b, m) <= m * b.len(),
    decreases m,
{ if m > 0 { lemma_pairs_bound(a, b, m - 1); lemma_row_bound(a, b, m - 1, b.len() as int); let l = b.len() as int; assert((m - 1) * l + l == m * l) by (nonlinear_arith); } }
pub open spec fn merges(c: Combo, a: Combo, na: int, b: Combo, nb: int) -> bool {
    &&& c.mask == a.mask | b.mask
    &&& forall|k: int| 0 <= k < na ==> #[trigger] c.hole_cards@[k] == a.hole_cards@[k]
    &&& forall|k: int| na <= k < na + nb ==> #[trigger] c.hole_cards@[k] == b.hole_cards@[k - na]
    &&& forall|k: int| 0 <= k < na + nb ==> #[trigger] c.hands@[k] == hole_hand(c.hole_cards@[k].0, c.hole_cards@[k].1)
}
pub open spec fn before(x: int, y: int, m: int, n: int) -> bool { x < m || (x == m && y < n) }
// r lists the compatible pairs before (m, n), src says which
pub open spec fn joined(a: CombinedRange, b: CombinedRange, r: Seq<Combo>, src: Seq<(int, int)>, m: int, n: int) -> bool {
    &&& src.len() == r.len()
    &&& forall|k: int| 0 <= k < r.len() ==> 0 <= (#[trigger] src[k]).0 < a.combos.len() && 0 <= src[k].1 < b.combos.len() && before(src[k].0, src[k].1, m, n)
        && pair_ok(a.combos@, b.combos@, src[k].0, src[k].1) && merges(r[k], a.combos@[src[k].0], a.player_count as int, b.combos@[src[k].1], b.player_count as int)
    &&& forall|j: int, k: int| 0 <= j < k < src.len() ==> #[trigger] src[j] != #[trigger] src[k]
    &&& forall|x: int, y: int| 0 <= x < a.combos.len() && 0 <= y < b.combos.len() && before(x, y, m, n) && #[trigger] pair_ok(a.combos@, b.combos@, x, y) ==> src.contains((x, y))
}
proof fn lemma_joined_skip(a: CombinedRange, b: CombinedRange, r: Seq<Combo>, src: Seq<(int, int)>, m: int, n: int)
    requires joined(a, b, r, src, m, n), 0 <= m < a.combos.len(), 0 <= n < b.combos.len(), !pair_ok(a.combos@, b.combos@, m, n),
    ensures joined(a, b, r, src, m, n + 1),
{}
proof fn lemma_joined_push(a: CombinedRange, b: CombinedRange, r: Seq<Combo>, src: Seq<(int, int)>, m: int, n: int, c: Combo)
    requires joined(a, b, r, src, m, n), 0 <= m < a.combos.len(), 0 <= n < b.combos.len(), pair_ok(a.combos@, b.combos@, m, n), merges(c, a.combos@[m], a.player_count as int, b.combos@[n], b.player_count as int),
    ensures joined(a, b, r.push(c), src.push((m, n)), m, n + 1),
{
    let s2 = src.push((m, n)); let r2 = r.push(c);
    assert forall|k: int| 0 <= k < r2.len() implies 0 <= (#[trigger] s2[k]).0 < a.combos.len() && 0 <= s2[k].1 < b.combos.len() && before(s2[k].0, s2[k].1, m, n + 1)
        && pair_ok(a.combos@, b.combos@, s2[k].0, s2[k].1) && merges(r2[k], a.combos@[s2[k].0], a.player_count as int, b.combos@[s2[k].1], b.player_count as int) by {
        if k < r.len() { assert(s2[k] == src[k]); }
    }
    assert forall|j: int, k: int| 0 <= j < k < s2.len() implies #[trigger] s2[j] != #[trigger] s2[k] by {
        if k == src.len() { assert(before(src[j].0, src[j].1, m, n)); } else { assert(src[j] != src[k]); }
    }
    assert forall|x: int, y: int| 0 <= x < a.combos.len() && 0 <= y < b.combos.len() && before(x, y, m, n + 1) && #[trigger] pair_ok(a.combos@, b.combos@, x, y) implies s2.contains((x, y)) by {
        if before(x, y, m, n) { let k = choose|k: int| 0 <= k < src.len() && src[k] == (x, y); assert(s2[k] == (x, y)); }
        else { assert(s2[src.len() as int] == (x, y)); }
    }
}
proof fn lemma_joined_row(a: CombinedRange, b: CombinedRange, r: Seq<Combo>, src: Seq<(int, int)>, m: int)
    requires joined(a, b, r, src, m, b.combos.len() as int), 0 <= m < a.combos.len(),
    ensures joined(a, b, r, src, m + 1, 0),
{}
proof fn lemma_join(a: CombinedRange, b: CombinedRange, g: CombinedRange, src: Seq<(int, int)>, rs: Seq<HandRange>)
    requires joined(a, b, g.combos@, src, a.combos.len() as int, 0), is_group(a, rs), is_group(b, rs), proper(rs), a.player_count + b.player_count <= 9, g.player_count == a.player_count + b.player_count, g.size == g.combos.len(),
        forall|k: int| 0 <= k < a.player_count ==> #[trigger] g.players@[k] == a.players@[k],
        forall|k: int| a.player_count <= k < g.player_count ==> #[trigger] g.players@[k] == b.players@[k - a.player_count],
    ensures is_group(g, rs),
{
    let ta = choose|ts: Seq<Seq<int>>| group_lists(a, rs, ts);
    let tb = choose|ts: Seq<Seq<int>>| group_lists(b, rs, ts);
    let (pa, pb, pg) = (members(a), members(b), members(g));
    let (na, nb) = (a.player_count as int, b.player_count as int);
    assert(pg =~= pa + pb);
    let ts = Seq::new(src.len(), |k: int| ta[src[k].0] + tb[src[k].1]);
    assert forall|c: int| 0 <= c < ts.len() implies joint(rs, pg, #[trigger] ts[c]) && shows(g.combos@[c], rs, pg, ts[c]) by {
        let (u, v) = (ta[src[c].0], tb[src[c].1]);
        assert(joint(rs, pa, u) && joint(rs, pb, v));
        let t = ts[c];
        assert(picks(rs, pg, t)) by {
            assert forall|k: int| 0 <= k < pg.len() implies 0 <= #[trigger] pg[k] < rs.len() && 0 <= t[k] < rs[pg[k]].hands.len() by {
                if k < na { assert(pg[k] == pa[k] && t[k] == u[k]); } else { assert(pg[k] == pb[k - na] && t[k] == v[k - na]); }
            }
        }
        assert(masks(rs, pg, t) =~= masks(rs, pa, u) + masks(rs, pb, v)) by {
            assert forall|k: int| 0 <= k < t.len() implies masks(rs, pg, t)[k] == (masks(rs, pa, u) + masks(rs, pb, v))[k] by {
                if k < na { assert(pg[k] == pa[k] && t[k] == u[k]); } else { assert(pg[k] == pb[k - na] && t[k] == v[k - na]); }
            }
        }
        lemma_apart_add(masks(rs, pa, u), masks(rs, pb, v));
        lemma_or_add(masks(rs, pa, u), masks(rs, pb, v));
        let (x, y) = (a.combos@[src[c].0], b.combos@[src[c].1]);
        assert(shows(x, rs, pa, u) && shows(y, rs, pb, v));
        assert forall|k: int| 0 <= k < pg.len() implies #[trigger] g.combos@[c].hole_cards@[k] == (picked(rs, pg, t, k).0, picked(rs, pg, t, k).1, picked(rs, pg, t, k).2) by {
            if k < na { assert(x.hole_cards@[k] == (picked(rs, pa, u, k).0, picked(rs, pa, u, k).1, picked(rs, pa, u, k).2)); assert(pg[k] == pa[k] && t[k] == u[k]); }
            else { assert(y.hole_cards@[k - na] == (picked(rs, pb, v, k - na).0, picked(rs, pb, v, k - na).1, picked(rs, pb, v, k - na).2)); assert(pg[k] == pb[k - na] && t[k] == v[k - na]); }
        }
    }
    assert forall|c: int, d: int| 0 <= c < d < ts.len() implies #[trigger] ts[c] != #[trigger] ts[d] by {
        assert(src[c] != src[d]);
        let (u, v) = (ta[src[c].0], tb[src[c].1]); let (u2, v2) = (ta[src[d].0], tb[src[d].1]);
        assert(u.len() == na && u2.len() == na) by { assert(joint(rs, pa, u) && joint(rs, pa, u2)); }
        if ts[c] == ts[d] {
            assert(u =~= u2) by { assert forall|k: int| 0 <= k < na implies u[k] == u2[k] by { assert(ts[c][k] == ts[d][k]); } }
            assert(v.len() == nb && v2.len() == nb) by { assert(joint(rs, pb, v) && joint(rs, pb, v2)); }
            assert(v =~= v2) by { assert forall|k: int| 0 <= k < nb implies v[k] == v2[k] by { assert(ts[c][na + k] == ts[d][na + k]); } }
            assert(src[c].0 == src[d].0) by { if src[c].0 < src[d].0 {} else if src[d].0 < src[c].0 {} }
            assert(src[c].1 == src[d].1) by { if src[c].1 < src[d].1 {} else if src[d].1 < src[c].1 {} }
        }
    }
    assert forall|t: Seq<int>| #[trigger] joint(rs, pg, t) implies ts.contains(t) by {
        let (u, v) = (t.subrange(0, na), t.subrange(na, t.len() as int));
        assert(t =~= u + v);
        assert(picks(rs, pa, u)) by { assert forall|k: int| 0 <= k < pa.len() implies 0 <= #[trigger] pa[k] < rs.len() && 0 <= u[k] < rs[pa[k]].hands.len() by { assert(pg[k] == pa[k]); } }
        assert(picks(rs, pb, v)) by { assert forall|k: int| 0 <= k < pb.len() implies 0 <= #[trigger] pb[k] < rs.len() && 0 <= v[k] < rs[pb[k]].hands.len() by { assert(pg[na + k] == pb[k]); } }
        assert(masks(rs, pg, t) =~= masks(rs, pa, u) + masks(rs, pb, v)) by {
            assert forall|k: int| 0 <= k < t.len() implies masks(rs, pg, t)[k] == (masks(rs, pa, u) + masks(rs, pb, v))[k] by {
                if k < na { assert(pg[k] == pa[k] && t[k] == u[k]); } else { assert(pg[k] == pb[k - na] && t[k] == v[k - na]); }
            }
        }
        lemma_apart_add(masks(rs, pa, u), masks(rs, pb, v));
        assert(joint(rs, pa, u) && joint(rs, pb, v));
        let x = choose|x: int| 0 <= x < ta.len() && ta[x] == u; let y = choose|y: int| 0 <= y < tb.len() && tb[y] == v;
        assert(ta.contains(u) && tb.contains(v));
        assert(shows(a.combos@[x], rs, pa, ta[x]) && shows(b.combos@[y], rs, pb, tb[y]));
        assert(pair_ok(a.combos@, b.combos@, x, y));
        let k = choose|k: int| 0 <= k < src.len() && src[k] == (x, y);
        assert(src.contains((x, y)));
        assert(ts[k] == t);
    }
    assert(group_lists(g, rs, ts)) by {
        assert forall|k: int| 0 <= k < g.player_count implies #[trigger] g.players@[k] < rs.len() by { if k < na { assert(a.players@[k] < rs.len()); } else { assert(b.players@[k - na] < rs.len()); } }
    }
}
proof fn lemma_single(g: CombinedRange, p: usize, r: HandRange, rs: Seq<HandRange>)
    requires proper(rs), 0 <= p < rs.len(), rs[p as int] == r, g.player_count == 1, g.players@[0] == p, g.size == g.combos.len(), g.combos.len() == r.hands.len(),
        forall|k: int| 0 <= k < r.hands.len() ==> single(#[trigger] g.combos@[k], r.hands@[k]),
    ensures is_group(g, rs),
{
    let ps = members(g);
    assert(ps.len() == 1 && ps[0] == p);
    let ts = Seq::new(r.hands@.len(), |k: int| seq![k]);
    assert forall|c: int| 0 <= c < ts.len() implies joint(rs, ps, #[trigger] ts[c]) && shows(g.combos@[c], rs, ps, ts[c]) by {
        let t = ts[c]; let h = r.hands@[c];
        assert(t.len() == 1 && t[0] == c);
        assert(picked(rs, ps, t, 0) == h);
        let m = masks(rs, ps, t);
        assert(m.len() == 1 && m[0] == hand_mask(h));
        assert(m.drop_last() =~= Seq::<u64>::empty());
        assert(or_all(m.drop_last()) == 0);
        let x = hand_mask(h);
        assert(0u64 | x == x) by (bit_vector);
        assert(single(g.combos@[c], h));
        assert forall|k: int| 0 <= k < ps.len() implies 0 <= #[trigger] ps[k] < rs.len() && 0 <= t[k] < rs[ps[k]].hands.len() by { assert(k == 0); }
    }
    assert forall|c: int, d: int| 0 <= c < d < ts.len() implies #[trigger] ts[c] != #[trigger] ts[d] by { assert(ts[c][0] == c && ts[d][0] == d); }
    assert forall|t: Seq<int>| #[trigger] joint(rs, ps, t) implies ts.contains(t) by {
        assert(0 <= ps[0] && 0 <= t[0] < rs[ps[0]].hands.len());
        assert(t =~= ts[t[0]]);
    }
    assert(group_lists(g, rs, ts));
}
//@ fn src/equity_calculator/combined_range.rs Combo::new
//@ ret r
//@ spec
    ensures r.mask == 0,
//@ end
//@ fn src/equity_calculator/combined_range.rs <Default for CombinedRange>::default
//@ ret r
//@ spec
    ensures r.player_count == 0, r.combos@.len() == 0,
//@ end
//@ fn src/equity_calculator/combined_range.rs CombinedRange::from_range
//@ ret r
//@ spec
    requires forall|k: int| 0 <= k < range.hands.len() ==> deck_hand(#[trigger] range.hands@[k]),
    ensures r.player_count == 1, r.players@[0] == player_idx, r.combos.len() == range.hands.len(),
        forall|rs: Seq<HandRange>| proper(rs) && 0 <= player_idx < rs.len() && #[trigger] rs[player_idx as int] == *range ==> is_group(r, rs),
//@ loop 1
    invariant 0 <= k__1 <= range.hands.len(), c_range.player_count == 1, c_range.players@[0] == player_idx, c_range.combos.len() == k__1,
        forall|k: int| 0 <= k < range.hands.len() ==> deck_hand(#[trigger] range.hands@[k]),
        forall|k: int| 0 <= k < k__1 ==> single(#[trigger] c_range.combos@[k], range.hands@[k]),
    decreases range.hands.len() - k__1,
//@ at loop 1 end
    proof {
        let (x, y) = (r.0, r.1);
        assert(deck_hand(range.hands@[k__1 - 1]));
        assert(1u64 << x == 1u64 << (x as u64)) by (bit_vector);
        assert(1u64 << y == 1u64 << (y as u64)) by (bit_vector);
    }
//@ at end
    proof {
        assert forall|rs: Seq<HandRange>| proper(rs) && 0 <= player_idx < rs.len() && #[trigger] rs[player_idx as int] == *range implies is_group(c_range, rs) by { lemma_single(c_range, player_idx, *range, rs); }
    }
//@ end
//@ fn src/equity_calculator/combined_range.rs CombinedRange::estimate_join_size
//@ ret r
//@ spec
    requires self.combos.len() <= 0x4000_0000, other.combos.len() <= 0x4000_0000,
    ensures r == all_pairs(self.combos@, other.combos@, self.combos.len() as int),
//@ loop 1
    invariant 0 <= k__1 <= self.combos.len(), size == all_pairs(self.combos@, other.combos@, k__1 as int), self.combos.len() <= 0x4000_0000, other.combos.len() <= 0x4000_0000,
    decreases self.combos.len() - k__1,
//@ loop 2
    invariant 0 <= k__2 <= other.combos.len(), 0 < k__1 <= self.combos.len(), *c1 == self.combos@[k__1 - 1], self.combos.len() <= 0x4000_0000, other.combos.len() <= 0x4000_0000,
        size == all_pairs(self.combos@, other.combos@, k__1 - 1) + row_pairs(self.combos@, other.combos@, k__1 - 1, k__2 as int),
    decreases other.combos.len() - k__2,
//@ at loop 2 start
    proof {
        lemma_pairs_bound(self.combos@, other.combos@, k__1 - 1); lemma_row_bound(self.combos@, other.combos@, k__1 - 1, k__2 - 1);
        let (x, y) = (k__1 - 1, other.combos.len() as int);
        assert(x * y <= 0x4000_0000 * 0x4000_0000) by (nonlinear_arith) requires 0 <= x <= 0x4000_0000, 0 <= y <= 0x4000_0000;
    }
//@ end
//@ fn src/equity_calculator/combined_range.rs CombinedRange::join
//@ ret r
//@ sig &mut self =>> &self
//@ sig other: &mut CombinedRange =>> other: &CombinedRange
//@ spec
    requires 1 <= self.player_count, 1 <= other.player_count, self.player_count + other.player_count <= 9, deck_cards(*self), deck_cards(*other),
    ensures r.player_count == self.player_count + other.player_count, r.size == r.combos.len(), r.combos.len() == all_pairs(self.combos@, other.combos@, self.combos.len() as int),
        forall|k: int| 0 <= k < self.player_count ==> #[trigger] r.players@[k] == self.players@[k],
        forall|k: int| self.player_count <= k < r.player_count ==> #[trigger] r.players@[k] == other.players@[k - self.player_count],
        exists|src: Seq<(int, int)>| #[trigger] joined(*self, *other, r.combos@, src, self.combos.len() as int, 0),
//@ at start
    let ghost mut src = Seq::<(int, int)>::empty();
//@ loop 1
    invariant 0 <= k__1 <= self.player_count, e__1 == self.player_count, self.player_count + other.player_count <= 9, c_range.combos@.len() == 0, c_range.player_count == self.player_count + other.player_count,
        forall|k: int| 0 <= k < k__1 ==> #[trigger] c_range.players@[k] == self.players@[k],
    decreases e__1 - k__1,
//@ loop 2
    invariant 0 <= k__2 <= other.player_count, e__2 == other.player_count, self.player_count + other.player_count <= 9, c_range.combos@.len() == 0, c_range.player_count == self.player_count + other.player_count,
        forall|k: int| 0 <= k < self.player_count ==> #[trigger] c_range.players@[k] == self.players@[k],
        forall|k: int| self.player_count <= k < self.player_count + k__2 ==> #[trigger] c_range.players@[k] == other.players@[k - self.player_count],
    decreases e__2 - k__2,
//@ loop 3
    invariant 0 <= k__3 <= self.combos.len(), self.player_count + other.player_count <= 9, c_range.player_count == self.player_count + other.player_count, deck_cards(*self), deck_cards(*other),
        forall|k: int| 0 <= k < self.player_count ==> #[trigger] c_range.players@[k] == self.players@[k],
        forall|k: int| self.player_count <= k < c_range.player_count ==> #[trigger] c_range.players@[k] == other.players@[k - self.player_count],
        joined(*self, *other, c_range.combos@, src, k__3 as int, 0), c_range.combos.len() == all_pairs(self.combos@, other.combos@, k__3 as int),
    decreases self.combos.len() - k__3,
//@ loop 4
    invariant 0 <= k__4 <= other.combos.len(), 0 < k__3 <= self.combos.len(), *c1 == self.combos@[k__3 - 1], self.player_count + other.player_count <= 9, c_range.player_count == self.player_count + other.player_count, deck_cards(*self), deck_cards(*other),
        forall|k: int| 0 <= k < self.player_count ==> #[trigger] c_range.players@[k] == self.players@[k],
        forall|k: int| self.player_count <= k < c_range.player_count ==> #[trigger] c_range.players@[k] == other.players@[k - self.player_count],
        joined(*self, *other, c_range.combos@, src, k__3 - 1, k__4 as int), c_range.combos.len() == all_pairs(self.combos@, other.combos@, k__3 - 1) + row_pairs(self.combos@, other.combos@, k__3 - 1, k__4 as int),
    decreases other.combos.len() - k__4,
//@ at loop 4 start
    proof { if c1.mask & c2.mask != 0 { lemma_joined_skip(*self, *other, c_range.combos@, src, k__3 - 1, k__4 - 1); } }
    let ghost here = c_range.combos@;
//@ loop 5
    invariant 0 <= k__5 <= self.player_count, e__5 == self.player_count, self.player_count + other.player_count <= 9, combo.mask == c1.mask | c2.mask,
        forall|k: int| 0 <= k < k__5 ==> #[trigger] combo.hole_cards@[k] == c1.hole_cards@[k],
    decreases e__5 - k__5,
//@ loop 6
    invariant 0 <= k__6 <= other.player_count, e__6 == other.player_count, self.player_count + other.player_count <= 9, combo.mask == c1.mask | c2.mask,
        forall|k: int| 0 <= k < self.player_count ==> #[trigger] combo.hole_cards@[k] == c1.hole_cards@[k],
        forall|k: int| self.player_count <= k < self.player_count + k__6 ==> #[trigger] combo.hole_cards@[k] == c2.hole_cards@[k - self.player_count],
    decreases e__6 - k__6,
//@ loop 7
    invariant 0 <= k__7 <= c_range.player_count, e__7 == c_range.player_count, self.player_count + other.player_count <= 9, c_range.player_count == self.player_count + other.player_count, combo.mask == c1.mask | c2.mask,
        forall|k: int| 0 <= k < self.player_count ==> #[trigger] combo.hole_cards@[k] == c1.hole_cards@[k],
        forall|k: int| self.player_count <= k < c_range.player_count ==> #[trigger] combo.hole_cards@[k] == c2.hole_cards@[k - self.player_count],
        forall|k: int| 0 <= k < k__7 ==> #[trigger] combo.hands@[k] == hole_hand(combo.hole_cards@[k].0, combo.hole_cards@[k].1),
        0 < k__3 <= self.combos.len(), 0 < k__4 <= other.combos.len(), *c1 == self.combos@[k__3 - 1], *c2 == other.combos@[k__4 - 1], deck_cards(*self), deck_cards(*other),
    decreases e__7 - k__7,
//@ at loop 4 end
    proof {
        let c = combo;
        lemma_joined_push(*self, *other, here, src, k__3 - 1, k__4 - 1, c);
        src = src.push((k__3 - 1, k__4 - 1));
    }
//@ at loop 4 post
    proof { lemma_joined_row(*self, *other, c_range.combos@, src, k__3 - 1); }
//@ at end
    proof { assert(joined(*self, *other, c_range.combos@, src, self.combos.len() as int, 0)); }
//@ end
// ---- the loop of from_ranges
proof fn lemma_cards(g: CombinedRange, rs: Seq<HandRange>)
    requires is_group(g, rs), proper(rs),
    ensures deck_cards(g), 1 <= g.player_count <= 9,
{
    let ts = choose|ts: Seq<Seq<int>>| group_lists(g, rs, ts);
    let ps = members(g);
    assert forall|c: int, k: int| #![trigger g.combos@[c].hole_cards@[k]] 0 <= c < g.combos.len() && 0 <= k < g.player_count implies g.combos@[c].hole_cards@[k].0 < 52 && g.combos@[c].hole_cards@[k].1 < 52 && g.combos@[c].hole_cards@[k].0 != g.combos@[c].hole_cards@[k].1 by {
        assert(joint(rs, ps, ts[c]) && shows(g.combos@[c], rs, ps, ts[c]));
        assert(0 <= ps[k] < rs.len() && 0 <= ts[c][k] < rs[ps[k]].hands.len());
        assert(deck_hand(rs[ps[k]].hands@[ts[c][k]]));
    }
}
proof fn lemma_players_update(gs: Seq<CombinedRange>, j: int, g: CombinedRange, n: int)
    requires 0 <= j < gs.len(), n <= gs.len(),
    ensures players_of(gs.update(j, g), n) == players_of(gs, n) + if j < n { g.player_count - gs[j].player_count } else { 0 },
    decreases n,
{ if n > 0 { lemma_players_update(gs, j, g, n - 1); } }
proof fn lemma_players_remove(gs: Seq<CombinedRange>, i: int, n: int)
    requires 0 <= i < gs.len(), 0 <= n <= gs.len(),
    ensures i < n ==> players_of(gs.remove(i), n - 1) == players_of(gs, n) - gs[i].player_count, i >= n ==> players_of(gs.remove(i), n) == players_of(gs, n),
    decreases n,
{ if n > 0 { lemma_players_remove(gs, i, n - 1); } }
proof fn lemma_players_pos(gs: Seq<CombinedRange>, n: int)
    requires n <= gs.len(),
    ensures players_of(gs, n) >= 0, forall|i: int| 0 <= i < n ==> players_of(gs, n) >= #[trigger] gs[i].player_count, 
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> players_of(gs, n) >= #[trigger] gs[i].player_count + #[trigger] gs[j].player_count,
    decreases n,
{ if n > 0 { lemma_players_pos(gs, n - 1); } }
proof fn lemma_step(gs: Seq<CombinedRange>, rs: Seq<HandRange>, j: int, i: int, g: CombinedRange)
    requires groups_of(gs, rs), 0 <= j < i < gs.len(), is_group(g, rs),
        g.player_count == gs[j].player_count + gs[i].player_count,
        forall|k: int| 0 <= k < gs[j].player_count ==> #[trigger] g.players@[k] == gs[j].players@[k],
        forall|k: int| gs[j].player_count <= k < g.player_count ==> #[trigger] g.players@[k] == gs[i].players@[k - gs[j].player_count],
    ensures groups_of(gs.update(j, g).remove(i), rs),
{
    let u = gs.update(j, g); let v = u.remove(i);
    assert(v.len() == gs.len() - 1);
    assert forall|a: int| 0 <= a < v.len() implies #[trigger] v[a] == (if a < i { if a == j { g } else { gs[a] } } else { gs[a + 1] }) by {}
    let old_of = |a: int| if a < i { a } else { a + 1 };
    assert(own_players(gs[j]) && own_players(gs[i]) && no_common(gs[j], gs[i]));
    let nj = gs[j].player_count as int;
    assert(own_players(g)) by {
        assert forall|x: int, y: int| 0 <= x < y < g.player_count implies #[trigger] g.players@[x] != #[trigger] g.players@[y] by {
            if y < nj { assert(gs[j].players@[x] != gs[j].players@[y]); }
            else if x >= nj { assert(gs[i].players@[x - nj] != gs[i].players@[y - nj]); }
            else { assert(gs[j].players@[x] != gs[i].players@[y - nj]); }
        }
    }
    assert forall|a: int| 0 <= a < v.len() implies own_players(#[trigger] v[a]) by {
        let oa = old_of(a); assert(own_players(gs[oa]));
    }
    assert forall|b: int| 0 <= b < gs.len() && b != i && b != j implies no_common(g, #[trigger] gs[b]) && no_common(gs[b], g) by {
        assert(no_common(gs[j], gs[b]) && no_common(gs[i], gs[b]));
        assert forall|x: int, y: int| 0 <= x < g.player_count && 0 <= y < gs[b].player_count implies #[trigger] g.players@[x] != #[trigger] gs[b].players@[y] by {
            if x < nj { assert(gs[j].players@[x] != gs[b].players@[y]); } else { assert(gs[i].players@[x - nj] != gs[b].players@[y]); }
        }
    }
    assert forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && a != b implies no_common(#[trigger] v[a], #[trigger] v[b]) by {
        let oa = old_of(a); let ob = old_of(b);
        assert(oa != ob && oa != i && ob != i);
        if oa == j { assert(no_common(g, gs[ob])); } else if ob == j { assert(no_common(gs[oa], g)); } else { assert(no_common(gs[oa], gs[ob])); }
    }
    assert forall|a: int| 0 <= a < v.len() implies is_group(#[trigger] v[a], rs) by { let oa = old_of(a); assert(is_group(gs[oa], rs)); }
    assert forall|p: int| 0 <= p < rs.len() implies placed(v, p) by {
        assert(placed(gs, p));
        let a = choose|a: int| 0 <= a < gs.len() && #[trigger] has_player(gs[a], p);
        let k = choose|k: int| 0 <= k < gs[a].player_count && #[trigger] gs[a].players@[k] == p;
        if a == j { assert(g.players@[k] == p); assert(has_player(g, p)); assert(has_player(v[j], p)); }
        else if a == i { assert(g.players@[nj + k] == gs[i].players@[nj + k - nj]); assert(g.players@[nj + k] == p); assert(has_player(v[j], p)); }
        else { let b = if a < i { a } else { a - 1 }; assert(v[b] == gs[a]); assert(has_player(v[b], p)); }
    }
}
pub open spec fn small(gs: Seq<CombinedRange>) -> bool { forall|a: int| 0 <= a < gs.len() ==> (#[trigger] gs[a]).combos.len() <= 0x4000_0000 }
pub open spec fn pairs_of(a: CombinedRange, b: CombinedRange) -> int { all_pairs(a.combos@, b.combos@, a.combos.len() as int) }
pub open spec fn one_each(gs: Seq<CombinedRange>, rs: Seq<HandRange>, n: int) -> bool {
    gs.len() == n && forall|a: int| 0 <= a < n ==> (#[trigger] gs[a]).player_count == 1 && gs[a].players@[0] == a && gs[a].combos.len() == rs[a].hands.len() && is_group(gs[a], rs)
}
proof fn lemma_one_each(gs: Seq<CombinedRange>, rs: Seq<HandRange>, n: int)
    requires one_each(gs, rs, rs.len() as int), 0 <= n <= rs.len(),
    ensures groups_of(gs, rs), players_of(gs, n) == n,
    decreases n,
{
    if n > 0 { lemma_one_each(gs, rs, n - 1); }
    assert forall|p: int| 0 <= p < rs.len() implies placed(gs, p) by { assert(gs[p].players@[0] == p); assert(has_player(gs[p], p)); }
    assert forall|a: int, b: int| 0 <= a < gs.len() && 0 <= b < gs.len() && a != b implies no_common(#[trigger] gs[a], #[trigger] gs[b]) by {}
}
proof fn lemma_row_swap(a: Seq<Combo>, b: Seq<Combo>, x: int, n: int)
    requires 0 <= n <= b.len(), 0 <= x < a.len(),
    ensures row_pairs(a, b, x, n) == col_pairs(b, a, n, x),
    decreases n,
{ if n > 0 { lemma_row_swap(a, b, x, n - 1); } }
// pairs of the first n of b with a[x]
pub open spec fn col_pairs(b: Seq<Combo>, a: Seq<Combo>, n: int, x: int) -> int decreases n { if n <= 0 { 0 } else { col_pairs(b, a, n - 1, x) + if pair_ok(a, b, x, n - 1) { 1int } else { 0 } } }
pub open spec fn some_pairs(b: Seq<Combo>, a: Seq<Combo>, n: int, m: int) -> int decreases n { if n <= 0 { 0 } else { some_pairs(b, a, n - 1, m) + row_pairs(b, a, n - 1, m) } }
proof fn lemma_some_col(b: Seq<Combo>, a: Seq<Combo>, n: int, m: int)
    requires 0 <= n <= b.len(), 0 < m <= a.len(),
    ensures some_pairs(b, a, n, m) == some_pairs(b, a, n, m - 1) + col_pairs(b, a, n, m - 1),
    decreases n,
{
    if n > 0 {
        lemma_some_col(b, a, n - 1, m);
        let (p, q) = (a[m - 1].mask, b[n - 1].mask);
        assert(p & q == q & p) by (bit_vector);
        assert(pair_ok(a, b, m - 1, n - 1) == pair_ok(b, a, n - 1, m - 1));
    }
}
proof fn lemma_some_zero(b: Seq<Combo>, a: Seq<Combo>, n: int)
    ensures some_pairs(b, a, n, 0) == 0,
    decreases n,
{ if n > 0 { lemma_some_zero(b, a, n - 1); } }
proof fn lemma_all_some(a: Seq<Combo>, b: Seq<Combo>, m: int)
    requires 0 <= m <= a.len(),
    ensures all_pairs(a, b, m) == some_pairs(b, a, b.len() as int, m),
    decreases m,
{
    if m > 0 { lemma_all_some(a, b, m - 1); lemma_row_swap(a, b, m - 1, b.len() as int); lemma_some_col(b, a, b.len() as int, m); }
    else { lemma_some_zero(b, a, b.len() as int); }
}
proof fn lemma_some_all(b: Seq<Combo>, a: Seq<Combo>, n: int)
    ensures some_pairs(b, a, n, a.len() as int) == all_pairs(b, a, n),
    decreases n,
{ if n > 0 { lemma_some_all(b, a, n - 1); } }
proof fn lemma_pairs_swap(a: Seq<Combo>, b: Seq<Combo>)
    ensures all_pairs(a, b, a.len() as int) == all_pairs(b, a, b.len() as int),
{ lemma_all_some(a, b, a.len() as int); lemma_some_all(b, a, b.len() as int); }
//@ fn src/equity_calculator/combined_range.rs CombinedRange::from_ranges
//@ ret r
//@ rw let mut $v: Vec<CombinedRange> = ranges.iter().enumerate().map(|($i, $r)| $e).collect(); =>> let mut $v: Vec<CombinedRange> = Vec::new(); { let mut i__: usize = 0; while i__ < ranges.len() invariant i__ <= ranges.len(), ranges.len() <= 9, proper(ranges@), one_each($v@, ranges@, i__ as int), decreases ranges.len() - i__ { let $i = i__; let $r = &ranges[i__]; $v.push($e); i__ += 1; } }
//@ rw let ($h, $t) = $v.split_at_mut($n); $h[$j] = $h[$j].join(&mut $t[$i]); =>> let n__ = $n; assert(n__ <= $v.len() && $j < n__); let joined__ = $v[$j].join(&$v[n__ + ($i)]); $v[$j] = joined__;
//@ spec
    requires ranges.len() <= 9, proper(ranges@), forall|p: int| 0 <= p < ranges.len() ==> (#[trigger] ranges@[p]).hands.len() <= 0x4000_0000,
    ensures groups_of(r@, ranges@),
//@ loop 2
    invariant_except_break groups_of(c_ranges@, ranges@), small(c_ranges@), players_of(c_ranges@, c_ranges.len() as int) <= 9, proper(ranges@),
    ensures groups_of(c_ranges@, ranges@),
    decreases c_ranges.len(),
//@ at loop 2 pre
    proof { lemma_one_each(c_ranges@, ranges@, ranges.len() as int); }
//@ at loop 2 start
    let ghost gs0 = c_ranges@;
//@ loop 3
    invariant 0 <= k__3 <= c_ranges.len(), e__3 == c_ranges.len(), small(c_ranges@),
        best_size != u64::MAX ==> best_j < best_i < c_ranges.len() && best_size == pairs_of(c_ranges@[best_i as int], c_ranges@[best_j as int]),
    decreases e__3 - k__3,
//@ at loop 3 post
    proof {
        if best_size != u64::MAX {
            let (x, y) = (gs0[best_i as int], gs0[best_j as int]);
            lemma_cards(x, ranges@); lemma_cards(y, ranges@);
            lemma_players_pos(gs0, gs0.len() as int);
            lemma_pairs_swap(x.combos@, y.combos@);
        }
    }
//@ at loop 2 end
    proof {
        let (i, j) = (best_i as int, best_j as int);
        let a = gs0[j]; let b = gs0[i];
        let u = c_ranges@; let g = u[j];
        assert(u =~= gs0.update(j, g).remove(i));
        let src = choose|src: Seq<(int, int)>| #[trigger] joined(a, b, g.combos@, src, a.combos.len() as int, 0);
        assert(is_group(a, ranges@) && is_group(b, ranges@));
        lemma_join(a, b, g, src, ranges@);
        lemma_step(gs0, ranges@, j, i, g);
        lemma_players_update(gs0, j, g, gs0.len() as int);
        lemma_players_remove(gs0.update(j, g), i, gs0.len() as int);
        assert(small(u)) by { assert forall|k: int| 0 <= k < u.len() implies (#[trigger] u[k]).combos.len() <= 0x4000_0000 by {
            if k == j { } else if k < i { assert(u[k] == gs0[k]); } else { assert(u[k] == gs0[k + 1]); } } }
    }
//@ loop 4
    invariant 0 <= k__4 <= i, e__4 == i, i < c_ranges.len(), small(c_ranges@),
        best_size != u64::MAX ==> best_j < best_i < c_ranges.len() && best_size == pairs_of(c_ranges@[best_i as int], c_ranges@[best_j as int]),
    decreases e__4 - k__4,
//@ end
//@ fn src/equity_calculator/combined_range.rs CombinedRange::player_count
//@ ret r
//@ spec
    ensures r == self.player_count,
//@ end
//@ fn src/equity_calculator/combined_range.rs CombinedRange::players
//@ ret r
//@ spec
    ensures r@ == self.players@,
//@ end
//@ fn src/equity_calculator/combined_range.rs CombinedRange::combos
//@ ret r
//@ spec
    ensures *r == self.combos,
//@ end
//@ fn src/equity_calculator/combined_range.rs CombinedRange::size
//@ ret r
//@ spec
    ensures r == self.size,
//@ end
} // verus!
fn main() {}
