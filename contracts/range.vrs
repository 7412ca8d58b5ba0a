// C07, C08, C09: range texts.
#![feature(allocator_api)]
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@ include std
//@ include rangespec
//@ include rangestd
//@ include combos
// ---- lemmas
pub proof fn lemma_adds_none(a: Seq<Combo>, w: int, p: spec_fn(int, int) -> bool)
    requires forall|hi: int, lo: int| ordered(hi, lo) ==> !#[trigger] p(hi, lo),
    ensures adds(a, a, w, p),
{}
pub proof fn lemma_adds_more(a: Seq<Combo>, b: Seq<Combo>, c: Seq<Combo>, w: int, p: spec_fn(int, int) -> bool, q: spec_fn(int, int) -> bool, r: spec_fn(int, int) -> bool)
    requires adds(a, b, w, p), adds(b, c, w, q), forall|hi: int, lo: int| ordered(hi, lo) ==> #[trigger] r(hi, lo) == (p(hi, lo) || q(hi, lo)),
    ensures adds(a, c, w, r),
{
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] c[k] == a[k] by { assert(b[k] == a[k]); }
    assert forall|k: int| a.len() <= k < c.len() implies ordered((#[trigger] c[k]).0 as int, c[k].1 as int) && c[k].2 == w && r(c[k].0 as int, c[k].1 as int) by {
        if k < b.len() { assert(c[k] == b[k]); }
    }
    assert forall|hi: int, lo: int| ordered(hi, lo) && #[trigger] r(hi, lo) implies added(a, c, hi, lo) by {
        if p(hi, lo) {
            assert(added(a, b, hi, lo));
            let k = choose|k: int| a.len() <= k < b.len() && (#[trigger] b[k]).0 == hi && b[k].1 == lo;
            assert(c[k] == b[k]);
        } else {
            assert(added(b, c, hi, lo));
            let k = choose|k: int| b.len() <= k < c.len() && (#[trigger] c[k]).0 == hi && c[k].1 == lo;
            assert(a.len() <= k);
        }
    }
}
pub proof fn lemma_adds_same(a: Seq<Combo>, b: Seq<Combo>, w: int, p: spec_fn(int, int) -> bool, q: spec_fn(int, int) -> bool)
    requires adds(a, b, w, p), forall|hi: int, lo: int| ordered(hi, lo) ==> #[trigger] q(hi, lo) == p(hi, lo),
    ensures adds(a, b, w, q),
{}
pub open spec fn combo_of(c1: int, c2: int, w: int) -> Combo { if c1 < c2 { Combo(c2 as u8, c1 as u8, w as u8) } else { Combo(c1 as u8, c2 as u8, w as u8) } }
pub open spec fn is_pair(c1: int, c2: int, hi: int, lo: int) -> bool { (hi == c1 && lo == c2) || (hi == c2 && lo == c1) }
pub proof fn lemma_adds_one(a: Seq<Combo>, c1: int, c2: int, w: int)
    requires 0 <= c1 < 52, 0 <= c2 < 52, c1 != c2, 0 <= w <= 255,
    ensures adds(a, a.push(combo_of(c1, c2, w)), w, |hi: int, lo: int| is_pair(c1, c2, hi, lo)),
{
    let b = a.push(combo_of(c1, c2, w));
    assert(b[a.len() as int] == combo_of(c1, c2, w));
}
pub proof fn lemma_normal(l: Seq<Combo>, s: Seq<Combo>, p: Seq<int>, items: Seq<(Item, int)>)
    requires lists(l, items), sorts(l, s, p), forall|j: int, k: int| 0 <= j < k < p.len() && <Combo as OrdSpec>::cmp_spec(&s[j], &s[k]) == Ordering::Equal ==> #[trigger] p[j] < #[trigger] p[k],
    ensures is_range(dedup(s), items),
{
    assert forall|k: int| 0 <= k < s.len() implies is_combo(#[trigger] s[k]) by { assert(s[k] == l[p[k]]); }
    assert forall|j: int, k: int| 0 <= j < k < s.len() implies combo_key(#[trigger] s[j]) <= combo_key(#[trigger] s[k]) by { assert(<Combo as OrdSpec>::cmp_spec(&s[j], &s[k]) != Ordering::Greater); }
    lemma_dedup(s);
    let d = dedup(s);
    assert forall|k: int| 0 <= k < d.len() implies is_combo(#[trigger] d[k]) && first_weight(items, d[k].0 as int, d[k].1 as int) == Some(d[k].2 as int) by {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == d[k] && first_at(s, j);
        assert(s[j] == l[p[j]]);
        assert(first_at(l, p[j])) by {
            assert forall|i: int| 0 <= i < p[j] implies !((#[trigger] l[i]).0 == l[p[j]].0 && l[i].1 == l[p[j]].1) by {
                if l[i].0 == l[p[j]].0 && l[i].1 == l[p[j]].1 {
                    assert(p.contains(i));
                    let q = choose|q: int| 0 <= q < p.len() && p[q] == i;
                    assert(s[q] == l[i]);
                    assert(combo_key(s[q]) == combo_key(s[j]));
                    if q < j { assert(!(s[q].0 == s[j].0 && s[q].1 == s[j].1)); }
                    if q > j { assert(<Combo as OrdSpec>::cmp_spec(&s[j], &s[q]) == Ordering::Equal); assert(p[j] < p[q]); }
                }
            }
        }
    }
    assert(distinct(d)) by {
        assert forall|j: int, k: int| 0 <= j < k < d.len() implies !((#[trigger] d[j]).0 == (#[trigger] d[k]).0 && d[j].1 == d[k].1) by { assert(combo_key(d[j]) < combo_key(d[k])); }
    }
    assert forall|hi: int, lo: int| ordered(hi, lo) && #[trigger] first_weight(items, hi, lo) is Some implies listed(d, hi, lo) by {
        assert(listed(l, hi, lo));
        let i = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0 == hi && l[k].1 == lo;
        assert(p.contains(i));
        let q = choose|q: int| 0 <= q < p.len() && p[q] == i;
        assert(s[q] == l[i]);
        assert(listed(d, s[q].0 as int, s[q].1 as int));
    }
}
// one more item
pub proof fn lemma_lists(a: Seq<Combo>, b: Seq<Combo>, items: Seq<(Item, int)>, it: Item, w: int)
    requires lists(a, items), adds_item(a, b, w, it), 0 <= w <= 100,
    ensures lists(b, items.push((it, w))),
{
    let more = items.push((it, w));
    assert(more.drop_last() =~= items);
    assert(more.last() == (it, w));
    let p = |hi: int, lo: int| names(it, hi, lo);
    assert forall|k: int| 0 <= k < b.len() implies is_combo(#[trigger] b[k]) && first_weight(more, b[k].0 as int, b[k].1 as int) is Some
        && (first_at(b, k) ==> first_weight(more, b[k].0 as int, b[k].1 as int) == Some(b[k].2 as int)) by {
        if k < a.len() {
            assert(b[k] == a[k]);
            if first_at(b, k) { assert(first_at(a, k)) by { assert forall|j: int| 0 <= j < k implies !((#[trigger] a[j]).0 == a[k].0 && a[j].1 == a[k].1) by { assert(b[j] == a[j]); } } }
        } else {
            assert(p(b[k].0 as int, b[k].1 as int));
            if first_at(b, k) && first_weight(items, b[k].0 as int, b[k].1 as int) is Some {
                assert(listed(a, b[k].0 as int, b[k].1 as int));
                let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0 == b[k].0 && a[j].1 == b[k].1;
                assert(b[j] == a[j]);
            }
        }
    }
    assert forall|hi: int, lo: int| ordered(hi, lo) && #[trigger] first_weight(more, hi, lo) is Some implies listed(b, hi, lo) by {
        if first_weight(items, hi, lo) is Some {
            assert(listed(a, hi, lo));
            let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0 == hi && a[j].1 == lo;
            assert(b[j] == a[j]);
        } else {
            assert(p(hi, lo));
            assert(added(a, b, hi, lo));
        }
    }
}
pub proof fn lemma_number(v: Seq<char>, i: int, e: int)
    requires i <= e <= digits_end(v, i),
    ensures decimal(v, i, e) >= 0,
    decreases e - i,
{
    if e > i { lemma_number(v, i, e - 1); lemma_in_digits(v, i, e - 1); }
}
// within the digits that start at i
pub proof fn lemma_in_digits(v: Seq<char>, i: int, k: int)
    requires i <= k <= digits_end(v, i),
    ensures k < digits_end(v, i) ==> 0 <= k < v.len() && digit_of(v[k]) >= 0, digits_end(v, k) == digits_end(v, i),
    decreases v.len() - i,
{
    if i < k { lemma_in_digits(v, i + 1, k); }
}
pub proof fn lemma_weight(v: Seq<char>, j: int)
    requires text_ok(v), 0 <= j < v.len(),
    ensures j <= read_weight(v, j).1 < v.len(), 0 <= read_weight(v, j).0 <= 100,
{
    reveal(read_weight);
    if v[j] == '@' { lemma_digits(v, j + 1); lemma_number(v, j + 1, digits_end(v, j + 1)); }
}
pub proof fn lemma_reads(v: Seq<char>, i: int)
    requires text_ok(v), 0 <= i < v.len(),
    ensures read_item(v, i) matches Some((it, w, e)) ==> i < e < v.len() && 0 <= w <= 100,
{
    reveal(read_dash);
    if let Some((it, w, e)) = read_item(v, i) {
        let n = v.len() - 1;
        if suit_of(v[i + 1]) >= 0 { lemma_weight(v, i + 4); }
        else {
            let j = if v[i + 2] != 'o' && v[i + 2] != 's' { i + 2 } else { i + 3 };
            if v[j] == '+' { lemma_weight(v, j + 1); }
            else if v[j] == '-' {
                let r2 = rank_of(v[i + 1]);
                lemma_weight(v, read_dash(v, j + 1, rank_of(v[i]), r2, v[i + 2] != 'o', v[i + 2] != 's'));
            } else { lemma_weight(v, j); }
        }
    }
}

// ---- the functions
//@ fn src/hand_range.rs char_to_rank
//@ ret r
//@ spec
    ensures r == (if rank_of(c) >= 0 { rank_of(c) } else { 255 }),
//@ end
//@ fn src/hand_range.rs char_to_suit
//@ ret r
//@ spec
    ensures r == (if suit_of(c) >= 0 { suit_of(c) } else { 255 }),
//@ end
//@ fn src/hand_range.rs HandRange::parse_char
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@), c != ' ',
    ensures *final(self) == *old(self), r == (old(self).char_vec@[*old(i) as int] == c), *final(i) == (if r { *old(i) + 1 } else { *old(i) as int }), *final(i) < old(self).char_vec.len(),
//@ end
//@ fn src/hand_range.rs HandRange::parse_rank
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@),
    ensures *final(self) == *old(self), r == (rank_of(old(self).char_vec@[*old(i) as int]) >= 0), r ==> *final(rank) == rank_of(old(self).char_vec@[*old(i) as int]),
        *final(i) == (if r { *old(i) + 1 } else { *old(i) as int }), *final(i) < old(self).char_vec.len(),
//@ end
//@ fn src/hand_range.rs HandRange::parse_suit
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@),
    ensures *final(self) == *old(self), r == (suit_of(old(self).char_vec@[*old(i) as int]) >= 0), r ==> *final(suit) == suit_of(old(self).char_vec@[*old(i) as int]),
        *final(i) == (if r { *old(i) + 1 } else { *old(i) as int }), *final(i) < old(self).char_vec.len(),
//@ end
//@ fn src/hand_range.rs HandRange::parse_weight
//@ ret r
//@ spec
    requires *old(i) < self.char_vec.len(), text_ok(self.char_vec@), *old(weight) == 100, *old(i) > 0, self.char_vec@[*old(i) - 1] == '@',
    ensures *final(weight) == read_weight(self.char_vec@, *old(i) - 1).0, *final(i) == read_weight(self.char_vec@, *old(i) - 1).1, *final(i) < self.char_vec.len(), *final(weight) <= 100,
//@ loop 1
    invariant *old(i) <= *i < self.char_vec.len(), text_ok(self.char_vec@), backtrack == *old(i), *weight == *old(weight), *weight == 100,
        self.char_vec@[*old(i) - 1] == '@', *old(i) > 0,
        *i <= digits_end(self.char_vec@, *old(i) as int) < self.char_vec.len(), number == (if decimal(self.char_vec@, *old(i) as int, *i as int) > 0xffff_ffff { 0xffff_ffff } else { decimal(self.char_vec@, *old(i) as int, *i as int) }),
        decimal(self.char_vec@, *old(i) as int, *i as int) >= 0,
    decreases self.char_vec.len() - *i,
//@ at start
    proof { reveal(read_weight); lemma_digits(self.char_vec@, *i as int); }
//@ at loop 1 start
    proof {
        reveal(read_weight);
        lemma_in_digits(self.char_vec@, *old(i) as int, *i as int);
        lemma_number(self.char_vec@, *old(i) as int, *i as int);
        if digit_of(self.char_vec@[*i as int]) >= 0 { lemma_digits(self.char_vec@, *i + 1); lemma_number(self.char_vec@, *old(i) as int, *i + 1); }
    }
//@ end
//@ fn src/hand_range.rs HandRange::add_combo
//@ spec
    ensures final(self).char_vec == old(self).char_vec,
        final(self).hands@ == (if c1 > 51 || c2 > 51 || c1 == c2 { old(self).hands@ } else { old(self).hands@.push(combo_of(c1 as int, c2 as int, weight as int)) }),
//@ at start
    proof {
        assert(c1 >> 2 == c1 / 4 && c2 >> 2 == c2 / 4 && c1 & 3 == c1 % 4 && c2 & 3 == c2 % 4) by (bit_vector);
    }
//@ end
// ---- adding hands
pub open spec fn of2(a: int, b: int, hi: int, lo: int) -> bool { (hi / 4 == a && lo / 4 == b) || (hi / 4 == b && lo / 4 == a) }
pub open spec fn some_of(a: int, b: int, suited: bool, offsuited: bool, n: int, x: int, y: int, hi: int, lo: int) -> bool {
    of2(a, b, hi, lo) && if hi % 4 == lo % 4 { suited && hi % 4 < n } else {
        offsuited && (low(hi % 4, lo % 4) < x || (low(hi % 4, lo % 4) == x && high(hi % 4, lo % 4) < y))
    }
}
pub open spec fn some(a: int, b: int, suited: bool, offsuited: bool, n: int, x: int, y: int) -> spec_fn(int, int) -> bool { |hi: int, lo: int| some_of(a, b, suited, offsuited, n, x, y, hi, lo) }
pub open spec fn all_of(a: int, b: int, suited: bool, offsuited: bool) -> spec_fn(int, int) -> bool { |hi: int, lo: int| of_ranks(a, b, suited, offsuited, hi, lo) }
pub open spec fn named(it: Item) -> spec_fn(int, int) -> bool { |hi: int, lo: int| names(it, hi, lo) }
pub open spec fn pairing(c1: int, c2: int) -> spec_fn(int, int) -> bool { |hi: int, lo: int| is_pair(c1, c2, hi, lo) }
proof fn lemma_step1(h: Seq<Combo>, b: Seq<Combo>, w: int, p: spec_fn(int, int) -> bool, q: spec_fn(int, int) -> bool, c1: int, c2: int)
    requires adds(h, b, w, p), 0 <= c1 < 52, 0 <= c2 < 52, c1 != c2, 0 <= w <= 255, forall|hi: int, lo: int| ordered(hi, lo) ==> #[trigger] q(hi, lo) == (p(hi, lo) || is_pair(c1, c2, hi, lo)),
    ensures adds(h, b.push(combo_of(c1, c2, w)), w, q),
{
    lemma_adds_one(b, c1, c2, w);
    let r = |hi: int, lo: int| is_pair(c1, c2, hi, lo);
    assert forall|hi: int, lo: int| ordered(hi, lo) implies #[trigger] q(hi, lo) == (p(hi, lo) || r(hi, lo)) by {}
    lemma_adds_more(h, b, b.push(combo_of(c1, c2, w)), w, p, r, q);
}
pub open spec fn to(it: Item, n: int) -> Item { match it { Item::Run { pairs, top, from, to, suited, offsuited } => Item::Run { pairs, top, from, to: n, suited, offsuited }, c => c } }
// a run extended by one rank
proof fn lemma_run(h: Seq<Combo>, b: Seq<Combo>, c: Seq<Combo>, w: int, it: Item, n: int, a: int)
    requires it is Run, it->from <= n, it->to == n, adds(h, b, w, named(it)), a == (if it->pairs { n } else { it->top }), adds(b, c, w, all_of(a, n, it->suited, it->offsuited)),
    ensures adds(h, c, w, named(to(it, n + 1))),
{
    let jt = to(it, n + 1);
    let (p, q, r) = (named(it), all_of(a, n, it->suited, it->offsuited), named(jt));
    assert forall|hi: int, lo: int| ordered(hi, lo) implies #[trigger] r(hi, lo) == (p(hi, lo) || q(hi, lo)) by {
        if p(hi, lo) { let k = choose|k: int| it->from <= k < n && in_run(it, k, hi, lo); assert(in_run(jt, k, hi, lo)); }
        if q(hi, lo) { assert(in_run(jt, n, hi, lo)); }
        if r(hi, lo) { let k = choose|k: int| it->from <= k < n + 1 && in_run(jt, k, hi, lo); if k < n { assert(in_run(it, k, hi, lo)); } }
    }
    lemma_adds_more(h, b, c, w, p, q, r);
}
proof fn lemma_run_none(h: Seq<Combo>, w: int, it: Item)
    requires it is Run, it->from >= it->to,
    ensures adds(h, h, w, named(it)),
{ lemma_adds_none(h, w, named(it)); }
//@ fn src/hand_range.rs HandRange::add_combos
//@ spec
    requires rank1 < 13, rank2 < 13,
    ensures final(self).char_vec == old(self).char_vec, adds(old(self).hands@, final(self).hands@, weight as int, all_of(rank1 as int, rank2 as int, suited, offsuited)),
//@ at start
    let ghost before = self.hands@;
    let ghost chars = self.char_vec;
    proof { lemma_adds_none(before, weight as int, some(rank1 as int, rank2 as int, suited, false, 0, 0, 0)); }
//@ loop 1
    invariant 0 <= k__1 <= 4, e__1 == 4, rank1 < 13, rank2 < 13, rank1 != rank2, suited, self.char_vec == chars,
        adds(before, self.hands@, weight as int, some(rank1 as int, rank2 as int, suited, false, k__1 as int, 0, 0)),
    decreases 4 - k__1,
//@ at loop 1 start
    let ghost here = self.hands@;
//@ at loop 1 end
    proof { lemma_step1(before, here, weight as int, some(rank1 as int, rank2 as int, suited, false, suit as int, 0, 0), some(rank1 as int, rank2 as int, suited, false, suit + 1, 0, 0), 4 * rank1 + suit, 4 * rank2 + suit); }
//@ loop 2
    invariant 0 <= k__2 <= 4, e__2 == 4, rank1 < 13, rank2 < 13, offsuited, self.char_vec == chars,
        adds(before, self.hands@, weight as int, some(rank1 as int, rank2 as int, suited, offsuited, 4, k__2 as int, 0)),
    decreases 4 - k__2,
//@ at loop 2 pre
    proof { lemma_adds_same(before, self.hands@, weight as int, some(rank1 as int, rank2 as int, suited, false, if suited && rank1 != rank2 { 4 } else { 0 }, 0, 0), some(rank1 as int, rank2 as int, suited, offsuited, 4, 0, 0)); }
//@ loop 3
    invariant suit1 + 1 <= k__3 <= 4, e__3 == 4, rank1 < 13, rank2 < 13, offsuited, self.char_vec == chars, 0 <= suit1 < 4,
        adds(before, self.hands@, weight as int, some(rank1 as int, rank2 as int, suited, offsuited, 4, suit1 as int, k__3 as int)),
    decreases 4 - k__3,
//@ at loop 3 pre
    proof { lemma_adds_same(before, self.hands@, weight as int, some(rank1 as int, rank2 as int, suited, offsuited, 4, suit1 as int, 0), some(rank1 as int, rank2 as int, suited, offsuited, 4, suit1 as int, suit1 + 1)); }
//@ at loop 3 start
    let ghost here = self.hands@;
//@ at loop 3 end
    proof {
        let (r1, r2, w) = (rank1 as int, rank2 as int, weight as int);
        let p = some(r1, r2, suited, offsuited, 4, suit1 as int, suit2 as int);
        let q = some(r1, r2, suited, offsuited, 4, suit1 as int, suit2 + 1);
        let (c1, c2, c3, c4) = (4 * r1 + suit1, 4 * r2 + suit2, 4 * r1 + suit2, 4 * r2 + suit1);
        let m = |hi: int, lo: int| p(hi, lo) || is_pair(c1, c2, hi, lo);
        lemma_step1(before, here, w, p, m, c1, c2);
        assert forall|hi: int, lo: int| ordered(hi, lo) implies #[trigger] q(hi, lo) == (m(hi, lo) || is_pair(c3, c4, hi, lo)) by {}
        if rank1 != rank2 { lemma_step1(before, here.push(combo_of(c1, c2, w)), w, m, q, c3, c4); }
        else { lemma_adds_same(before, self.hands@, w, m, q); }
    }
//@ at loop 3 post
    proof { lemma_adds_same(before, self.hands@, weight as int, some(rank1 as int, rank2 as int, suited, offsuited, 4, suit1 as int, 4), some(rank1 as int, rank2 as int, suited, offsuited, 4, suit1 + 1, 0)); }
//@ at end
    proof { lemma_adds_same(before, self.hands@, weight as int, if offsuited { some(rank1 as int, rank2 as int, suited, offsuited, 4, 4, 0) } else { some(rank1 as int, rank2 as int, suited, false, if suited && rank1 != rank2 { 4 } else { 0 }, 0, 0) }, all_of(rank1 as int, rank2 as int, suited, offsuited)); }
//@ end
// the hands below (c1, c2), in the order of a full range
pub open spec fn below(hi: int, lo: int, c1: int, c2: int) -> bool { hi < c1 || (hi == c1 && lo < c2) }
pub open spec fn full_upto(l: Seq<Combo>, c1: int, c2: int) -> bool {
    &&& distinct(l)
    &&& forall|k: int| 0 <= k < l.len() ==> is_combo(#[trigger] l[k]) && l[k].2 == 100 && below(l[k].0 as int, l[k].1 as int, c1, c2)
    &&& forall|hi: int, lo: int| #[trigger] ordered(hi, lo) && below(hi, lo, c1, c2) ==> listed(l, hi, lo)
}
proof fn lemma_full(l: Seq<Combo>, c1: int, c2: int)
    requires full_upto(l, c1, c2), 0 <= c2 < c1 < 52,
    ensures full_upto(l.push(combo_of(c1, c2, 100)), c1, c2 + 1),
{
    let x = combo_of(c1, c2, 100);
    let m = l.push(x);
    assert forall|j: int, k: int| 0 <= j < k < m.len() implies !((#[trigger] m[j]).0 == (#[trigger] m[k]).0 && m[j].1 == m[k].1) by {
        if k == l.len() { assert(m[j] == l[j]); assert(below(l[j].0 as int, l[j].1 as int, c1, c2)); } else { assert(m[j] == l[j] && m[k] == l[k]); }
    }
    assert forall|hi: int, lo: int| #[trigger] ordered(hi, lo) && below(hi, lo, c1, c2 + 1) implies listed(m, hi, lo) by {
        if below(hi, lo, c1, c2) {
            let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0 == hi && l[k].1 == lo;
            assert(m[k] == l[k]);
        } else { assert(m[l.len() as int] == x); }
    }
}
proof fn lemma_full_next(l: Seq<Combo>, c1: int)
    requires full_upto(l, c1, c1), 0 <= c1 < 52,
    ensures full_upto(l, c1 + 1, 0),
{}
proof fn lemma_full_end(l: Seq<Combo>)
    requires full_upto(l, 52, 0),
    ensures is_full(l),
{}
proof fn lemma_one_rank(a: Seq<Combo>, b: Seq<Combo>, w: int, r1: int, r2: int, suited: bool, offsuited: bool)
    ensures adds(a, b, w, all_of(r1, r2, suited, offsuited)) ==> adds_item(a, b, w, run_item(false, r1, r2, r2 + 1, suited, offsuited)),
{
    if adds(a, b, w, all_of(r1, r2, suited, offsuited)) {
        let it = run_item(false, r1, r2, r2 + 1, suited, offsuited);
        let (p, q) = (all_of(r1, r2, suited, offsuited), |hi: int, lo: int| names(it, hi, lo));
        assert forall|hi: int, lo: int| ordered(hi, lo) implies #[trigger] q(hi, lo) == p(hi, lo) by { if p(hi, lo) { assert(in_run(it, r2, hi, lo)); } }
        lemma_adds_same(a, b, w, p, q);
    }
}
pub open spec fn run_item(pairs: bool, top: int, from: int, to: int, suited: bool, offsuited: bool) -> Item { Item::Run { pairs, top, from, to, suited, offsuited } }
//@ fn src/hand_range.rs HandRange::add_combos_plus
//@ spec
    requires rank1 < 13, rank2 < 13,
    ensures final(self).char_vec == old(self).char_vec, adds_item(old(self).hands@, final(self).hands@, weight as int, plus_item(rank1 as int, rank2 as int, suited, offsuited)),
//@ at start
    let ghost before = self.hands@;
    let ghost chars = self.char_vec;
//@ loop 1
    invariant rank1 <= k__1, k__1 <= e__1 || rank1 >= e__1, e__1 == 13, rank1 < 13, self.char_vec == chars,
        adds(before, self.hands@, weight as int, named(run_item(true, 0 as int, rank1 as int, k__1 as int, suited, offsuited))),
    decreases e__1 - k__1,
//@ at loop 1 pre
    proof { lemma_run_none(before, weight as int, run_item(true, 0 as int, rank1 as int, rank1 as int, suited, offsuited)); }
//@ at loop 1 start
    let ghost here = self.hands@;
//@ at loop 1 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(true, 0 as int, rank1 as int, r as int, suited, offsuited), r as int, r as int); }
//@ loop 2
    invariant rank2 <= k__2, if rank2 >= rank1 { k__2 == rank2 } else { k__2 <= rank1 }, e__2 == rank1, rank1 < 13, rank2 < 13, self.char_vec == chars,
        adds(before, self.hands@, weight as int, named(run_item(false, rank1 as int, rank2 as int, k__2 as int, suited, offsuited))),
    decreases e__2 - k__2,
//@ at loop 2 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank1 as int, rank2 as int, rank2 as int, suited, offsuited)); }
//@ at loop 2 start
    let ghost here = self.hands@;
//@ at loop 2 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank1 as int, rank2 as int, r as int, suited, offsuited), r as int, rank1 as int); }
//@ at end
    proof {
        let t = run_item(rank1 == rank2, if rank1 == rank2 { 0 } else { rank1 as int }, if rank1 == rank2 { rank1 as int } else { rank2 as int }, if rank1 == rank2 { 13 } else if rank2 <= rank1 { rank1 as int } else { rank2 as int }, suited, offsuited);
        let u = plus_item(rank1 as int, rank2 as int, suited, offsuited);
        assert forall|hi: int, lo: int| ordered(hi, lo) implies #[trigger] names(u, hi, lo) == names(t, hi, lo) by {
            if rank1 != rank2 && rank2 <= rank1 { assert(u == t); } else if rank1 == rank2 { assert(u == t); }
        }
        lemma_adds_same(before, self.hands@, weight as int, named(t), |hi: int, lo: int| names(plus_item(rank1 as int, rank2 as int, suited, offsuited), hi, lo));
    }
//@ end
//@ fn src/hand_range.rs HandRange::add_combos_dash
//@ spec
    requires rank1 < 13, rank2 < 13, rank3 < 13, rank4 < 13, rank1 == rank2 || rank1 == rank3 || rank1 == rank4 || rank2 == rank3 || rank2 == rank4,
    ensures final(self).char_vec == old(self).char_vec, adds_item(old(self).hands@, final(self).hands@, weight as int, dash_item(rank1 as int, rank2 as int, rank3 as int, rank4 as int, suited, offsuited)),
//@ at start
    let ghost before = self.hands@;
    let ghost chars = self.char_vec;
//@ loop 1
    invariant rank3 <= k__1 <= e__1 + 1, e__1 == rank1, rank1 < 13, rank3 < 13, self.char_vec == chars, rank3 <= rank1,
        adds(before, self.hands@, weight as int, named(run_item(true, 0 as int, rank3 as int, k__1 as int, suited, offsuited))),
    decreases e__1 + 1 - k__1,
//@ at loop 1 pre
    proof { lemma_run_none(before, weight as int, run_item(true, 0 as int, rank3 as int, rank3 as int, suited, offsuited)); }
//@ at loop 1 start
    let ghost here = self.hands@;
//@ at loop 1 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(true, 0 as int, rank3 as int, r as int, suited, offsuited), r as int, r as int); }
//@ loop 2
    invariant rank1 <= k__2 <= e__2 + 1, e__2 == rank3, rank1 < 13, rank3 < 13, self.char_vec == chars, rank1 <= rank3,
        adds(before, self.hands@, weight as int, named(run_item(true, 0 as int, rank1 as int, k__2 as int, suited, offsuited))),
    decreases e__2 + 1 - k__2,
//@ at loop 2 pre
    proof { lemma_run_none(before, weight as int, run_item(true, 0 as int, rank1 as int, rank1 as int, suited, offsuited)); }
//@ at loop 2 start
    let ghost here = self.hands@;
//@ at loop 2 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(true, 0 as int, rank1 as int, r as int, suited, offsuited), r as int, r as int); }
//@ loop 3
    invariant rank4 <= k__3 <= e__3 + 1, e__3 == rank2, rank1 < 13, rank2 < 13, rank4 < 13, self.char_vec == chars, rank4 <= rank2,
        adds(before, self.hands@, weight as int, named(run_item(false, rank1 as int, rank4 as int, k__3 as int, suited, offsuited))),
    decreases e__3 + 1 - k__3,
//@ at loop 3 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank1 as int, rank4 as int, rank4 as int, suited, offsuited)); }
//@ at loop 3 start
    let ghost here = self.hands@;
//@ at loop 3 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank1 as int, rank4 as int, r as int, suited, offsuited), r as int, rank1 as int); }
//@ loop 4
    invariant rank2 <= k__4 <= e__4 + 1, e__4 == rank4, rank1 < 13, rank2 < 13, rank4 < 13, self.char_vec == chars, rank2 <= rank4,
        adds(before, self.hands@, weight as int, named(run_item(false, rank1 as int, rank2 as int, k__4 as int, suited, offsuited))),
    decreases e__4 + 1 - k__4,
//@ at loop 4 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank1 as int, rank2 as int, rank2 as int, suited, offsuited)); }
//@ at loop 4 start
    let ghost here = self.hands@;
//@ at loop 4 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank1 as int, rank2 as int, r as int, suited, offsuited), r as int, rank1 as int); }
//@ loop 5
    invariant rank3 <= k__5 <= e__5 + 1, e__5 == rank2, rank1 < 13, rank2 < 13, rank3 < 13, self.char_vec == chars, rank3 <= rank2,
        adds(before, self.hands@, weight as int, named(run_item(false, rank1 as int, rank3 as int, k__5 as int, suited, offsuited))),
    decreases e__5 + 1 - k__5,
//@ at loop 5 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank1 as int, rank3 as int, rank3 as int, suited, offsuited)); }
//@ at loop 5 start
    let ghost here = self.hands@;
//@ at loop 5 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank1 as int, rank3 as int, r as int, suited, offsuited), r as int, rank1 as int); }
//@ loop 6
    invariant rank2 <= k__6 <= e__6 + 1, e__6 == rank3, rank1 < 13, rank2 < 13, rank3 < 13, self.char_vec == chars, rank2 <= rank3,
        adds(before, self.hands@, weight as int, named(run_item(false, rank1 as int, rank2 as int, k__6 as int, suited, offsuited))),
    decreases e__6 + 1 - k__6,
//@ at loop 6 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank1 as int, rank2 as int, rank2 as int, suited, offsuited)); }
//@ at loop 6 start
    let ghost here = self.hands@;
//@ at loop 6 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank1 as int, rank2 as int, r as int, suited, offsuited), r as int, rank1 as int); }
//@ loop 7
    invariant rank4 <= k__7 <= e__7 + 1, e__7 == rank1, rank1 < 13, rank2 < 13, rank4 < 13, self.char_vec == chars, rank4 <= rank1,
        adds(before, self.hands@, weight as int, named(run_item(false, rank2 as int, rank4 as int, k__7 as int, suited, offsuited))),
    decreases e__7 + 1 - k__7,
//@ at loop 7 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank2 as int, rank4 as int, rank4 as int, suited, offsuited)); }
//@ at loop 7 start
    let ghost here = self.hands@;
//@ at loop 7 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank2 as int, rank4 as int, r as int, suited, offsuited), r as int, rank2 as int); }
//@ loop 8
    invariant rank1 <= k__8 <= e__8 + 1, e__8 == rank4, rank1 < 13, rank2 < 13, rank4 < 13, self.char_vec == chars, rank1 <= rank4,
        adds(before, self.hands@, weight as int, named(run_item(false, rank2 as int, rank1 as int, k__8 as int, suited, offsuited))),
    decreases e__8 + 1 - k__8,
//@ at loop 8 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank2 as int, rank1 as int, rank1 as int, suited, offsuited)); }
//@ at loop 8 start
    let ghost here = self.hands@;
//@ at loop 8 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank2 as int, rank1 as int, r as int, suited, offsuited), r as int, rank2 as int); }
//@ loop 9
    invariant rank3 <= k__9 <= e__9 + 1, e__9 == rank1, rank1 < 13, rank2 < 13, rank3 < 13, self.char_vec == chars, rank3 <= rank1,
        adds(before, self.hands@, weight as int, named(run_item(false, rank2 as int, rank3 as int, k__9 as int, suited, offsuited))),
    decreases e__9 + 1 - k__9,
//@ at loop 9 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank2 as int, rank3 as int, rank3 as int, suited, offsuited)); }
//@ at loop 9 start
    let ghost here = self.hands@;
//@ at loop 9 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank2 as int, rank3 as int, r as int, suited, offsuited), r as int, rank2 as int); }
//@ loop 10
    invariant rank1 <= k__10 <= e__10 + 1, e__10 == rank3, rank1 < 13, rank2 < 13, rank3 < 13, self.char_vec == chars, rank1 <= rank3,
        adds(before, self.hands@, weight as int, named(run_item(false, rank2 as int, rank1 as int, k__10 as int, suited, offsuited))),
    decreases e__10 + 1 - k__10,
//@ at loop 10 pre
    proof { lemma_run_none(before, weight as int, run_item(false, rank2 as int, rank1 as int, rank1 as int, suited, offsuited)); }
//@ at loop 10 start
    let ghost here = self.hands@;
//@ at loop 10 end
    proof { lemma_run(before, here, self.hands@, weight as int, run_item(false, rank2 as int, rank1 as int, r as int, suited, offsuited), r as int, rank2 as int); }
//@ at end
    proof {
        let t = dash_item(rank1 as int, rank2 as int, rank3 as int, rank4 as int, suited, offsuited);
        lemma_adds_same(before, self.hands@, weight as int, named(t), |hi: int, lo: int| names(t, hi, lo));
    }
//@ end
//@ fn src/hand_range.rs HandRange::parse_combos_dash
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@), rank1 < 13, rank2 < 13,
    ensures *final(self) == *old(self), *final(suited) == *old(suited), *final(offsuited) == *old(offsuited), *final(i) < old(self).char_vec.len(),
        r == (read_dash(old(self).char_vec@, *old(i) as int, rank1 as int, rank2 as int, *old(suited), *old(offsuited)) >= 0),
        r ==> *final(i) == read_dash(old(self).char_vec@, *old(i) as int, rank1 as int, rank2 as int, *old(suited), *old(offsuited))
            && *final(rank3) == rank_of(old(self).char_vec@[*old(i) as int]) && *final(rank4) == rank_of(old(self).char_vec@[*old(i) + 1])
            && *final(rank3) < 13 && *final(rank4) < 13 && (rank1 == rank2 || rank1 == *final(rank3) || rank1 == *final(rank4) || rank2 == *final(rank3) || rank2 == *final(rank4)),
//@ rw? rank3 != rank4 =>> *rank3 != *rank4
//@ rw? rank3 == rank4 =>> *rank3 == *rank4
//@ rw? &rank1 != rank3 =>> rank1 != *rank3
//@ rw? &rank1 != rank4 =>> rank1 != *rank4
//@ rw? &rank2 != rank3 =>> rank2 != *rank3
//@ rw? &rank2 != rank4 =>> rank2 != *rank4
//@ at start
    proof { reveal(read_dash); }
//@ end
//@ fn src/hand_range.rs HandRange::add_all
//@ spec
    requires old(self).hands@.len() == 0,
    ensures final(self).char_vec == old(self).char_vec, is_full(final(self).hands@),
//@ loop 1
    invariant 0 <= k__1 <= 52, e__1 == 52, self.char_vec == chars, full_upto(self.hands@, k__1 as int, 0),
    decreases 52 - k__1,
//@ loop 2
    invariant 0 <= k__2 <= e__2, e__2 == c1, c1 < 52, self.char_vec == chars, full_upto(self.hands@, c1 as int, k__2 as int),
    decreases e__2 - k__2,
//@ at start
    let ghost chars = self.char_vec;
//@ at loop 2 start
    let ghost here = self.hands@;
//@ at loop 2 end
    proof { lemma_full(here, c1 as int, c2 as int); }
//@ at loop 2 post
    proof { lemma_full_next(self.hands@, c1 as int); }
//@ at end
    proof { lemma_full_end(self.hands@); }
//@ end
//@ fn src/hand_range.rs HandRange::remove_duplicates
//@ spec
    ensures final(self).char_vec == old(self).char_vec, forall|items: Seq<(Item, int)>| #[trigger] lists(old(self).hands@, items) ==> is_range(final(self).hands@, items),
//@ at start
    let ghost before = self.hands@;
    let ghost mut middle = self.hands@;
//@ at stmt `self.hands.dedup();` 1 before
    proof { middle = self.hands@; }
//@ at end
    proof {
        assert forall|items: Seq<(Item, int)>| #[trigger] lists(before, items) implies is_range(self.hands@, items) by {
            let p = choose|p: Seq<int>| #[trigger] sorts(before, middle, p) && forall|j: int, k: int| 0 <= j < k < p.len() && <Combo as OrdSpec>::cmp_spec(&middle[j], &middle[k]) == Ordering::Equal ==> #[trigger] p[j] < #[trigger] p[k];
            lemma_normal(before, middle, p, items);
        }
    }
//@ end
//@ fn src/hand_range.rs HandRange::parse_hand
//@ ret r
//@ spec
    requires *old(i) < old(self).char_vec.len(), text_ok(old(self).char_vec@),
    ensures final(self).char_vec == old(self).char_vec,
        match read_item(old(self).char_vec@, *old(i) as int) {
            None => !r && *final(i) == *old(i) && final(self).hands@ == old(self).hands@,
            Some((it, w, e)) => r && *final(i) == e && 0 <= w <= 100 && *old(i) < e < old(self).char_vec.len() && adds_item(old(self).hands@, final(self).hands@, w, it),
        },
//@ at start
    let ghost chars = self.char_vec@;
    let ghost before = self.hands@;
    proof {
        lemma_reads(chars, *i as int);
        assert forall|j: int| chars[j] != '@' && 0 <= j < chars.len() implies #[trigger] read_weight(chars, j) == (100int, j) by { reveal(read_weight); }
    }
//@ at end
    proof {
        if explicit_suits {
            let (c1, c2) = (4 * r1 + s1, 4 * r2 + s2);
            lemma_adds_one(before, c1, c2, weight as int);
            lemma_adds_same(before, self.hands@, weight as int, |hi: int, lo: int| is_pair(c1, c2, hi, lo), |hi: int, lo: int| names(Item::Cards { c1, c2 }, hi, lo));
        } else if *i > backtrack {
            let (suited, offsuited) = (chars[backtrack + 2] != 'o', chars[backtrack + 2] != 's');
            lemma_one_rank(before, self.hands@, weight as int, r1 as int, r2 as int, suited, offsuited);
        }
    }
//@ end
//@ fn src/hand_range.rs HandRange::from_string
//@ ret r
//@ spec
    ensures is_read(r.hands@, text@),
//@ rw text == "random" =>> is_text(&text, "random")
//@ rw text.to_lowercase().chars().collect() =>> lower_chars(&text)
//@ loop 1
    invariant_except_break i < range.char_vec.len(), text_ok(range.char_vec@), lists(range.hands@, done), read_items(range.char_vec@, 0) == done + read_items(range.char_vec@, i as int),
        range.char_vec@ == lowercase(text@).push(' '),
    ensures lists(range.hands@, read_items(range.char_vec@, 0)), range.char_vec@ == lowercase(text@).push(' '),
    decreases range.char_vec.len() - i,
//@ at loop 1 pre
    let ghost mut done = Seq::<(Item, int)>::empty();
    proof { assert(done + read_items(range.char_vec@, 0) =~= read_items(range.char_vec@, 0)); }
//@ at loop 1 start
    let ghost (h0, i0, v) = (range.hands@, i as int, range.char_vec@);
    proof { lemma_reads(v, i0); }
//@ at loop 1 exit
    proof {
        match read_item(v, i0) {
            None => { assert(done + read_items(v, i0) =~= done); }
            Some((it, w, e)) => { lemma_lists(h0, range.hands@, done, it, w); assert(done + read_items(v, i0) =~= done.push((it, w))); }
        }
    }
//@ at loop 1 end
    proof {
        let (it, w, e) = read_item(v, i0)->Some_0;
        lemma_lists(h0, range.hands@, done, it, w);
        assert(done + (seq![(it, w)] + read_items(v, e + 1)) =~= done.push((it, w)) + read_items(v, e + 1));
        done = done.push((it, w));
    }
//@ end
//@ fn src/hand_range.rs HandRange::from_strings
//@ ret r
//@ spec
    ensures r.len() == arr.len(), forall|k: int| 0 <= k < r.len() ==> is_read((#[trigger] r[k]).hands@, arr[k]@),
//@ rw let $r: Vec<HandRange> = arr.iter().map(|$s| HandRange::from_string($e)).collect(); =>> let mut $r: Vec<HandRange> = Vec::new(); let mut i__: usize = 0; while i__ < arr.len() invariant i__ <= arr.len(), $r.len() == i__, forall|k: int| 0 <= k < $r.len() ==> is_read((#[trigger] $r[k]).hands@, arr[k]@), decreases arr.len() - i__, { let $s = &arr[i__]; $r.push(HandRange::from_string($e)); i__ += 1; }
//@ rw? s.to_owned() =>> s.clone()
//@ end
} // verus!
fn main() {}
