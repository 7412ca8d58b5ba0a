// ---------------------------------------------------------------- what the definitions amount to
pub open spec fn hand52(s: Seq<bool>) -> bool { s.len() == 52 }
pub open spec fn nonneg(c: Seq<int>) -> bool { c.len() == 13 && forall|r: int| 0 <= r < 13 ==> #[trigger] c[r] >= 0 }
pub proof fn lemma_counts_nonneg(s: Seq<bool>)
    ensures nonneg(counts(s)), forall|k: int| 0 <= k < 4 ==> nonneg(#[trigger] suit_ranks(s, k)),
{
}
pub proof fn lemma_total_zero(c: Seq<int>, n: int)
    requires nonneg(c), 0 <= n <= 13,
    ensures total(c, n) >= 0, total(c, n) == 0 ==> forall|r: int| 0 <= r < n ==> c[r] == 0,
    decreases n,
{
    if n > 0 { lemma_total_zero(c, n - 1); }
}
// some entry is positive, or the total is not
pub proof fn lemma_total_pos(c: Seq<int>, n: int) -> (r: int)
    requires nonneg(c), 0 <= n <= 13, total(c, n) > 0,
    ensures 0 <= r < n, c[r] > 0,
    decreases n,
{
    if c[n - 1] > 0 { n - 1 } else { lemma_total_pos(c, n - 1) }
}
pub proof fn lemma_suits_upto(s: Seq<bool>, n: int)
    requires s.len() == 52, 0 <= n <= 13,
    ensures total(counts(s), n) == total(suit_ranks(s, 0), n) + total(suit_ranks(s, 1), n) + total(suit_ranks(s, 2), n) + total(suit_ranks(s, 3), n),
    decreases n,
{
    if n > 0 { lemma_suits_upto(s, n - 1); }
}
pub proof fn lemma_suits(s: Seq<bool>)
    requires s.len() == 52,
    ensures
        size(s) == suited(s, 0) + suited(s, 1) + suited(s, 2) + suited(s, 3),
        forall|k: int| 0 <= k < 4 ==> 0 <= #[trigger] suited(s, k) <= size(s),
{
    lemma_suits_upto(s, 13);
    lemma_counts_nonneg(s);
    lemma_total_zero(suit_ranks(s, 0), 13);
    lemma_total_zero(suit_ranks(s, 1), 13);
    lemma_total_zero(suit_ranks(s, 2), 13);
    lemma_total_zero(suit_ranks(s, 3), 13);
    assert(size(s) >= 0);
}
// a card of suit k
pub proof fn lemma_card_of_suit(s: Seq<bool>, k: int) -> (c: int)
    requires s.len() == 52, 0 <= k < 4, suited(s, k) > 0,
    ensures 0 <= c < 52, s[c], c % 4 == k,
{
    lemma_counts_nonneg(s);
    let r = lemma_total_pos(suit_ranks(s, k), 13);
    4 * r + k
}
// maxima
pub proof fn lemma_best_upto(c: Seq<int>, flush: bool, n: int)
    requires nonneg(c), total(c, 13) > 5, 0 <= n <= 13,
    ensures
        best_upto(c, flush, n) >= 0,
        forall|r: int| 0 <= r < n && c[r] > 0 ==> #[trigger] best(c.update(r, c[r] - 1), flush) <= best_upto(c, flush, n),
        best_upto(c, flush, n) == 0 || exists|r: int| 0 <= r < n && c[r] > 0 && best_upto(c, flush, n) == #[trigger] best(c.update(r, c[r] - 1), flush),
    decreases n,
{
    if n > 0 {
        lemma_best_upto(c, flush, n - 1);
        assert forall|r: int| 0 <= r < n && c[r] > 0 implies #[trigger] best(c.update(r, c[r] - 1), flush) <= best_upto(c, flush, n) by {
            if r < n - 1 {} else { assert(r == n - 1); }
        }
        if best_upto(c, flush, n) != 0 {
            if c[n - 1] > 0 && best_upto(c, flush, n) == best(c.update(n - 1, c[n - 1] - 1), flush) {
            } else {
                assert(best_upto(c, flush, n) == best_upto(c, flush, n - 1));
            }
        }
    }
}
pub proof fn lemma_strength_upto(s: Seq<bool>, n: int)
    requires s.len() == 52, size(s) > 5, 0 <= n <= 52,
    ensures
        strength_upto(s, n) >= 0,
        forall|c: int| 0 <= c < n && s[c] ==> #[trigger] strength(s.update(c, false)) <= strength_upto(s, n),
        strength_upto(s, n) == 0 || exists|c: int| 0 <= c < n && s[c] && strength_upto(s, n) == #[trigger] strength(s.update(c, false)),
    decreases n,
{
    if n > 0 {
        lemma_strength_upto(s, n - 1);
        assert forall|c: int| 0 <= c < n && s[c] implies #[trigger] strength(s.update(c, false)) <= strength_upto(s, n) by {
            if c < n - 1 {} else { assert(c == n - 1); }
        }
        if strength_upto(s, n) != 0 {
            if s[n - 1] && strength_upto(s, n) == strength(s.update(n - 1, false)) {
            } else {
                assert(strength_upto(s, n) == strength_upto(s, n - 1));
            }
        }
    }
}
// without a flush only the ranks count
pub proof fn lemma_no_flush(s: Seq<bool>)
    requires s.len() == 52, !flush_in(s),
    ensures strength(s) == best(counts(s), false),
    decreases size(s),
{
    lemma_counts_nonneg(s);
    let c = counts(s);
    if size(s) > 5 {
        lemma_strength_upto(s, 52);
        lemma_best_upto(c, false, 13);
        assert forall|x: int| 0 <= x < 52 && s[x] implies #[trigger] strength(s.update(x, false)) == best(c.update(x / 4, c[x / 4] - 1), false) by {
            lemma_remove(s, x);
            lemma_no_flush(s.update(x, false));
        }
        let (a, b) = (strength_upto(s, 52), best_upto(c, false, 13));
        if a > b {
            let x = choose|x: int| 0 <= x < 52 && s[x] && a == #[trigger] strength(s.update(x, false));
            assert(counts(s)[x / 4] > 0) by { assert(x == 4 * (x / 4) + x % 4); }
            assert(best(c.update(x / 4, c[x / 4] - 1), false) <= b);
        }
        if b > a {
            let r = choose|r: int| 0 <= r < 13 && c[r] > 0 && b == #[trigger] best(c.update(r, c[r] - 1), false);
            let x = if s[4 * r] { 4 * r } else if s[4 * r + 1] { 4 * r + 1 } else if s[4 * r + 2] { 4 * r + 2 } else { 4 * r + 3 };
            assert(s[x] && x / 4 == r);
            assert(strength(s.update(x, false)) <= a);
        }
    }
}
// digits stay below their power of 14
pub proof fn lemma_digits(c: Seq<int>, i: int)
    requires c.len() == 13, 0 <= i <= 52,
    ensures 0 <= digits(c, i).1 <= 5, 0 <= digits(c, i).0 < pow14(5 - digits(c, i).1),
    decreases i,
{
    if i > 0 { lemma_digits(c, i - 1); }
}
pub proof fn lemma_tiebreak(c: Seq<int>)
    requires c.len() == 13,
    ensures 0 <= tiebreak(c) < 537824,
{
    lemma_digits(c, 52);
    let (a, l) = digits(c, 52);
    if l == 0 {} else if l == 1 {} else if l == 2 {} else if l == 3 {} else if l == 4 {} else {}
}
pub proof fn lemma_straight(c: Seq<int>, n: int)
    requires 0 <= n,
    ensures 0 <= straight(c, n) <= n,
    decreases n,
{
    if n > 0 { lemma_straight(c, n - 1); }
}
// the category is the strength divided by 14^5
pub proof fn lemma_category(c: Seq<int>, flush: bool)
    requires c.len() == 13,
    ensures st5(c, flush) / 537824 == category5(c, flush), 1 <= category5(c, flush) <= 9, st5(c, flush) >= 537824,
{
    lemma_tiebreak(c); lemma_straight(c, 10);
}
// cards beyond the first of their rank
pub proof fn lemma_dups(c: Seq<int>, n: int)
    requires nonneg(c), 0 <= n <= 13,
    ensures total(c, n) >= (n - groups(c, 0, n)) + 3 * groups(c, 4, n) + 2 * groups(c, 3, n) + groups(c, 2, n),
        groups(c, 4, n) >= 0, groups(c, 3, n) >= 0, groups(c, 2, n) >= 0, groups(c, 0, n) >= 0,
    decreases n,
{
    if n > 0 { lemma_dups(c, n - 1); }
}
pub proof fn lemma_groups_update(c: Seq<int>, k: int, r: int, v: int, n: int)
    requires c.len() == 13, 0 <= r < 13, 0 <= n <= 13,
    ensures groups(c.update(r, v), k, n) == groups(c, k, n) + if r < n { b2i(v == k) - b2i(c[r] == k) } else { 0 },
    decreases n,
{
    if n > 0 { lemma_groups_update(c, k, r, v, n - 1); }
}
// at most two cards beyond the first of their rank: no full house, no four of a kind
pub proof fn lemma_weak(c: Seq<int>)
    requires nonneg(c), 5 <= total(c, 13), total(c, 13) - (13 - groups(c, 0, 13)) <= 2,
    ensures best(c, false) < 6 * 537824,
    decreases total(c, 13),
{
    lemma_dups(c, 13);
    lemma_tiebreak(c); lemma_straight(c, 10);
    if total(c, 13) > 5 {
        lemma_best_upto(c, false, 13);
        if best_upto(c, false, 13) != 0 {
            let r = choose|r: int| 0 <= r < 13 && c[r] > 0 && best_upto(c, false, 13) == #[trigger] best(c.update(r, c[r] - 1), false);
            lemma_total_update(c, r, c[r] - 1, 13);
            lemma_groups_update(c, 0, r, c[r] - 1, 13);
            lemma_weak(c.update(r, c[r] - 1));
        }
    }
}
pub proof fn lemma_distinct(s: Seq<bool>, k: int, n: int)
    requires s.len() == 52, 0 <= k < 4, 0 <= n <= 13,
    ensures n - groups(counts(s), 0, n) >= total(suit_ranks(s, k), n),
    decreases n,
{
    if n > 0 { lemma_distinct(s, k, n - 1); }
}
// with five or more cards of a suit, only that suit counts
pub proof fn lemma_flush(s: Seq<bool>, k: int)
    requires s.len() == 52, 0 <= k < 4, suited(s, k) >= 5, size(s) <= 7,
    ensures strength(s) == best(suit_ranks(s, k), true),
    decreases size(s),
{
    lemma_suits(s); lemma_counts_nonneg(s);
    let c = suit_ranks(s, k);
    if size(s) <= 5 {
        assert forall|r: int| 0 <= r < 13 implies #[trigger] counts(s)[r] == c[r] by {
            if k != 0 { assert(suited(s, 0) == 0); lemma_total_zero(suit_ranks(s, 0), 13); assert(suit_ranks(s, 0)[r] == 0); }
            if k != 1 { assert(suited(s, 1) == 0); lemma_total_zero(suit_ranks(s, 1), 13); assert(suit_ranks(s, 1)[r] == 0); }
            if k != 2 { assert(suited(s, 2) == 0); lemma_total_zero(suit_ranks(s, 2), 13); assert(suit_ranks(s, 2)[r] == 0); }
            if k != 3 { assert(suited(s, 3) == 0); lemma_total_zero(suit_ranks(s, 3), 13); assert(suit_ranks(s, 3)[r] == 0); }
            assert(counts(s)[r] == suit_ranks(s, 0)[r] + suit_ranks(s, 1)[r] + suit_ranks(s, 2)[r] + suit_ranks(s, 3)[r]);
        }
        assert(counts(s) =~= c);
    } else {
        lemma_strength_upto(s, 52);
        let a = strength_upto(s, 52);
        // leaving out a card of another suit changes nothing
        assert forall|x: int| 0 <= x < 52 && s[x] && x % 4 != k implies #[trigger] strength(s.update(x, false)) == best(c, true) by {
            lemma_remove(s, x);
            lemma_flush(s.update(x, false), k);
        }
        if suited(s, k) > 5 {
            lemma_best_upto(c, true, 13);
            let b = best_upto(c, true, 13);
            assert forall|x: int| 0 <= x < 52 && s[x] && x % 4 == k implies #[trigger] strength(s.update(x, false)) == best(c.update(x / 4, c[x / 4] - 1), true) && c[x / 4] == 1 by {
                lemma_remove(s, x);
                lemma_flush(s.update(x, false), k);
                assert(x == 4 * (x / 4) + x % 4);
            }
            if a > b {
                let x = choose|x: int| 0 <= x < 52 && s[x] && a == #[trigger] strength(s.update(x, false));
                if x % 4 == k { assert(best(c.update(x / 4, c[x / 4] - 1), true) <= b); }
            }
            if b > a {
                let r = choose|r: int| 0 <= r < 13 && c[r] > 0 && b == #[trigger] best(c.update(r, c[r] - 1), true);
                let x = 4 * r + k;
                assert(strength(s.update(x, false)) <= a);
            }
        } else {
            // five of the suit: leaving one out loses the flush
            lemma_category(c, true);
            let b = best(c, true);
            assert forall|x: int| 0 <= x < 52 && s[x] && x % 4 == k implies #[trigger] strength(s.update(x, false)) < 6 * 537824 by {
                let t = s.update(x, false);
                lemma_remove(s, x);
                lemma_suits(t);
                lemma_no_flush(t);
                lemma_distinct(s, k, 13);
                lemma_counts_nonneg(t);
                lemma_groups_update(counts(s), 0, x / 4, counts(s)[x / 4] - 1, 13);
                assert(counts(s)[x / 4] > 0) by { assert(x == 4 * (x / 4) + x % 4); }
                lemma_weak(counts(t));
            }
            // and there is a card of another suit
            let j = if suited(s, 0) > 0 && k != 0 { 0int } else if suited(s, 1) > 0 && k != 1 { 1int } else if suited(s, 2) > 0 && k != 2 { 2int } else { 3int };
            let x = lemma_card_of_suit(s, j);
            assert(strength(s.update(x, false)) <= a);
            if a > b {
                let y = choose|y: int| 0 <= y < 52 && s[y] && a == #[trigger] strength(s.update(y, false));
            }
        }
    }
}
// strength is the best of all choices of five cards
pub open spec fn part_of(t: Seq<bool>, s: Seq<bool>) -> bool { t.len() == 52 && forall|c: int| 0 <= c < 52 && t[c] ==> #[trigger] s[c] }
pub proof fn lemma_counts_le(t: Seq<bool>, s: Seq<bool>, n: int)
    requires s.len() == 52, part_of(t, s), 0 <= n <= 13,
    ensures total(counts(t), n) <= total(counts(s), n), total(counts(t), n) == total(counts(s), n) ==> forall|c: int| 0 <= c < 4 * n ==> t[c] == s[c],
    decreases n,
{
    if n > 0 {
        lemma_counts_le(t, s, n - 1);
        let r = n - 1;
        assert(t[4 * r] ==> s[4 * r]); assert(t[4 * r + 1] ==> s[4 * r + 1]); assert(t[4 * r + 2] ==> s[4 * r + 2]); assert(t[4 * r + 3] ==> s[4 * r + 3]);
        assert(rank_count(t, r) <= rank_count(s, r));
        if total(counts(t), n) == total(counts(s), n) {
            assert forall|c: int| 0 <= c < 4 * n implies t[c] == s[c] by {
                if c >= 4 * r { assert(c == 4 * r || c == 4 * r + 1 || c == 4 * r + 2 || c == 4 * r + 3); }
            }
        }
    }
}
pub proof fn theorem_best_five(s: Seq<bool>)
    requires s.len() == 52,
    ensures
        size(s) <= 5 ==> strength(s) == st5(counts(s), flush_in(s)),
        size(s) > 5 ==> (forall|t: Seq<bool>| part_of(t, s) && size(t) == 5 ==> #[trigger] st5(counts(t), flush_in(t)) <= strength(s)),
        size(s) > 5 ==> (exists|t: Seq<bool>| part_of(t, s) && size(t) == 5 && #[trigger] st5(counts(t), flush_in(t)) == strength(s)),
    decreases size(s),
{
    if size(s) > 5 {
        lemma_strength_upto(s, 52);
        assert forall|t: Seq<bool>| part_of(t, s) && size(t) == 5 implies #[trigger] st5(counts(t), flush_in(t)) <= strength(s) by {
            lemma_counts_le(t, s, 13);
            if forall|c: int| 0 <= c < 52 ==> t[c] == s[c] { assert(t =~= s); }
            let c = choose|c: int| 0 <= c < 52 && t[c] != s[c];
            lemma_remove(s, c);
            let u = s.update(c, false);
            theorem_best_five(u);
            assert(part_of(t, u));
            if size(u) == 5 {
                lemma_counts_le(t, u, 13);
                assert(t =~= u);
            }
            assert(strength(u) <= strength_upto(s, 52));
        }
        // attained: some card is there
        lemma_suits(s);
        let j = if suited(s, 0) > 0 { 0int } else if suited(s, 1) > 0 { 1int } else if suited(s, 2) > 0 { 2int } else { 3int };
        let x = lemma_card_of_suit(s, j);
        lemma_remove(s, x);
        theorem_best_five(s.update(x, false));
        lemma_positive(s.update(x, false));
        let c = choose|c: int| 0 <= c < 52 && s[c] && strength_upto(s, 52) == #[trigger] strength(s.update(c, false));
        lemma_remove(s, c);
        let u = s.update(c, false);
        theorem_best_five(u);
        if size(u) == 5 { assert(part_of(u, s)); } else {
            let t = choose|t: Seq<bool>| part_of(t, u) && size(t) == 5 && #[trigger] st5(counts(t), flush_in(t)) == strength(u);
            assert forall|z: int| 0 <= z < 52 && t[z] implies #[trigger] s[z] by { assert(u[z]); }
            assert(part_of(t, s));
        }
    }
}
pub proof fn lemma_positive(s: Seq<bool>)
    requires s.len() == 52,
    ensures size(s) >= 5 ==> strength(s) > 0,
    decreases size(s),
{
    if size(s) <= 5 { lemma_category(counts(s), flush_in(s)); } else {
        lemma_suits(s);
        let j = if suited(s, 0) > 0 { 0int } else if suited(s, 1) > 0 { 1int } else if suited(s, 2) > 0 { 2int } else { 3int };
        let x = lemma_card_of_suit(s, j);
        lemma_remove(s, x);
        lemma_positive(s.update(x, false));
        lemma_strength_upto(s, 52);
    }
}
