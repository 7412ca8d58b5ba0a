//@ grw? &self.0 >> 2 =>> self.0 >> 2
//@ grw? &self.1 >> 2 =>> self.1 >> 2
//@ grw? &self.0 & 3 =>> self.0 & 3
//@ grw? &self.1 & 3 =>> self.1 & 3
//@ item src/constants.rs const CARD_COUNT
impl vstd::std_specs::cmp::PartialEqSpecImpl for Combo {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Combo) -> bool { self.0 == other.0 && self.1 == other.1 }
}
impl Eq for Combo {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Combo {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Combo) -> Option<Ordering> { Some(ordering(combo_key(*self), combo_key(*other))) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Combo {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Combo) -> Ordering { ordering(combo_key(*self), combo_key(*other)) }
}
// the order of hands
// the range of a list: sorted, and of equal hands only the first one kept
pub proof fn lemma_dedup(s: Seq<Combo>)
    requires forall|k: int| 0 <= k < s.len() ==> is_combo(#[trigger] s[k]), forall|j: int, k: int| 0 <= j < k < s.len() ==> combo_key(#[trigger] s[j]) <= combo_key(#[trigger] s[k]),
    ensures ascending(dedup(s)), dedup(s).len() <= s.len(), dedup(s).len() == 0 ==> s.len() == 0,
        forall|k: int| 0 <= k < dedup(s).len() ==> exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == #[trigger] dedup(s)[k] && first_at(s, j),
        forall|j: int| 0 <= j < s.len() ==> listed(dedup(s), (#[trigger] s[j]).0 as int, s[j].1 as int),
        s.len() > 0 ==> dedup(s).last().0 == s.last().0 && dedup(s).last().1 == s.last().1,
    decreases s.len(),
{
    if s.len() == 0 { return; }
    let t = s.drop_last();
    let d = dedup(t);
    let x = s.last();
    assert(forall|k: int| 0 <= k < t.len() ==> t[k] == s[k]);
    lemma_dedup(t);
    let e = dedup(s);
    assert forall|k: int| 0 <= k < e.len() implies exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == #[trigger] e[k] && first_at(s, j) by {
        if k < d.len() {
            assert(e[k] == d[k]);
            let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == d[k] && first_at(t, j);
            assert(s[j] == e[k]);
            assert forall|i: int| 0 <= i < j implies !((#[trigger] s[i]).0 == s[j].0 && s[i].1 == s[j].1) by { assert(t[i] == s[i]); }
        } else {
            let j = s.len() - 1;
            assert(e[k] == s[j]);
            assert forall|i: int| 0 <= i < j implies !((#[trigger] s[i]).0 == s[j].0 && s[i].1 == s[j].1) by {
                assert(t[i] == s[i]);
                if s[i].0 == s[j].0 && s[i].1 == s[j].1 {
                    let l = t.len() - 1;
                    assert(combo_key(s[i]) <= combo_key(s[l]) <= combo_key(s[j])) by { if i < l { assert(combo_key(s[i]) <= combo_key(s[l])); } }
                    lemma_key(s[l], s[j]);
                    assert(t.last() == s[l]);
                }
            }
        }
    }
    if e.len() > d.len() {
        assert forall|j: int, k: int| 0 <= j < k < e.len() implies combo_key(#[trigger] e[j]) < combo_key(#[trigger] e[k]) by {
            if k == d.len() {
                if d.len() > 0 {
                    let l = d.len() - 1;
                    assert(combo_key(e[j]) <= combo_key(d[l])) by { assert(e[j] == d[j]); if j < l { assert(combo_key(d[j]) < combo_key(d[l])); } }
                    let m = t.len() - 1;
                    assert(t.last() == s[m] && combo_key(s[m]) <= combo_key(x));
                    assert(combo_key(d[l]) == combo_key(s[m]));
                    if combo_key(d[l]) == combo_key(x) { lemma_key(s[m], x); }
                }
            } else { assert(e[j] == d[j] && e[k] == d[k]); }
        }
    }
    assert forall|j: int| 0 <= j < s.len() implies listed(e, (#[trigger] s[j]).0 as int, s[j].1 as int) by {
        if j < t.len() {
            assert(t[j] == s[j]);
            let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0 == t[j].0 && d[k].1 == t[j].1;
            assert(e[k] == d[k]);
        } else {
            let k = e.len() - 1;
            assert(e[k].0 == s[j].0 && e[k].1 == s[j].1);
        }
    }
}
pub proof fn lemma_key(a: Combo, b: Combo)
    requires is_combo(a), is_combo(b), combo_key(a) == combo_key(b),
    ensures a.0 == b.0, a.1 == b.1,
{
    reveal(place);
    lemma_digits4(a.0 as int / 4, a.1 as int / 4, a.0 as int % 4, a.1 as int % 4, b.0 as int / 4, b.1 as int / 4, b.0 as int % 4, b.1 as int % 4);
}
pub proof fn lemma_digits4(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= a < 13, 0 <= b < 13, 0 <= c < 4, 0 <= d < 4, 0 <= e < 13, 0 <= f < 13, 0 <= g < 4, 0 <= h < 4, a * 1024 + b * 16 + c * 4 + d == e * 1024 + f * 16 + g * 4 + h,
    ensures a == e, b == f, c == g, d == h,
{
    assert(a == e); assert(b == f); assert(c == g);
}
//@ fn src/hand_range.rs <PartialEq for Combo>::eq
//@ at start
    proof {
        let (a, b, c, d) = (self.0, self.1, other.0, other.1);
        assert((((a as u16) << 8) | (b as u16) == ((c as u16) << 8) | (d as u16)) == (a == c && b == d)) by (bit_vector);
    }
//@ end
//@ fn src/hand_range.rs <PartialOrd for Combo>::partial_cmp
//@ end
//@ fn src/hand_range.rs <Ord for Combo>::cmp
//@ at start
    proof {
        reveal(place);
        let (a, b, c, d) = (self.0, self.1, other.0, other.1);
        assert(a >> 2 == a / 4 && b >> 2 == b / 4 && c >> 2 == c / 4 && d >> 2 == d / 4) by (bit_vector);
        assert(a & 3 == a % 4 && b & 3 == b % 4 && c & 3 == c % 4 && d & 3 == d % 4) by (bit_vector);
    }
//@ end
//@ fn src/hand_range.rs HandRange::new
//@ ret r
//@ spec
    ensures r.hands@ == Seq::<Combo>::empty(), r.char_vec@ == Seq::<char>::empty(),
//@ end
