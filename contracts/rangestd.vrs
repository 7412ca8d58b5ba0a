// ---- the standard library
pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>)
    requires radix <= 36,
    ensures radix == 10 ==> r == (if digit_of(c) >= 0 { Some(digit_of(c) as u32) } else { None::<u32> }),
;
// b lists the elements of a in ascending order; equal ones keep their order
pub open spec fn permutes<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& p.len() == b.len() && a.len() == b.len()
    &&& forall|k: int| 0 <= k < b.len() ==> 0 <= #[trigger] p[k] < a.len() && b[k] == a[p[k]]
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] p.contains(i)
    &&& forall|j: int, k: int| 0 <= j < k < b.len() ==> #[trigger] p[j] != #[trigger] p[k]
}
pub open spec fn sorts<T: Ord>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    permutes(a, b, p) && forall|j: int, k: int| 0 <= j < k < b.len() ==> T::cmp_spec(&#[trigger] b[j], &#[trigger] b[k]) != Ordering::Greater
}
pub assume_specification<T: Ord>[ <[T]>::sort ](v: &mut [T])
    ensures T::obeys_cmp_spec() ==> exists|p: Seq<int>| #[trigger] sorts(old(v)@, final(v)@, p)
        && forall|j: int, k: int| 0 <= j < k < p.len() && T::cmp_spec(&final(v)@[j], &final(v)@[k]) == Ordering::Equal ==> #[trigger] p[j] < #[trigger] p[k],
;
pub assume_specification<T: Ord>[ <[T]>::sort_unstable ](v: &mut [T])
    ensures T::obeys_cmp_spec() ==> exists|p: Seq<int>| #[trigger] sorts(old(v)@, final(v)@, p),
;
// each element unless it equals the last one kept
pub open spec fn dedup<T: PartialEq>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else {
        let d = dedup(s.drop_last());
        if d.len() > 0 && s.last().eq_spec(&d.last()) { d } else { d.push(s.last()) }
    }
}
pub assume_specification<T: PartialEq, A: std::alloc::Allocator>[ Vec::<T, A>::dedup ](v: &mut Vec<T, A>)
    ensures T::obeys_eq_spec() ==> final(v)@ == dedup(old(v)@),
;
pub open spec fn pick<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { let d = pick(s.drop_last(), keep); if keep[s.len() - 1] { d.push(s.last()) } else { d } }
}
pub assume_specification<T, A: std::alloc::Allocator, F: FnMut(&T) -> bool>[ Vec::<T, A>::retain ](v: &mut Vec<T, A>, f: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(f, (&#[trigger] old(v)@[i],)),
    ensures exists|keep: Seq<bool>| keep.len() == old(v)@.len() && final(v)@ == #[trigger] pick(old(v)@, keep)
        && forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&old(v)@[i],), #[trigger] keep[i]),
;
pub uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn lower_chars(s: &String) -> (r: Vec<char>)
    ensures r@ == lowercase(s@), r@.len() < usize::MAX,
{ s.to_lowercase().chars().collect() }
#[verifier::external_body]
pub fn is_text(s: &String, t: &str) -> (r: bool)
    ensures r == (s@ == t@),
{ s == t }

pub proof fn lemma_pick<T>(s: Seq<T>, keep: Seq<bool>, p: spec_fn(T) -> bool)
    requires keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> keep[i] == p(#[trigger] s[i]),
    ensures pick(s, keep) == s.filter(p),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last(); let k = keep.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies k[i] == p(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_pick(t, k, p);
        lemma_pick_prefix(t, keep, k);
    }
}
proof fn lemma_pick_prefix<T>(s: Seq<T>, a: Seq<bool>, b: Seq<bool>)
    requires a.len() >= s.len(), b.len() >= s.len(), forall|i: int| 0 <= i < s.len() ==> a[i] == b[i],
    ensures pick(s, a) == pick(s, b),
    decreases s.len(),
{ if s.len() > 0 { lemma_pick_prefix(s.drop_last(), a, b); } }
// reading goes forward, and stays in the text
pub proof fn lemma_digits(v: Seq<char>, i: int)
    requires text_ok(v), 0 <= i < v.len(),
    ensures i <= digits_end(v, i) < v.len(),
    decreases v.len() - i,
{
    if digit_of(v[i]) >= 0 { lemma_digits(v, i + 1); }
}
