// C13: every board once.
use vstd::prelude::*;
use std::ops::{Add, AddAssign};
verus! {
global size_of usize == 8;
//@ floats
//@ include std
//@ include poker
//@ include pokerlemmas
//@ include handtables
//@ include handspec
//@ import hand <Add for Hand>::add
//@ import hand <AddAssign for Hand>::add_assign
//@ include simspec
//@ import count Simulator::evaluate_hands
//@ include indexspec
//@ import hand <Default for Hand>::default
//@ import hand Hand::from_hole_cards
//@ import hand Hand::count
//@ import hand Hand::suit_count
//@ import cardindex get_card_index
//@ include boardspec
//@ grw? CARDS[$i] =>> cards_at($i)
//@ grw? std::cmp::min($a, $b) =>> least($a, $b)
//@ grw? std::cmp::max($a, $b) =>> larger($a, $b)
fn larger(a: u8, b: u8) -> (r: u8) ensures r == if a < b { b } else { a }, { if a < b { b } else { a } }
fn least(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b }, { if a < b { a } else { b } }
fn swap_cards(deck: &mut [u8; 52], a: usize, b: usize)
    requires a < 52, b < 52,
    ensures final(deck)@ == old(deck)@.update(a as int, old(deck)@[b as int]).update(b as int, old(deck)@[a as int]),
{ let x = deck[a]; let y = deck[b]; deck[a] = y; deck[b] = x; }
// runs in which a weight would overflow are not considered: the program stops there
#[verifier::external_body]
fn stop_on_product(a: u64)
    ensures 6 * a <= u64::MAX,
{ unimplemented!() }
pub open spec fn bits_ok() -> bool { (forall|x: u8| (#[trigger] (x & 3u8)) == x % 4) && (forall|x: u8| #[trigger] (x >> 2u8) == x / 4) && (forall|x: u8| #[trigger] (x >> 2u32) == x / 4) && (forall|x: u8| #[trigger] (x >> 2i32) == x / 4) }
spec fn sc_small(sc: Seq<u8>, r: int) -> bool { sc.len() == 4 && forall|k: int| 0 <= k < 4 ==> #[trigger] sc[k] + r <= 7 }
proof fn lemma_bits() ensures bits_ok(),
{
    assert(forall|x: u8| (#[trigger] (x & 3u8)) == x % 4) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 2u8) == x / 4) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 2u32) == x / 4) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 2i32) == x / 4) by (bit_vector);
}
proof fn lemma_product(w: u64, k: int) requires 0 <= k <= 6, 6 * w <= u64::MAX, ensures 0 <= w * k <= u64::MAX, w * k == k * w, { assert(0 <= w * k <= 6 * w && w * k == k * w) by (nonlinear_arith) requires 0 <= k <= 6, 0 <= w; }
// what every call may rely on
spec fn ready(sim: Simulator, hands: Seq<Hand>, lookup: Seq<usize>, len: int, hs: Seq<Seq<bool>>) -> bool {
    &&& 1 <= sim.n_players <= 9 && hands.len() >= sim.n_players && own_slots(lookup, sim.n_players as int, len)
    &&& hs == hole_cards(hands, sim.n_players as int)
    &&& forall|p: int| 0 <= p < sim.n_players ==> holds_two(#[trigger] hands[p])
}
// the board may be evaluated
proof fn lemma_showdown(sim: Simulator, hands: Seq<Hand>, lookup: Seq<usize>, len: int, hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>)
    requires ready(sim, hands, lookup, len, hs), deal_ok(hs, b, d, 0),
    ensures size(b) == 5, forall|p: int| 0 <= p < sim.n_players ==> holds_two(#[trigger] hands[p]) && disjoint(b, cards_of(hands[p].mask)),
{ assert forall|p: int| 0 <= p < sim.n_players implies disjoint(b, cards_of(#[trigger] hands[p].mask)) by { assert(disjoint(b, hs[p])); } }
proof fn lemma_step(s0: SimulationResultsBatch, h0: Seq<UnitResults>, s1: SimulationResultsBatch, h1: Seq<UnitResults>, s2: SimulationResultsBatch, h2: Seq<UnitResults>, lookup: Seq<usize>, n: int, t: Seq<int>, u: Seq<int>, all: Seq<int>, left: Seq<int>, goal: Seq<int>)
    requires dealt(s0, h0, s1, h1, lookup, n, t), dealt(s1, h1, s2, h2, lookup, n, u), own_slots(lookup, n, h0.len() as int), plus(t, all) =~= goal, all =~= plus(u, left), tally(left),
    ensures dealt(s0, h0, s2, h2, lookup, n, plus(t, u)), plus(plus(t, u), left) =~= goal,
{
    lemma_dealt_plus(s0, h0, s1, h1, s2, h2, lookup, n, t, u);
    assert forall|w: int| 0 <= w < 512 implies plus(plus(t, u), left)[w] == goal[w] by { assert(plus(t, all)[w] == goal[w]); assert(all[w] == plus(u, left)[w]); }
}
proof fn lemma_nothing_left(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, x: int, t: Seq<int>, goal: Seq<int>)
    requires r >= 1, forall|c: int| 0 <= c < 52 ==> !#[trigger] d[c], plus(t, all_boards(hs, b, d, r, x)) =~= goal, tally(t),
    ensures t =~= goal,
{
    assert forall|w: int| 0 <= w < 512 implies t[w] == goal[w] by { lemma_no_boards(hs, b, d, r, 52, w); assert(x * 0 == 0); assert(plus(t, all_boards(hs, b, d, r, x))[w] == goal[w]); }
}
// the cards at i..n without the ones of rank last whose suits do not matter
spec fn left(deck: Seq<u8>, i: int, n: int, sc: Seq<u8>, last: int) -> Seq<bool> { Seq::new(52, |c: int| rest(deck, i, n)[c] && !(c / 4 == last && sc[c % 4] < 4)) }
// the cards at i..j whose suits do not matter
spec fn faint(deck: Seq<u8>, i: int, j: int, sc: Seq<u8>) -> Seq<int> decreases j - i { if j <= i { Seq::empty() } else if sc[deck[j - 1] as int % 4] < 4 { faint(deck, i, j - 1, sc).push(deck[j - 1] as int) } else { faint(deck, i, j - 1, sc) } }
spec fn faint_ok(g: Seq<int>, deck: Seq<u8>, i: int, j: int, sc: Seq<u8>) -> bool {
    &&& g.len() <= j - i
    &&& forall|k: int| 0 <= k < g.len() ==> 0 <= #[trigger] g[k] < 52 && sc[g[k] % 4] < 4
    &&& forall|k: int| 0 <= k < g.len() ==> among(deck, i, j, #[trigger] g[k])
    &&& forall|k: int, l: int| 0 <= k < l < g.len() ==> #[trigger] g[k] != #[trigger] g[l]
    &&& forall|p: int| i <= p < j && sc[deck[p] as int % 4] < 4 ==> among_ints(g, #[trigger] deck[p] as int)
    &&& i < j && sc[deck[i] as int % 4] < 4 ==> g.len() > 0 && g[0] == deck[i]
}
spec fn among(deck: Seq<u8>, i: int, j: int, c: int) -> bool { exists|p: int| i <= p < j && #[trigger] deck[p] == c }
spec fn among_ints(g: Seq<int>, c: int) -> bool { exists|k: int| 0 <= k < g.len() && #[trigger] g[k] == c }
proof fn lemma_faint(deck: Seq<u8>, i: int, j: int, n: int, sc: Seq<u8>)
    requires deck_ok(deck, i, n), i <= j <= n,
    ensures faint_ok(faint(deck, i, j, sc), deck, i, j, sc),
    decreases j,
{
    if i < j {
        lemma_faint(deck, i, j - 1, n, sc);
        let (f, g) = (faint(deck, i, j - 1, sc), faint(deck, i, j, sc));
        assert(deck[j - 1] < 52);
        assert forall|k: int| 0 <= k < g.len() implies among(deck, i, j, #[trigger] g[k]) by { if k < f.len() { assert(among(deck, i, j - 1, f[k])); let p = choose|p: int| i <= p < j - 1 && #[trigger] deck[p] == f[k]; assert(deck[p] == g[k]); } else { assert(deck[j - 1] == g[k]); } }
        assert forall|k: int, l: int| 0 <= k < l < g.len() implies #[trigger] g[k] != #[trigger] g[l] by { if l == f.len() { assert(among(deck, i, j - 1, f[k])); let p = choose|p: int| i <= p < j - 1 && #[trigger] deck[p] == f[k]; assert(deck[p] != deck[j - 1]); } else { assert(f[k] != f[l]); } }
        assert forall|p: int| i <= p < j && sc[deck[p] as int % 4] < 4 implies among_ints(g, #[trigger] deck[p] as int) by { if p < j - 1 { assert(among_ints(f, deck[p] as int)); let k = choose|k: int| 0 <= k < f.len() && #[trigger] f[k] == deck[p]; assert(g[k] == deck[p]); } else { assert(g[f.len() as int] == deck[p]); } }
    }
}
// the run of one rank at i..: its cards whose suits do not matter, and what is left without them
proof fn lemma_faint_group(hs: Seq<Seq<bool>>, b: Seq<bool>, deck: Seq<u8>, i: int, j: int, n: int, sc: Seq<u8>)
    requires deck_ok(deck, i, n), i < j <= n, suits_ok(hs, b, 1, sc), sc[deck[i] as int % 4] < 4, forall|p: int| i <= p < j ==> #[trigger] deck[p] / 4 == deck[i] / 4, j < n ==> deck[j] / 4 != deck[i] / 4,
    ensures group(hs, b, rest(deck, i, n), 1, faint(deck, i, j, sc)), 1 <= faint(deck, i, j, sc).len() <= 4, faint(deck, i, j, sc)[0] == deck[i],
        take(rest(deck, i, n), faint(deck, i, j, sc), faint(deck, i, j, sc).len() as int) =~= left(deck, i + 1, n, sc, deck[i] as int / 4),
{
    lemma_run(deck, i, j, n);
    lemma_faint(deck, i, j, n, sc);
    let (g, d, last) = (faint(deck, i, j, sc), rest(deck, i, n), deck[i] as int / 4);
    let e = left(deck, i + 1, n, sc, last);
    assert forall|k: int| 0 <= k < g.len() implies 0 <= #[trigger] g[k] < 52 && d[g[k]] && g[k] / 4 == g[0] / 4 && hopeless(hs, b, 1, g[k] % 4) by {
        assert(among(deck, i, j, g[k]));
        let p = choose|p: int| i <= p < j && #[trigger] deck[p] == g[k];
        assert(deck[p] / 4 == deck[i] / 4);
        assert(suit_ok(hs, b, 1, g[k] % 4, sc[g[k] % 4] as int));
        lemma_hopeless(hs, b, 1, g[k] % 4, sc[g[k] % 4] as int);
    }
    lemma_take(d, g, g.len() as int);
    assert forall|c: int| 0 <= c < 52 implies take(d, g, g.len() as int)[c] == e[c] by {
        if e[c] {
            let p = choose|p: int| i + 1 <= p < n && #[trigger] deck[p] == c;
            assert(d[c]);
            if exists|k: int| 0 <= k < g.len() && #[trigger] g[k] == c { let k = choose|k: int| 0 <= k < g.len() && #[trigger] g[k] == c; assert(among(deck, i, j, g[k])); let q = choose|q: int| i <= q < j && #[trigger] deck[q] == g[k]; assert(deck[q] / 4 == deck[i] / 4); }
        }
        if d[c] && !exists|k: int| 0 <= k < g.len() && #[trigger] g[k] == c {
            let p = choose|p: int| i <= p < n && #[trigger] deck[p] == c;
            if p == i { assert(g[0] == c); }
            assert(rest(deck, i + 1, n)[c]);
            if c / 4 == last && sc[c % 4] < 4 {
                if p >= j { assert(deck[j] / 4 <= deck[i] / 4); if p > j { assert(deck[p] / 4 <= deck[j] / 4); } }
                assert(among_ints(g, deck[p] as int));
            }
        }
    }
}
proof fn lemma_left_ok(hs: Seq<Seq<bool>>, b: Seq<bool>, deck: Seq<u8>, i: int, n: int, sc: Seq<u8>, last: int, r: int)
    requires deal_ok(hs, b, rest(deck, i, n), r),
    ensures deal_ok(hs, b, left(deck, i, n, sc, last), r),
{
    let (d, e) = (rest(deck, i, n), left(deck, i, n, sc, last));
    assert forall|p: int| 0 <= p < hs.len() implies disjoint(e, #[trigger] hs[p]) by { assert(disjoint(d, hs[p])); assert forall|c: int| 0 <= c < 52 implies !(#[trigger] e[c] && hs[p][c]) by { assert(!(d[c] && hs[p][c])); } }
    assert forall|c: int| 0 <= c < 52 implies !(#[trigger] e[c] && b[c]) by { assert(!(d[c] && b[c])); }
}
// fewer cards
proof fn lemma_rest_ok(hs: Seq<Seq<bool>>, b: Seq<bool>, deck: Seq<u8>, i: int, j: int, n: int, r: int)
    requires deal_ok(hs, b, rest(deck, i, n), r), i <= j,
    ensures deal_ok(hs, b, rest(deck, j, n), r), forall|c: int| 0 <= c < 52 && #[trigger] rest(deck, j, n)[c] ==> rest(deck, i, n)[c],
{
    let (d, e) = (rest(deck, i, n), rest(deck, j, n));
    assert forall|c: int| 0 <= c < 52 && #[trigger] e[c] implies d[c] by { let p = choose|p: int| j <= p < n && #[trigger] deck[p] == c; assert(i <= p); }
    assert forall|p: int| 0 <= p < hs.len() implies disjoint(e, #[trigger] hs[p]) by { assert(disjoint(d, hs[p])); assert forall|c: int| 0 <= c < 52 implies !(#[trigger] e[c] && hs[p][c]) by { if e[c] { assert(!(d[c] && hs[p][c])); } } }
    assert forall|c: int| 0 <= c < 52 implies !(#[trigger] e[c] && b[c]) by { if e[c] { assert(!(d[c] && b[c])); } }
}
proof fn lemma_places_group(hs: Seq<Seq<bool>>, b: Seq<bool>, deck: Seq<u8>, i: int, j: int, n: int, r: int, sc: Seq<u8>)
    requires deck_ok(deck, i, n), i < j <= n, suits_ok(hs, b, r, sc), forall|p: int| i <= p < j ==> #[trigger] deck[p] / 4 == deck[i] / 4 && sc[deck[p] as int % 4] + r < 5,
    ensures group(hs, b, rest(deck, i, n), r, cards_at_places(deck, i, j)), j - i <= 4,
        forall|l: int| 0 <= l < j - i ==> sc[#[trigger] cards_at_places(deck, i, j)[l] % 4] + r < 5,
{
    lemma_run(deck, i, j, n);
    let (g, d) = (cards_at_places(deck, i, j), rest(deck, i, n));
    assert forall|k: int| 0 <= k < g.len() implies 0 <= #[trigger] g[k] < 52 && d[g[k]] && g[k] / 4 == g[0] / 4 && hopeless(hs, b, r, g[k] % 4) by {
        let y = deck[i + k] as int;
        assert(y < 52);
        assert(suit_ok(hs, b, r, y % 4, sc[y % 4] as int));
        lemma_hopeless(hs, b, r, y % 4, sc[y % 4] as int);
    }
    assert forall|k: int, l: int| 0 <= k < l < g.len() implies #[trigger] g[k] != #[trigger] g[l] by { assert(deck[i + k] != deck[i + l]); }
    assert forall|l: int| 0 <= l < j - i implies sc[#[trigger] g[l] % 4] + r < 5 by { assert(deck[i + l] / 4 == deck[i] / 4); }
}
// the suit counters when k of the group are dealt
proof fn lemma_suits_put(hs: Seq<Seq<bool>>, b: Seq<bool>, d: Seq<bool>, r: int, g: Seq<int>, k: int, sc: Seq<u8>)
    requires deal_ok(hs, b, d, r), group(hs, b, d, r, g), 1 <= k <= g.len(), k <= r, suits_ok(hs, b, r, sc), forall|l: int| 0 <= l < g.len() ==> sc[#[trigger] g[l] % 4] + r < 5,
    ensures suits_ok(hs, put(b, g, k), r - k, sc),
{
    let e = put(b, g, k);
    lemma_put(hs, b, d, r, g, k);
    assert forall|s: int| 0 <= s < 4 implies suit_ok(hs, e, r - k, s, #[trigger] sc[s] as int) by {
        assert(suit_ok(hs, b, r, s, sc[s] as int));
        assert(suited(e, s) == suited(b, s) + b2i(exists|i: int| 0 <= i < k && #[trigger] g[i] % 4 == s));
        if exists|i: int| 0 <= i < k && #[trigger] g[i] % 4 == s {
            let i = choose|i: int| 0 <= i < k && #[trigger] g[i] % 4 == s;
            assert(sc[g[i] % 4] + r < 5);
            lemma_hopeless(hs, b, r, s, sc[s] as int);
            assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], s) + suited(e, s) + (r - k) < 5 by { assert(suited(hs[p], s) + suited(b, s) + r < 5); }
        } else {
            if forall|p: int| 0 <= p < hs.len() ==> suited(#[trigger] hs[p], s) + suited(b, s) <= sc[s] {
                assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], s) + suited(e, s) <= sc[s] by {}
            } else {
                assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], s) + suited(e, s) + (r - k) < 5 by { assert(suited(hs[p], s) + suited(b, s) + r < 5); }
            }
        }
    }
}
// the suit counters when a card of suit k is dealt and counted
proof fn lemma_suits_card(hs: Seq<Seq<bool>>, b: Seq<bool>, e: Seq<bool>, r: int, k: int, sc: Seq<u8>, sd: Seq<u8>)
    requires suits_ok(hs, b, r, sc), 0 <= k < 4, sd.len() == 4, sd[k] == sc[k] + 1, forall|s: int| 0 <= s < 4 && s != k ==> #[trigger] sd[s] == sc[s], forall|s: int| 0 <= s < 4 ==> #[trigger] suited(e, s) == suited(b, s) + b2i(s == k), sc[k] + r >= 5,
    ensures suits_ok(hs, e, r - 1, sd),
{
    assert forall|s: int| 0 <= s < 4 implies suit_ok(hs, e, r - 1, s, #[trigger] sd[s] as int) by {
        assert(suit_ok(hs, b, r, s, sc[s] as int));
        assert(suited(e, s) == suited(b, s) + b2i(s == k));
        if forall|p: int| 0 <= p < hs.len() ==> suited(#[trigger] hs[p], s) + suited(b, s) <= sc[s] {
            assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], s) + suited(e, s) <= sd[s] by {}
        } else {
            assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], s) + suited(e, s) + (r - 1) < 5 by { assert(suited(hs[p], s) + suited(b, s) + r < 5); }
        }
    }
}
// a run of one rank has at most four cards
proof fn lemma_run(deck: Seq<u8>, i: int, j: int, n: int)
    requires deck_ok(deck, i, n), i < j <= n, forall|p: int| i <= p < j ==> #[trigger] deck[p] / 4 == deck[i] / 4,
    ensures j - i <= 4,
{
    if j - i > 4 {
        assert(deck[i] / 4 == deck[i + 1] / 4 && deck[i] / 4 == deck[i + 2] / 4 && deck[i] / 4 == deck[i + 3] / 4 && deck[i] / 4 == deck[i + 4] / 4);
        assert(deck[i] != deck[i + 1] && deck[i] != deck[i + 2] && deck[i] != deck[i + 3] && deck[i] != deck[i + 4]);
        assert(deck[i + 1] != deck[i + 2] && deck[i + 1] != deck[i + 3] && deck[i + 1] != deck[i + 4] && deck[i + 2] != deck[i + 3] && deck[i + 2] != deck[i + 4] && deck[i + 3] != deck[i + 4]);
    }
}
// no flush on the board
proof fn lemma_faint_board(sim: Simulator, hands: Seq<Hand>, lookup: Seq<usize>, len: int, hs: Seq<Seq<bool>>, b: Seq<bool>, e: Seq<bool>, d: Seq<bool>, sc: Seq<u8>)
    requires ready(sim, hands, lookup, len, hs), deal_ok(hs, e, d, 0), suits_ok(hs, b, 1, sc), sc[0] < 4, sc[1] < 4, sc[2] < 4, sc[3] < 4, forall|s: int| 0 <= s < 4 ==> #[trigger] suited(e, s) <= suited(b, s) + 1,
    ensures forall|p: int| 0 <= p < sim.n_players ==> !flush_in(union(e, cards_of(#[trigger] hands[p].mask))),
{
    assert forall|p: int| 0 <= p < sim.n_players implies !flush_in(union(e, cards_of(#[trigger] hands[p].mask))) by {
        let h = hs[p];
        assert(disjoint(e, h));
        lemma_union(e, h);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] suited(union(e, h), k) < 5 by {
            assert(suit_ok(hs, b, 1, k, sc[k] as int));
            assert(suited(union(e, h), k) == suited(e, k) + suited(h, k));
            assert(suited(e, k) <= suited(b, k) + 1);
            assert(suited(h, k) + suited(b, k) <= sc[k] || suited(h, k) + suited(b, k) + 1 < 5);
        }
        assert(suited(union(e, h), 0) < 5 && suited(union(e, h), 1) < 5 && suited(union(e, h), 2) < 5 && suited(union(e, h), 3) < 5);
    }
}
// last card: the cards at i..j of one rank come to the same
proof fn lemma_case_run(sim: Simulator, hands: Seq<Hand>, lookup: Seq<usize>, len: int, hs: Seq<Seq<bool>>, b: Seq<bool>, deck: Seq<u8>, i: int, j: int, n: int, sc: Seq<u8>, weight: u64)
    requires ready(sim, hands, lookup, len, hs), deck_ok(deck, i, n), i < j <= n, deal_ok(hs, b, rest(deck, i, n), 1), suits_ok(hs, b, 1, sc), sc[0] < 4, sc[1] < 4, sc[2] < 4, sc[3] < 4,
        forall|p: int| i <= p < j ==> #[trigger] deck[p] / 4 == deck[i] / 4, 6 * weight <= u64::MAX,
    ensures ({
        let e = b.update(deck[i] as int, true);
        &&& size(e) == 5 && 0 <= weight * (j - i) <= u64::MAX
        &&& forall|p: int| 0 <= p < sim.n_players ==> holds_two(#[trigger] hands[p]) && disjoint(e, cards_of(hands[p].mask)) && !flush_in(union(e, cards_of(hands[p].mask)))
        &&& all_boards(hs, b, rest(deck, i, n), 1, weight as int) =~= plus(point(winner_set(strengths(e, hs)), weight * (j - i)), all_boards(hs, b, rest(deck, j, n), 1, weight as int))
        &&& deal_ok(hs, b, rest(deck, j, n), 1)
    }),
{
    let (x, r, d) = (weight as int, 1int, rest(deck, i, n));
    let g = cards_at_places(deck, i, j);
    assert forall|p: int| i <= p < j implies #[trigger] deck[p] / 4 == deck[i] / 4 && sc[deck[p] as int % 4] + r < 5 by {}
    lemma_places_group(hs, b, deck, i, j, n, r, sc);
    lemma_some_of(hs, b, d, r, g, x);
    lemma_taken(deck, i, j, n);
    lemma_put_ok(hs, b, d, r, g, 1);
    lemma_rest_ok(hs, b, deck, i, j, n, r);
    let e = put(b, g, 1);
    assert(put(b, g, 0) == b);
    assert(e =~= b.update(deck[i] as int, true));
    lemma_boards_zero(hs, e, take(d, g, g.len() as int), x * binom(g.len() as int, 1));
    lemma_showdown(sim, hands, lookup, len, hs, e, take(d, g, g.len() as int));
    lemma_faint_board(sim, hands, lookup, len, hs, b, e, take(d, g, g.len() as int), sc);
    assert(some_of(hs, b, d, r, g, x, 0) == zero_tally());
    assert(some_of(hs, b, d, r, g, x, 1) =~= point(winner_set(strengths(e, hs)), x * g.len()));
    lemma_product(weight, g.len() as int);
}
// last card: the card at i
proof fn lemma_case_card(sim: Simulator, hands: Seq<Hand>, lookup: Seq<usize>, len: int, hs: Seq<Seq<bool>>, b: Seq<bool>, deck: Seq<u8>, i: int, n: int, sc: Seq<u8>, last: int, weight: u64)
    requires ready(sim, hands, lookup, len, hs), deck_ok(deck, i, n), 0 <= i < n, deal_ok(hs, b, rest(deck, i, n), 1), suits_ok(hs, b, 1, sc), 6 * weight <= u64::MAX,
    ensures ({
        let c = deck[i] as int;
        let e = b.update(c, true);
        &&& c < 52 && !b[c] && size(e) == 5 && size(b) == 4
        &&& forall|p: int| 0 <= p < sim.n_players ==> holds_two(#[trigger] hands[p]) && disjoint(e, cards_of(hands[p].mask))
        &&& sc[c % 4] < 4 && c / 4 == last ==> left(deck, i + 1, n, sc, last) =~= left(deck, i, n, sc, last)
        &&& sc[c % 4] >= 4 ==> all_boards(hs, b, left(deck, i, n, sc, last), 1, weight as int) =~= plus(point(winner_set(strengths(e, hs)), weight * 1), all_boards(hs, b, left(deck, i + 1, n, sc, last), 1, weight as int))
        &&& deal_ok(hs, b, rest(deck, i + 1, n), 1)
    }),
{
    let (c, r, x, d) = (deck[i] as int, 1int, weight as int, rest(deck, i, n));
    let e = b.update(c, true);
    assert(c < 52);
    lemma_next(deck, i, n); lemma_rest_ok(hs, b, deck, i, i + 1, n, r);
    lemma_left_ok(hs, b, deck, i, n, sc, last, r);
    assert(!b[c]);
    lemma_insert(b, c);
    lemma_take_card(hs, b, d, r, c, x);
    lemma_showdown(sim, hands, lookup, len, hs, e, d.update(c, false));
    if sc[c % 4] < 4 && c / 4 == last { assert(left(deck, i + 1, n, sc, last) =~= left(deck, i, n, sc, last)); }
    if sc[c % 4] >= 4 {
        let f = left(deck, i, n, sc, last);
        assert(left(deck, i + 1, n, sc, last) =~= f.update(c, false));
        lemma_take_card(hs, b, f, r, c, x);
        lemma_boards_zero(hs, e, f.update(c, false), x);
        assert(x * 1 == x);
    }
}
// last card: the cards at i..j of one rank whose suits do not matter come to the same
proof fn lemma_case_rank(sim: Simulator, hs: Seq<Seq<bool>>, b: Seq<bool>, deck: Seq<u8>, i: int, j: int, n: int, sc: Seq<u8>, last: int, weight: u64)
    requires deck_ok(deck, i, n), 0 <= i < j <= n, deal_ok(hs, b, rest(deck, i, n), 1), suits_ok(hs, b, 1, sc), sc[deck[i] as int % 4] < 4, 6 * weight <= u64::MAX,
        forall|p: int| i <= p < j ==> #[trigger] deck[p] / 4 == deck[i] / 4, j < n ==> deck[j] / 4 != deck[i] / 4, deck[i] as int / 4 < last,
    ensures ({
        let g = faint(deck, i, j, sc);
        let e = b.update(deck[i] as int, true);
        &&& 1 <= g.len() <= 4 && 0 <= weight * g.len() <= u64::MAX
        &&& all_boards(hs, b, left(deck, i, n, sc, last), 1, weight as int) =~= plus(point(winner_set(strengths(e, hs)), weight * g.len()), all_boards(hs, b, left(deck, i + 1, n, sc, deck[i] as int / 4), 1, weight as int))
    }),
{
    let (r, x, d) = (1int, weight as int, rest(deck, i, n));
    lemma_faint_group(hs, b, deck, i, j, n, sc);
    let g = faint(deck, i, j, sc);
    let e = b.update(deck[i] as int, true);
    lemma_some_of(hs, b, d, r, g, x);
    let z = take(d, g, g.len() as int);
    assert(put(b, g, 0) == b);
    assert(put(b, g, 1) =~= e);
    lemma_boards_zero(hs, e, z, x * binom(g.len() as int, 1));
    assert(some_of(hs, b, d, r, g, x, 0) == zero_tally());
    assert(some_of(hs, b, d, r, g, x, 1) =~= point(winner_set(strengths(e, hs)), x * g.len()));
    lemma_product(weight, g.len() as int);
    assert(left(deck, i, n, sc, last) =~= d) by {
        assert forall|y: int| 0 <= y < 52 && d[y] implies y / 4 != last by { let p = choose|p: int| i <= p < n && #[trigger] deck[p] == y; if p > i { assert(deck[i] / 4 >= deck[p] / 4); } }
    }
}
//@ fn src/equity_calculator/simulator.rs Simulator::enumerate_board_rec
//@ sig deck: &mut [u8] =>> deck: &mut [u8; 52]
//@ sig suit_counts: &mut [u8] =>> suit_counts: &mut [u8; 4]
//@ rw? deck.swap($a, $b) =>> swap_cards(deck, $a, $b)
//@ rw? const BINOM_COEFF: =>> let BINOM_COEFF:
//@ rw? &hands, =>> hands,
//@ spec
    requires ready(*self, hands@, lookup@, old(hand_stats).len() as int, hole_cards(hands@, self.n_players as int)),
        is_hand(*board, cards_of(board.mask)), 1 <= cards_remaining <= 5, start <= n_deck <= 52, deck_ok(old(deck)@, start as int, n_deck as int),
        deal_ok(hole_cards(hands@, self.n_players as int), cards_of(board.mask), rest(old(deck)@, start as int, n_deck as int), cards_remaining as int),
        suits_ok(hole_cards(hands@, self.n_players as int), cards_of(board.mask), cards_remaining as int, old(suit_counts)@), sc_small(old(suit_counts)@, cards_remaining as int),
    ensures dealt(*old(stats), old(hand_stats)@, *final(stats), final(hand_stats)@, lookup@, self.n_players as int,
            all_boards(hole_cards(hands@, self.n_players as int), cards_of(board.mask), rest(old(deck)@, start as int, n_deck as int), cards_remaining as int, weight as int)),
        final(suit_counts)@ == old(suit_counts)@,
        same_cards(old(deck)@, final(deck)@, start as int, n_deck as int),
    decreases cards_remaining,
//@ at start
    stop_on_product(weight);
    let ghost n = self.n_players as int;
    let ghost len = hand_stats.len() as int;
    let ghost hs = hole_cards(hands@, n);
    let ghost b = cards_of(board.mask);
    let ghost r = cards_remaining as int;
    let ghost x = weight as int;
    let ghost nd = n_deck as int;
    let ghost (s0, h0, deck0, sc) = (*stats, hand_stats@, deck@, suit_counts@);
    let ghost goal = all_boards(hs, b, rest(deck@, start as int, nd), r, x);
    let ghost mut t = zero_tally();
    proof { lemma_bits(); lemma_dealt_zero(s0, h0, lookup@, n); assert(plus(t, goal) =~= goal); tables_cards(); }
//@ loop 1
    invariant bits_ok(), cards_ok(), nd == n_deck, n_deck <= 52, n == self.n_players, x == weight, 6 * weight <= u64::MAX, b == cards_of(board.mask), is_hand(*board, b), ready(*self, hands@, lookup@, len, hs), hand_stats.len() == len, h0.len() == len,
        r == 1, start <= i <= n_deck, deck@ == deck0, suit_counts@ == sc, deck_ok(deck@, i as int, nd), deal_ok(hs, b, rest(deck@, i as int, nd), r), suits_ok(hs, b, r, sc),
        sc[0] < 4, sc[1] < 4, sc[2] < 4, sc[3] < 4,
        dealt(s0, h0, *stats, hand_stats@, lookup@, n, t), plus(t, all_boards(hs, b, rest(deck@, i as int, nd), r, x)) =~= goal,
    decreases n_deck - i,
//@ at loop 1 start
    let ghost i0 = i as int;
    let ghost d = rest(deck@, i0, nd);
    let ghost (s1, h1) = (*stats, hand_stats@);
    proof { lemma_next(deck@, i0, nd); lemma_deal_card(*board, b, deck@[i0] as int); }
//@ loop 2
    invariant bits_ok(), i0 < i <= n_deck, nd == n_deck, n_deck <= 52, deck@ == deck0, deck_ok(deck@, i0, nd), rank == deck@[i0] / 4, multiplier == i - i0,
        forall|p: int| i0 <= p < i ==> #[trigger] deck@[p] / 4 == rank,
    decreases n_deck - i,
//@ at loop 2 post
    proof { lemma_case_run(*self, hands@, lookup@, len, hs, b, deck@, i0, i as int, nd, sc, weight); }
//@ at loop 1 end
    proof {

        let u = point(winner_set(strengths(b.update(deck@[i0] as int, true), hs)), weight * (i - i0));
        lemma_step(s0, h0, s1, h1, *stats, hand_stats@, lookup@, n, t, u, all_boards(hs, b, d, r, x), all_boards(hs, b, rest(deck@, i as int, nd), r, x), goal);
        t = plus(t, u);
    }
//@ at loop 1 post
    proof { lemma_nothing_left(hs, b, rest(deck@, i as int, nd), r, x, t, goal); }
//@ loop 3
    invariant bits_ok(), cards_ok(), nd == n_deck, n_deck <= 52, n == self.n_players, x == weight, 6 * weight <= u64::MAX, b == cards_of(board.mask), is_hand(*board, b), ready(*self, hands@, lookup@, len, hs), hand_stats.len() == len, h0.len() == len,
        r == 1, start <= k__3 <= e__3, e__3 == nd, start <= nd, deck@ == deck0, suit_counts@ == sc, deck_ok(deck@, start as int, nd), deal_ok(hs, b, rest(deck@, k__3 as int, nd), r), suits_ok(hs, b, r, sc),
        forall|p: int| k__3 <= p < nd ==> #[trigger] deck@[p] / 4 <= last_rank,
        dealt(s0, h0, *stats, hand_stats@, lookup@, n, t), plus(t, all_boards(hs, b, left(deck@, k__3 as int, nd, sc, last_rank as int), r, x)) =~= goal,
    decreases e__3 - k__3,
//@ at loop 3 pre
    proof { assert(left(deck@, start as int, nd, sc, 255) =~= rest(deck@, start as int, nd)); }
//@ at loop 3 start
    let ghost i0 = i as int;
    let ghost d = rest(deck@, i0, nd);
    let ghost c = deck@[i0] as int;
    let ghost (s1, h1) = (*stats, hand_stats@);
    let ghost last0 = last_rank as int;
    let ghost e = b.update(c, true);
    let ghost mut jend = i0 + 1;
    proof {
        lemma_product(weight, 1);
        lemma_case_card(*self, hands@, lookup@, len, hs, b, deck@, i0, nd, sc, last0, weight);
        lemma_deal_card(*board, b, c);
        assert forall|p: int| i0 < p < nd implies deck@[p] / 4 <= deck@[i0] / 4 by {}
        if sc[c % 4] < 4 { assert(faint(deck@, i0, i0, sc).len() == 0); assert(faint(deck@, i0, i0 + 1, sc).len() == 1); }
    }
//@ loop 4
    invariant_except_break jend == k__4,
    invariant bits_ok(), i0 + 1 <= k__4 <= e__4, e__4 == nd, nd == n_deck, n_deck <= 52, deck@ == deck0, suit_counts@ == sc, sc.len() == 4, deck_ok(deck@, i0, nd), rank == deck@[i0] / 4, multiplier == faint(deck@, i0, jend, sc).len(), i0 < jend <= nd,
        forall|p: int| i0 <= p < jend ==> #[trigger] deck@[p] / 4 == rank, multiplier <= jend - i0,
    ensures jend < nd ==> deck@[jend] / 4 != rank,
    decreases e__4 - k__4,
//@ at loop 4 end
    proof { jend = jend + 1; }
//@ at loop 4 post
    proof { lemma_case_rank(*self, hs, b, deck@, i0, jend, nd, sc, last0, weight); }
//@ at loop 3 end
    proof {
        let u = point(winner_set(strengths(e, hs)), weight * multiplier);
        lemma_step(s0, h0, s1, h1, *stats, hand_stats@, lookup@, n, t, u, all_boards(hs, b, left(deck@, i0, nd, sc, last0), r, x), all_boards(hs, b, left(deck@, i0 + 1, nd, sc, last_rank as int), r, x), goal);
        t = plus(t, u);
    }
//@ at loop 3 post
    proof { lemma_nothing_left(hs, b, left(deck@, nd, nd, sc, last_rank as int), r, x, t, goal); }
//@ loop 5
    invariant bits_ok(), cards_ok(), nd == n_deck, n_deck <= 52, n == self.n_players, x == weight, 6 * weight <= u64::MAX, b == cards_of(board.mask), is_hand(*board, b), ready(*self, hands@, lookup@, len, hs), hand_stats.len() == len, h0.len() == len,
        r == cards_remaining, 2 <= r <= 5, start <= i <= n_deck, suit_counts@ == sc, same_cards(deck0, deck@, start as int, nd), deal_ok(hs, b, rest(deck@, i as int, nd), r), suits_ok(hs, b, r, sc), sc_small(sc, r), h0.len() == len,
        dealt(s0, h0, *stats, hand_stats@, lookup@, n, t), plus(t, all_boards(hs, b, rest(deck@, i as int, nd), r, x)) =~= goal,
    decreases n_deck - i,
//@ at loop 5 start
    let ghost i0 = i as int;
    let ghost d = rest(deck@, i0, nd);
    let ghost c = deck@[i0] as int;
    let ghost (s1, h1, deck1) = (*stats, hand_stats@, deck@);
    proof { lemma_next(deck@, i0, nd); lemma_rest_ok(hs, b, deck@, i0, i0 + 1, nd, r); assert(!b[c]); lemma_deal_card(*board, b, c); lemma_take_card(hs, b, d, r, c, x); assert(suit_ok(hs, b, r, c % 4, sc[c % 4] as int)); if sc[c % 4] + r >= 5 { lemma_suits_card(hs, b, b.update(c, true), r, c % 4, sc, sc.update(c % 4, (sc[c % 4] + 1) as u8)); } }
//@ at loop 5 end
    proof {
        if sc[c % 4] + r >= 5 {
            assert(suit_counts@ =~= sc);
            let u = all_boards(hs, b.update(c, true), d.update(c, false), r - 1, x);
            lemma_step(s0, h0, s1, h1, *stats, hand_stats@, lookup@, n, t, u, all_boards(hs, b, d, r, x), all_boards(hs, b, d.update(c, false), r, x), goal);
            t = plus(t, u);
            lemma_wider(deck1, deck@, start as int, i0 + 1, nd);
            lemma_same_again(deck0, deck1, deck@, start as int, nd);
        }
    }
//@ at loop 5 post
    proof { lemma_nothing_left(hs, b, rest(deck@, i as int, nd), r, x, t, goal); }
//@ loop 6
    invariant bits_ok(), i0 == i, i0 + 1 <= k__6 <= e__6, e__6 == nd, nd == n_deck, n_deck <= 52, suit_counts@ == sc, sc.len() == 4, r == cards_remaining, 2 <= r <= 5,
        sc_small(sc, r),
        same_cards(deck1, deck@, i0, nd), deck_ok(deck@, i0, nd), rank == deck@[i0] / 4, 1 <= irrelevant_count, i0 + irrelevant_count <= k__6, irrelevant_count <= 52,
        forall|p: int| i0 <= p < i0 + irrelevant_count ==> #[trigger] deck@[p] / 4 == deck@[i0] / 4 && sc[deck@[p] as int % 4] + r < 5,
    decreases e__6 - k__6,
//@ at loop 6 start
    let ghost was = deck@;
    proof {
        assert(was[i0] / 4 >= was[i0 + irrelevant_count] / 4) by { if i0 + irrelevant_count > i0 {} }
        assert(was[i0 + irrelevant_count] / 4 >= was[k__6 - 1] / 4) by { if i0 + irrelevant_count < k__6 - 1 {} }
        if was[k__6 - 1] / 4 == was[i0] / 4 { lemma_swapped(was, i0, nd, k__6 - 1, i0 + irrelevant_count); }
    }
//@ at loop 6 end
    proof { if deck@ != was { lemma_same_again(deck1, was, deck@, i0, nd); } }
//@ at loop 7 pre
    let ghost deck2 = deck@;
    let ghost m = irrelevant_count as int;
    let ghost g = cards_at_places(deck2, i0, i0 + m);
    proof {
        lemma_wider(deck1, deck2, start as int, i0, nd);
        lemma_same_again(deck0, deck1, deck2, start as int, nd);
        lemma_places_group(hs, b, deck2, i0, i0 + m, nd, r, sc);
        lemma_some_of(hs, b, d, r, g, x);
        lemma_taken(deck2, i0, i0 + m, nd);
        lemma_dealt_zero(s1, h1, lookup@, n);
    }
    let ghost mut v = zero_tally();
//@ loop 7
    invariant bits_ok(), cards_ok(), nd == n_deck, n_deck <= 52, n == self.n_players, x == weight, 6 * weight <= u64::MAX, b == cards_of(board.mask), is_hand(*board, b), ready(*self, hands@, lookup@, len, hs), hand_stats.len() == len, h0.len() == len,
        r == cards_remaining, 2 <= r <= 5, suit_counts@ == sc, i0 == i, m == irrelevant_count, 1 <= m <= 4, i0 + m <= nd, 0 <= start <= i0,
        deal_ok(hs, b, d, r), group(hs, b, d, r, g), g == cards_at_places(deck2, i0, i0 + m), suits_ok(hs, b, r, sc), sc_small(sc, r), forall|l: int| 0 <= l < g.len() ==> sc[#[trigger] g[l] % 4] + r < 5,
        take(d, g, m) =~= rest(deck2, i0 + m, nd), same_cards(deck2, deck@, i0 + m, nd), deck_ok(deck2, i0, nd), deck_ok(deck@, i0 + m, nd),
        1 <= k__7 <= e__7, e__7 == (if m < r { m } else { r }) + 1,
        is_hand(new_board, put(b, g, k__7 - 1)),
        h1.len() == len, v == some_of(hs, b, d, r, g, x, k__7 - 1), dealt(s1, h1, *stats, hand_stats@, lookup@, n, v),
    decreases e__7 - k__7,
//@ at loop 7 start
    let ghost k = k__7 - 1;
    let ghost e = put(b, g, k);
    let ghost (s2, h2, deck3) = (*stats, hand_stats@, deck@);
    proof {
        lemma_put_ok(hs, b, d, r, g, k - 1); lemma_put_ok(hs, b, d, r, g, k);
        assert(deck@[i0 + k - 1] == deck2[i0 + k - 1] && g[k - 1] == deck2[i0 + k - 1]);
        lemma_deal_card(new_board, put(b, g, k - 1), g[k - 1]);
        lemma_suits_put(hs, b, d, r, g, k, sc);
        lemma_product(weight, binom(m, k));
        if k == r { lemma_showdown(*self, hands@, lookup@, len, hs, e, take(d, g, m)); lemma_boards_zero(hs, e, take(d, g, m), x * binom(m, k)); }
    }
//@ at loop 7 end
    proof {
        let u = all_boards(hs, e, take(d, g, m), r - k, x * binom(m, k));
        lemma_dealt_plus(s1, h1, s2, h2, *stats, hand_stats@, lookup@, n, v, u);
        v = plus(v, u);
        if k != r { lemma_same_again(deck2, deck3, deck@, i0 + m, nd); }
    }
//@ at loop 7 post
    proof {
        lemma_step(s0, h0, s1, h1, *stats, hand_stats@, lookup@, n, t, v, all_boards(hs, b, d, r, x), all_boards(hs, b, rest(deck2, i0 + m, nd), r, x), goal);
        t = plus(t, v);
        lemma_wider(deck2, deck@, start as int, i0 + m, nd);
        lemma_same_again(deck0, deck2, deck@, start as int, nd);
        lemma_rest_ok(hs, b, deck2, i0, i0 + m, nd, r);
    }
//@ end
proof fn lemma_two(x: int, y: int)
    requires 0 <= x < 52, 0 <= y < 52, x != y,
    ensures size(two_cards(x, y)) == 2, forall|k: int| 0 <= k < 4 ==> #[trigger] suited(two_cards(x, y), k) == b2i(x % 4 == k) + b2i(y % 4 == k),
{
    lemma_none();
    let (a, b) = (no_cards(), no_cards().update(x, true));
    lemma_insert(a, x); lemma_insert(b, y);
    let c = b.update(y, true);
    assert(c =~= two_cards(x, y));
    assert forall|k: int| 0 <= k < 4 implies #[trigger] suited(two_cards(x, y), k) == b2i(x % 4 == k) + b2i(y % 4 == k) by { assert(suited(c, k) == suited(b, k) + b2i(k == y % 4)); assert(suited(b, k) == suited(a, k) + b2i(k == x % 4)); assert(suited(a, k) == 0); }
}
//@ fn src/equity_calculator/simulator.rs Simulator::enumerate_board
//@ rw? &hands, =>> hands.as_slice(),
//@ rw? &board, =>> board,
//@ spec
    requires 1 <= self.n_players <= 9, deal(player_hands@, self.n_players as int, cards_of(board.mask), used_cards_mask), is_hand(*board, cards_of(board.mask)),
        old(hand_stats).len() == 1326 * self.n_players, forall|p: int| 0 <= p < self.n_players ==> #[trigger] old(stats).player_ids@[p] == p,
    ensures dealt(*old(stats), old(hand_stats)@, *final(stats), final(hand_stats)@, slots_of(player_hands@, self.n_players as int), self.n_players as int,
            all_boards(deal_of(player_hands@, self.n_players as int), cards_of(board.mask), unused(used_cards_mask), 5 - size(cards_of(board.mask)), weight as int)),
//@ at start
    let ghost n = self.n_players as int;
    let ghost ps = player_hands@;
    let ghost hs = deal_of(ps, n);
    let ghost b = cards_of(board.mask);
    let ghost len = hand_stats.len() as int;
    let ghost used = mask_cards(used_cards_mask);
    proof { lemma_bits(); tables_cards(); lemma_fields(*board, b, 3); }
//@ loop 1
    invariant 0 <= k__1 <= e__1, e__1 == n, n == self.n_players, 1 <= n <= 9, ps == player_hands@, ps.len() >= n, forall|p: int| 0 <= p < n ==> dealt_hand(#[trigger] ps[p]), forall|p: int| 0 <= p < n ==> #[trigger] stats.player_ids@[p] == p,
        forall|p: int| 0 <= p < k__1 ==> holds_two(#[trigger] hands@[p]) && cards_of(hands@[p].mask) =~= cards_in(ps[p]),
        forall|p: int| 0 <= p < k__1 ==> #[trigger] lookup@[p] == 1326 * p + index_of(ps[p].cards.0 as int, ps[p].cards.1 as int),
        forall|p: int| k__1 <= p < 9 ==> #[trigger] lookup@[p] == 0,
        forall|p: int| 0 <= p < k__1 ==> 0 <= index_of(ps[p].cards.0 as int, (#[trigger] ps[p]).cards.1 as int) < 1326,
    decreases e__1 - k__1,
//@ at loop 1 start
    proof { assert(dealt_hand(ps[k__1 - 1])); assert(stats.player_ids@[k__1 - 1] == k__1 - 1); }
//@ at loop 1 post
    proof {
        assert(lookup@ =~= slots_of(ps, n)) by { assert forall|p: int| 0 <= p < 9 implies lookup@[p] == slots_of(ps, n)[p] by { if p < n { assert(dealt_hand(ps[p])); assert(lookup@[p] == 1326 * p + index_of(ps[p].cards.0 as int, ps[p].cards.1 as int)); } } }
        assert(hole_cards(hands@, n) =~= hs);
        assert(own_slots(lookup@, n, len)) by { assert forall|p: int| 0 <= p < n implies 1326 * p <= #[trigger] lookup@[p] < 1326 * (p + 1) && lookup@[p] < len by { assert(dealt_hand(ps[p])); assert(0 <= index_of(ps[p].cards.0 as int, ps[p].cards.1 as int) < 1326); } }
        assert(ready(*self, hands@, lookup@, len, hs));
        assert forall|p: int| 0 <= p < n implies disjoint(b, cards_of(hands@[p].mask)) by { assert(disjoint(b, cards_in(ps[p]))); }
        if size(b) == 5 { lemma_boards_zero(hs, b, unused(used_cards_mask), weight as int); }
    }
//@ loop 2
    invariant used == mask_cards(used_cards_mask), 0 <= k__2 <= 52, e__2 == 0, (n_deck as usize) + k__2 <= 52,
        forall|p: int| 0 <= p < n_deck ==> k__2 <= #[trigger] deck@[p] < 52,
        forall|p: int, q: int| 0 <= p < q < n_deck ==> #[trigger] deck@[p] > #[trigger] deck@[q],
        forall|c: int| 0 <= c < 52 ==> rest(deck@, 0, n_deck as int)[c] == (c >= k__2 && !#[trigger] used[c]),
    decreases k__2,
//@ at loop 2 start
    let ghost (deck0, n0) = (deck@, n_deck as int);
    proof { assert(used[i as int] == (used_cards_mask & (1u64 << (i as u64)) != 0)); let y = i as u64; assert(1u64 << i == 1u64 << y) by (bit_vector) requires y == i as u64; let m = used_cards_mask; assert(((m >> y) & 1 == 0) == (m & (1u64 << y) == 0) && ((m >> y) & 1 == 1) == (m & (1u64 << y) != 0) && m >> i == m >> y && m >> i == m >> (i as int)) by { assert(((m >> y) & 1 == 0) == (m & (1u64 << y) == 0)) by (bit_vector) requires y < 64; assert(((m >> y) & 1 == 1) == (m & (1u64 << y) != 0)) by (bit_vector) requires y < 64; assert(m >> i == m >> y) by (bit_vector) requires y == i as u64; } }
//@ at loop 2 end
    proof {
        assert forall|c: int| 0 <= c < 52 implies rest(deck@, 0, n_deck as int)[c] == (c >= k__2 && !#[trigger] used[c]) by {
            assert(rest(deck0, 0, n0)[c] == (c >= k__2 + 1 && !used[c]));
            if n_deck > n0 && c == i { assert(deck@[n0] == c); }
            if rest(deck0, 0, n0)[c] { let p = choose|p: int| 0 <= p < n0 && #[trigger] deck0[p] == c; assert(deck@[p] == c); }
            if rest(deck@, 0, n_deck as int)[c] { let p = choose|p: int| 0 <= p < n_deck && #[trigger] deck@[p] == c; if p < n0 { assert(deck0[p] == c); } }
        }
    }
//@ at loop 2 post
    proof {
        assert(rest(deck@, 0, n_deck as int) =~= unused(used_cards_mask)) by { assert forall|c: int| 0 <= c < 52 implies rest(deck@, 0, n_deck as int)[c] == unused(used_cards_mask)[c] by { assert(used[c] == mask_cards(used_cards_mask)[c]); } }
        assert(deck_ok(deck@, 0, n_deck as int));
    }
//@ at loop 2 pre
    proof { assert forall|c: int| 0 <= c < 52 implies rest(deck@, 0, 0)[c] == (c >= 52 && !#[trigger] used[c]) by {} }
//@ loop 3
    invariant 0 <= k__3 <= e__3, e__3 == n, n == self.n_players, 1 <= n <= 9, ps == player_hands@, ps.len() >= n, forall|p: int| 0 <= p < n ==> dealt_hand(#[trigger] ps[p]), hs == deal_of(ps, n), bits_ok(),
        forall|p: int, k: int| 0 <= p < k__3 && 0 <= k < 4 ==> suited(#[trigger] hs[p], k) <= #[trigger] suit_counts@[k],
        forall|k: int| 0 <= k < 4 ==> #[trigger] suit_counts@[k] <= 2,
    decreases e__3 - k__3,
//@ at loop 3 start
    let ghost was = suit_counts@;
    let ghost q = k__3 - 1;
    proof { assert(dealt_hand(ps[q])); lemma_two(ps[q].cards.0 as int, ps[q].cards.1 as int); }
//@ at loop 3 end
    proof {
        assert forall|p: int, k: int| 0 <= p < k__3 && 0 <= k < 4 implies suited(#[trigger] hs[p], k) <= #[trigger] suit_counts@[k] by {
            assert(was[k] <= suit_counts@[k]);
            if p == q { assert(suited(two_cards(ps[q].cards.0 as int, ps[q].cards.1 as int), k) <= suit_counts@[k]); } else { assert(suited(hs[p], k) <= was[k]); }
        }
    }
//@ at loop 4 pre
    let ghost most: Seq<u8> = suit_counts@;
//@ loop 4
    invariant 0 <= k__4 <= e__4, e__4 == 4, is_hand(*board, b), b == cards_of(board.mask), cards_ok(), size(b) <= 5,
        forall|k: int| 0 <= k < 4 ==> #[trigger] most[k] <= 2,
        forall|k: int| 0 <= k < 4 ==> #[trigger] suit_counts@[k] == most[k] + if k < k__4 { suited(b, k) } else { 0 },
    decreases e__4 - k__4,
//@ at loop 4 start
    proof { lemma_fields(*board, b, 3); lemma_suits(b); assert(0 <= suited(b, k__4 - 1) <= size(b)); }
//@ at loop 4 post
    proof {
        let (d, r) = (unused(used_cards_mask), 5 - size(b));
        assert(deal_ok(hs, b, d, r)) by {
            assert forall|p: int| 0 <= p < hs.len() implies (#[trigger] hs[p]).len() == 52 && size(hs[p]) == 2 && disjoint(b, hs[p]) && disjoint(d, hs[p]) by { assert(dealt_hand(ps[p])); lemma_two(ps[p].cards.0 as int, ps[p].cards.1 as int); }
        }
        assert forall|k: int| 0 <= k < 4 implies suit_ok(hs, b, r, k, #[trigger] suit_counts@[k] as int) by {
            assert(suit_counts@[k] == most[k] + suited(b, k));
            assert forall|p: int| 0 <= p < hs.len() implies suited(#[trigger] hs[p], k) + suited(b, k) <= suit_counts@[k] by { assert(suited(hs[p], k) <= most[k]); }
        }
        lemma_suits(b);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] suit_counts@[k] + r <= 7 by { assert(suit_counts@[k] == most[k] + suited(b, k)); assert(most[k] <= 2); assert(suited(b, k) <= size(b)); }
    }
//@ end
} // verus!
fn main() {}
