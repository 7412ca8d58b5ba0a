// ------------------------------------------------------------------------------------------
// The sum over the groups' joint holdings is the sum over one hand of each range.
// ---- sums over lists
spec fn list_sum(g: Game, l: Seq<Seq<int>>, i: int) -> Seq<int> decreases l.len() { if l.len() == 0 { zero_tally() } else { plus(list_sum(g, l.drop_last(), i), runouts_of(g, l.last(), i)) } }
proof fn lemma_list_tally(g: Game, l: Seq<Seq<int>>, i: int)
    ensures tally(list_sum(g, l, i)), forall|x: Seq<int>| tally(#[trigger] runouts_of(g, x, i)),
{ if l.len() > 0 { } }
proof fn lemma_list_append(g: Game, a: Seq<Seq<int>>, b: Seq<Seq<int>>, i: int)
    ensures list_sum(g, a + b, i) =~= plus(list_sum(g, a, i), list_sum(g, b, i)),
    decreases b.len(),
{
    lemma_list_tally(g, a, i);
    if b.len() > 0 {
        lemma_list_append(g, a, b.drop_last(), i);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    } else { assert(a + b =~= a); }
}
proof fn lemma_list_remove(g: Game, l: Seq<Seq<int>>, j: int, i: int)
    requires 0 <= j < l.len(),
    ensures list_sum(g, l, i) =~= plus(list_sum(g, l.remove(j), i), runouts_of(g, l[j], i)),
    decreases l.len(),
{
    lemma_list_tally(g, l, i);
    if j < l.len() - 1 {
        lemma_list_remove(g, l.drop_last(), j, i);
        assert(l.remove(j).drop_last() =~= l.drop_last().remove(j));
        assert(l.remove(j).last() == l.last());
    } else { assert(l.remove(j) =~= l.drop_last()); lemma_list_tally(g, l.drop_last(), i); }
}
pub open spec fn no_twice(l: Seq<Seq<int>>) -> bool { forall|a: int, b: int| 0 <= a < b < l.len() ==> #[trigger] l[a] != #[trigger] l[b] }
proof fn lemma_remove_twice(l: Seq<Seq<int>>, j: int)
    requires no_twice(l), 0 <= j < l.len(),
    ensures no_twice(l.remove(j)), forall|x: Seq<int>| #[trigger] l.remove(j).contains(x) == (l.contains(x) && x != l[j]), l.remove(j).len() == l.len() - 1,
{
    let r = l.remove(j);
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies #[trigger] r[a] != #[trigger] r[b] by {
        let (c, d) = (if a < j { a } else { a + 1 }, if b < j { b } else { b + 1 });
        assert(r[a] == l[c] && r[b] == l[d]);
    }
    assert forall|x: Seq<int>| #[trigger] r.contains(x) == (l.contains(x) && x != l[j]) by {
        if r.contains(x) { let a = choose|a: int| 0 <= a < r.len() && r[a] == x; let c = if a < j { a } else { a + 1 }; assert(l[c] == x); if c < j { assert(l[c] != l[j]); } else { assert(l[j] != l[c]); } }
        if l.contains(x) && x != l[j] { let c = choose|c: int| 0 <= c < l.len() && l[c] == x; let a = if c < j { c } else { c - 1 }; assert(r[a] == x); }
    }
}
proof fn lemma_drop_twice(l: Seq<Seq<int>>)
    requires no_twice(l), l.len() > 0,
    ensures no_twice(l.drop_last()), forall|x: Seq<int>| #[trigger] l.drop_last().contains(x) == (l.contains(x) && x != l.last()), l.contains(l.last()),
{ lemma_remove_twice(l, l.len() - 1); assert(l.remove(l.len() - 1) =~= l.drop_last()); assert(l[l.len() - 1] == l.last()); }
// lists without repetitions that differ only in entries that count nothing
proof fn lemma_exchange(g: Game, a: Seq<Seq<int>>, b: Seq<Seq<int>>, i: int)
    requires no_twice(a), no_twice(b), forall|x: Seq<int>| a.contains(x) && #[trigger] runouts_of(g, x, i) != zero_tally() ==> b.contains(x), forall|x: Seq<int>| b.contains(x) && #[trigger] runouts_of(g, x, i) != zero_tally() ==> a.contains(x),
    ensures list_sum(g, a, i) =~= list_sum(g, b, i),
    decreases a.len() + b.len(),
{
    lemma_list_tally(g, a, i); lemma_list_tally(g, b, i);
    if a.len() > 0 {
        let x = a.last();
        lemma_drop_twice(a);
        if runouts_of(g, x, i) != zero_tally() {
            assert(b.contains(x));
            let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
            lemma_remove_twice(b, j); lemma_list_remove(g, b, j, i);
            lemma_exchange(g, a.drop_last(), b.remove(j), i);
        } else { lemma_exchange(g, a.drop_last(), b, i); lemma_list_tally(g, a.drop_last(), i); }
    } else if b.len() > 0 {
        let x = b.last();
        lemma_drop_twice(b);
        if runouts_of(g, x, i) != zero_tally() { assert(a.contains(x)); }
        lemma_exchange(g, a, b.drop_last(), i);
        lemma_list_tally(g, b.drop_last(), i);
    }
}
proof fn lemma_fewer(a: Seq<Seq<int>>, b: Seq<Seq<int>>)
    requires no_twice(a), no_twice(b), forall|x: Seq<int>| #[trigger] a.contains(x) ==> b.contains(x),
    ensures a.len() <= b.len(),
    decreases a.len(),
{
    if a.len() > 0 {
        let x = a.last();
        lemma_drop_twice(a);
        assert(a.contains(x));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        lemma_remove_twice(b, j);
        lemma_fewer(a.drop_last(), b.remove(j));
    }
}
// ---- one hand of each range: the list
spec fn listing(rs: Seq<HandRange>, x: Seq<int>, k: int) -> Seq<Seq<int>> decreases rs.len() - x.len(), k {
    if x.len() >= rs.len() { seq![x] } else if k <= 0 { Seq::<Seq<int>>::empty() } else { listing(rs, x, k - 1) + listing(rs, x.push(k - 1), hands_of(rs, x.len() as int + 1)) }
}
spec fn starts(y: Seq<int>, x: Seq<int>) -> bool { x.len() <= y.len() && forall|p: int| 0 <= p < x.len() ==> #[trigger] y[p] == x[p] }
// y begins with x, and the next entry is below k
spec fn continues(rs: Seq<HandRange>, y: Seq<int>, x: Seq<int>, k: int) -> bool { starts(y, x) && y.len() == rs.len() && (x.len() < rs.len() ==> 0 <= y[x.len() as int] < k) && forall|p: int| x.len() < p < rs.len() ==> 0 <= #[trigger] y[p] < rs[p].hands.len() }
proof fn lemma_listing(rs: Seq<HandRange>, x: Seq<int>, k: int)
    requires x.len() <= rs.len(), k >= 0,
    ensures no_twice(listing(rs, x, k)), forall|y: Seq<int>| #[trigger] listing(rs, x, k).contains(y) == continues(rs, y, x, k),
    decreases rs.len() - x.len(), k,
{
    let l = listing(rs, x, k);
    if x.len() >= rs.len() {
        assert forall|y: Seq<int>| #[trigger] l.contains(y) == continues(rs, y, x, k) by { if l.contains(y) { assert(l[0] == y); } if continues(rs, y, x, k) { assert(y =~= x); assert(l[0] == y); } }
    } else if k > 0 {
        let z = x.push(k - 1);
        let m = hands_of(rs, x.len() as int + 1);
        let (a, b) = (listing(rs, x, k - 1), listing(rs, z, m));
        lemma_listing(rs, x, k - 1); lemma_listing(rs, z, m);
        assert forall|y: Seq<int>| #[trigger] l.contains(y) == continues(rs, y, x, k) by {
            if l.contains(y) {
                let j = choose|j: int| 0 <= j < l.len() && l[j] == y;
                if j < a.len() { assert(a[j] == y); assert(a.contains(y)); } else { assert(b[j - a.len()] == y); assert(b.contains(y)); assert(continues(rs, y, z, m)); lemma_starts(rs, y, x, k - 1); }
            }
            if continues(rs, y, x, k) {
                if y[x.len() as int] == k - 1 { lemma_starts(rs, y, x, k - 1); assert(b.contains(y)); let j = choose|j: int| 0 <= j < b.len() && b[j] == y; assert(l[a.len() + j] == y); }
                else { assert(continues(rs, y, x, k - 1)); assert(a.contains(y)); let j = choose|j: int| 0 <= j < a.len() && a[j] == y; assert(l[j] == y); }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] l[i] != #[trigger] l[j] by {
            if j < a.len() { assert(a[i] != a[j]); } else if i >= a.len() { assert(b[i - a.len()] != b[j - a.len()]); }
            else { assert(a.contains(l[i])); assert(b[j - a.len()] == l[j]); assert(b.contains(l[j])); assert(continues(rs, l[i], x, k - 1)); assert(continues(rs, l[j], z, m)); lemma_starts(rs, l[j], x, k - 1); }
        }
    } else { assert forall|y: Seq<int>| #[trigger] l.contains(y) == continues(rs, y, x, k) by { } }
}
proof fn lemma_starts(rs: Seq<HandRange>, y: Seq<int>, x: Seq<int>, h: int)
    requires x.len() < rs.len(),
    ensures continues(rs, y, x.push(h), hands_of(rs, x.len() as int + 1)) == (starts(y, x) && y.len() == rs.len() && y[x.len() as int] == h && forall|p: int| x.len() < p < rs.len() ==> 0 <= #[trigger] y[p] < rs[p].hands.len()),
{
    let (z, m) = (x.push(h), hands_of(rs, x.len() as int + 1));
    let n = x.len() as int;
    if continues(rs, y, z, m) {
        assert(z[n] == h); assert(y[n] == z[n]);
        assert forall|p: int| 0 <= p < n implies #[trigger] y[p] == x[p] by { assert(z[p] == x[p]); }
        assert forall|p: int| n < p < rs.len() implies 0 <= #[trigger] y[p] < rs[p].hands.len() by { if p == n + 1 { assert(0 <= y[z.len() as int] < m); } }
    }
    if starts(y, x) && y.len() == rs.len() && y[n] == h && (forall|p: int| n < p < rs.len() ==> 0 <= #[trigger] y[p] < rs[p].hands.len()) {
        assert forall|p: int| 0 <= p < z.len() implies #[trigger] y[p] == z[p] by { if p < n { assert(y[p] == x[p]); } }
        if n + 1 < rs.len() { assert(0 <= y[n + 1] < rs[n + 1].hands.len()); }
    }
}
proof fn lemma_sum_listing(g: Game, x: Seq<int>, k: int, i: int)
    requires x.len() <= g.rs.len(),
    ensures sum_hands(g, x, k, i) =~= list_sum(g, listing(g.rs, x, k), i), tally(sum_hands(g, x, k, i)),
    decreases g.rs.len() - x.len(), k,
{
    lemma_list_tally(g, listing(g.rs, x, k), i);
    if x.len() >= g.rs.len() {
        let l = listing(g.rs, x, k);
        assert(l.drop_last() =~= Seq::<Seq<int>>::empty());
        assert(l.last() == x);
        assert(list_sum(g, l.drop_last(), i) == zero_tally());
    } else if k > 0 {
        let (z, m) = (x.push(k - 1), hands_of(g.rs, x.len() as int + 1));
        lemma_sum_listing(g, x, k - 1, i); lemma_sum_listing(g, z, m, i);
        lemma_list_append(g, listing(g.rs, x, k - 1), listing(g.rs, z, m), i);
    }
}
proof fn lemma_ways(rs: Seq<HandRange>, x: Seq<int>, k: int)
    requires x.len() <= rs.len(), k >= 0,
    ensures listing(rs, x, k).len() == if x.len() < rs.len() { k * hand_choices(rs, x.len() as int + 1) } else { 1 },
    decreases rs.len() - x.len(), k,
{
    if x.len() < rs.len() && k > 0 {
        let (z, m, v) = (x.push(k - 1), hands_of(rs, x.len() as int + 1), hand_choices(rs, x.len() as int + 1));
        lemma_ways(rs, x, k - 1); lemma_ways(rs, z, m);
        assert((k - 1) * v + v == k * v) by (nonlinear_arith);
    } else if x.len() < rs.len() { assert(0 * hand_choices(rs, x.len() as int + 1) == 0); }
}
// ---- the joint holdings of the groups as hands of the ranges
spec fn lists(g: CombinedRange, rs: Seq<HandRange>) -> Seq<Seq<int>> { choose|ts: Seq<Seq<int>>| group_lists(g, rs, ts) }
spec fn unpicked(gs: Seq<CombinedRange>, rs: Seq<HandRange>, d: Seq<int>) -> Seq<int> { Seq::new(rs.len(), |p: int| lists(gs[seat(gs, p).0], rs)[d[seat(gs, p).0]][seat(gs, p).1]) }
spec fn grouped(gs: Seq<CombinedRange>, rs: Seq<HandRange>) -> bool { groups_of(gs, rs) && groups_ok(gs, rs.len() as int) && proper(rs) }
proof fn lemma_unpicked(gs: Seq<CombinedRange>, rs: Seq<HandRange>, d: Seq<int>)
    requires grouped(gs, rs), choice(gs, d),
    ensures one_of_each(rs, unpicked(gs, rs, d)), forall|p: int| 0 <= p < rs.len() ==> #[trigger] hands_at(rs, unpicked(gs, rs, d))[p] == held_by(gs, d, p),
{
    let x = unpicked(gs, rs, d);
    assert forall|p: int| 0 <= p < rs.len() implies 0 <= #[trigger] x[p] < rs[p].hands.len() && hands_at(rs, x)[p] == held_by(gs, d, p) by {
        lemma_seat(gs, rs.len() as int, p);
        let (a, k) = seat(gs, p);
        let g = gs[a];
        assert(is_group(gs[a], rs));
        let ts = lists(g, rs);
        assert(group_lists(g, rs, ts));
        assert(joint(rs, members(g), ts[d[a]]) && shows(g.combos@[d[a]], rs, members(g), ts[d[a]]));
        assert(members(g)[k] == p);
        assert(g.combos@[d[a]].hole_cards@[k] == (picked(rs, members(g), ts[d[a]], k).0, picked(rs, members(g), ts[d[a]], k).1, picked(rs, members(g), ts[d[a]], k).2));
    }
}
proof fn lemma_unpicked_once(gs: Seq<CombinedRange>, rs: Seq<HandRange>, d: Seq<int>, e: Seq<int>)
    requires grouped(gs, rs), choice(gs, d), choice(gs, e), unpicked(gs, rs, d) == unpicked(gs, rs, e),
    ensures d == e,
{
    let (x, y) = (unpicked(gs, rs, d), unpicked(gs, rs, e));
    assert forall|a: int| 0 <= a < gs.len() implies d[a] == e[a] by {
        let g = gs[a];
        assert(is_group(gs[a], rs));
        let ts = lists(g, rs);
        assert(group_lists(g, rs, ts));
        assert(group_ok(gs[a], rs.len() as int));
        let (t, u) = (ts[d[a]], ts[e[a]]);
        assert(joint(rs, members(g), ts[d[a]]) && joint(rs, members(g), ts[e[a]]));
        assert forall|k: int| 0 <= k < t.len() implies t[k] == u[k] by {
            let p = g.players@[k] as int;
            assert(at_seat(gs, p, a, k));
            lemma_own_seat(gs, rs.len() as int, p, a, k);
            assert(x[p] == t[k] && y[p] == u[k]);
        }
        assert(t =~= u);
        if d[a] < e[a] { assert(ts[d[a]] != ts[e[a]]); }
        if e[a] < d[a] { assert(ts[e[a]] != ts[d[a]]); }
    }
    assert(d =~= e);
}
// the masks of hands without common cards
proof fn lemma_masks_apart(a: RangeCombo, b: RangeCombo)
    requires deck_hand(a), deck_hand(b), disjoint(pair((a.0, a.1, a.2)), pair((b.0, b.1, b.2))),
    ensures hand_mask(a) & hand_mask(b) == 0,
{
    lemma_hand_mask(a); lemma_hand_mask(b);
    assert forall|y: int| 0 <= y < 52 implies !(#[trigger] mask_cards(hand_mask(a))[y] && mask_cards(hand_mask(b))[y]) by { assert(mask_cards(hand_mask(a))[y] == hole_has(a, y)); assert(mask_cards(hand_mask(b))[y] == hole_has(b, y)); assert(!(pair((a.0, a.1, a.2))[y] && pair((b.0, b.1, b.2))[y])); }
    lemma_deck_and(hand_mask(a), hand_mask(b));
}
// hands that fit are joint holdings of the groups
proof fn lemma_picked_back(gs: Seq<CombinedRange>, rs: Seq<HandRange>, x: Seq<int>, base: Seq<bool>) -> (d: Seq<int>)
    requires grouped(gs, rs), one_of_each(rs, x), fit(hands_at(rs, x), base),
    ensures choice(gs, d), unpicked(gs, rs, d) == x,
{
    let hp = hands_at(rs, x);
    let n = rs.len() as int;
    let d = Seq::new(gs.len(), |a: int| choose|c: int| 0 <= c < gs[a].combos.len() && lists(gs[a], rs)[c] == Seq::new(gs[a].player_count as nat, |k: int| x[gs[a].players@[k] as int]));
    assert forall|a: int| 0 <= a < gs.len() implies 0 <= #[trigger] d[a] < gs[a].combos.len() && lists(gs[a], rs)[d[a]] == Seq::new(gs[a].player_count as nat, |k: int| x[gs[a].players@[k] as int]) by {
        let g = gs[a];
        assert(is_group(gs[a], rs));
        let ts = lists(g, rs);
        assert(group_lists(g, rs, ts));
        assert(group_ok(gs[a], n));
        let ps = members(g);
        let t = Seq::new(g.player_count as nat, |k: int| x[g.players@[k] as int]);
        assert forall|k: int| 0 <= k < ps.len() implies 0 <= #[trigger] ps[k] < rs.len() && 0 <= t[k] < rs[ps[k]].hands.len() by { assert(g.players@[k] < n); assert(0 <= x[ps[k]] < rs[ps[k]].hands.len()); }
        let ms = masks(rs, ps, t);
        assert forall|i: int, j: int| 0 <= i < j < ms.len() implies #[trigger] ms[i] & #[trigger] ms[j] == 0 by {
            let (p, q) = (ps[i], ps[j]);
            assert(0 <= ps[i] < rs.len() && 0 <= ps[j] < rs.len());
            assert(own_players(g)); assert(g.players@[i] != g.players@[j]);
            let (h, l) = (picked(rs, ps, t, i), picked(rs, ps, t, j));
            assert(deck_hand(rs[p].hands@[x[p]]) && deck_hand(rs[q].hands@[x[q]]));
            assert(hp[p] == (h.0, h.1, h.2) && hp[q] == (l.0, l.1, l.2));
            if p < q { assert(disjoint(pair(hp[p]), pair(hp[q]))); lemma_masks_apart(h, l); }
            else { assert(disjoint(pair(hp[q]), pair(hp[p]))); lemma_masks_apart(l, h); let (u, v) = (ms[i], ms[j]); assert(u & v == v & u) by (bit_vector); }
        }
        assert(joint(rs, ps, t));
        assert(ts.contains(t));
        let c = choose|c: int| 0 <= c < ts.len() && ts[c] == t;
        assert(0 <= c < gs[a].combos.len() && lists(gs[a], rs)[c] == t);
    }
    assert forall|p: int| 0 <= p < n implies unpicked(gs, rs, d)[p] == x[p] by {
        lemma_seat(gs, n, p);
        let (a, k) = seat(gs, p);
        assert(0 <= d[a] < gs[a].combos.len());
    }
    assert(unpicked(gs, rs, d) =~= x);
    d
}
pub open spec fn table_of(gs: Seq<CombinedRange>, g: Game) -> Table { Table { gs, n: g.rs.len() as int, board: g.board, base: g.base } }
// the groups' showdowns in terms of the hands
proof fn lemma_same_hands(gs: Seq<CombinedRange>, g: Game, d: Seq<int>)
    requires grouped(gs, g.rs), choice(gs, d), 1 <= g.rs.len() <= 9,
    ensures ({ let (n, hp) = (g.rs.len() as int, hands_at(g.rs, unpicked(gs, g.rs, d)));
        legal(gs, d, n, g.base) == fit(hp, g.base) && deal_of(held(gs, d, n), n) == hole_sets(hp) && free_cards(gs, d, n, g.base) == cards_left(hp, g.base) && weight_to(gs, d, n) == weights_to(hp, n) }),
        forall|i: int| 0 <= i < 1326 * g.rs.len() ==> #[trigger] holds_record(hands_at(g.rs, unpicked(gs, g.rs, d)), i) == (slot_in(table_of(gs, g), d, i / 1326) == i),
{
    let n = g.rs.len() as int;
    let hp = hands_at(g.rs, unpicked(gs, g.rs, d));
    lemma_unpicked(gs, g.rs, d);
    assert forall|p: int| 0 <= p < n implies #[trigger] held_by(gs, d, p) == hp[p] by { }
    assert(legal(gs, d, n, g.base) == fit(hp, g.base)) by {
        if legal(gs, d, n, g.base) {
            assert forall|p: int| 0 <= p < n implies disjoint(g.base, pair(#[trigger] hp[p])) by { assert(disjoint(g.base, pair(held_by(gs, d, p)))); }
            assert forall|p: int, q: int| 0 <= p < q < n implies disjoint(pair(#[trigger] hp[p]), pair(#[trigger] hp[q])) by { assert(disjoint(pair(held_by(gs, d, p)), pair(held_by(gs, d, q)))); }
        }
    }
    assert(deal_of(held(gs, d, n), n) =~= hole_sets(hp)) by { assert forall|p: int| 0 <= p < n implies deal_of(held(gs, d, n), n)[p] == hole_sets(hp)[p] by { assert(held(gs, d, n)[p].cards == held_by(gs, d, p)); } }
    assert(free_cards(gs, d, n, g.base) =~= cards_left(hp, g.base)) by {
        assert forall|c: int| 0 <= c < 52 implies in_hand(gs, d, n, gs.len() as int, c) == among(hp, c) by {
            if in_hand(gs, d, n, gs.len() as int, c) { let p = choose|p: int| 0 <= p < n && seat(gs, p).0 < gs.len() && pair(#[trigger] held_by(gs, d, p))[c]; assert(pair(hp[p])[c]); }
            if among(hp, c) { let p = choose|p: int| 0 <= p < hp.len() && pair(#[trigger] hp[p])[c]; lemma_seat(gs, n, p); assert(pair(held_by(gs, d, p))[c]); }
        }
    }
    lemma_same_weight(gs, g, d, n);
    assert forall|i: int| 0 <= i < 1326 * n implies #[trigger] holds_record(hp, i) == (slot_in(table_of(gs, g), d, i / 1326) == i) by { assert(held_by(gs, d, i / 1326) == hp[i / 1326]); }
}
proof fn lemma_same_weight(gs: Seq<CombinedRange>, g: Game, d: Seq<int>, k: int)
    requires grouped(gs, g.rs), choice(gs, d), 0 <= k <= g.rs.len(),
    ensures weight_to(gs, d, k) == weights_to(hands_at(g.rs, unpicked(gs, g.rs, d)), k),
    decreases k,
{ lemma_unpicked(gs, g.rs, d); if k > 0 { lemma_same_weight(gs, g, d, k - 1); assert(hands_at(g.rs, unpicked(gs, g.rs, d))[k - 1] == held_by(gs, d, k - 1)); } }
proof fn lemma_same_runouts(gs: Seq<CombinedRange>, g: Game, d: Seq<int>, i: int)
    requires grouped(gs, g.rs), choice(gs, d), 1 <= g.rs.len() <= 9, i < 1326 * g.rs.len(),
    ensures runouts_of(g, unpicked(gs, g.rs, d), i) == (if i < 0 { showdowns(table_of(gs, g), d) } else { showdowns_of(table_of(gs, g), d, i) }),
{ lemma_same_hands(gs, g, d); if i >= 0 { assert(holds_record(hands_at(g.rs, unpicked(gs, g.rs, d)), i) == (slot_in(table_of(gs, g), d, i / 1326) == i)); } }
// the positions ps of the groups' choices, as hands
spec fn unpicked_at(gs: Seq<CombinedRange>, rs: Seq<HandRange>, m: int) -> Seq<Seq<int>> { Seq::new(m as nat, |j: int| unpicked(gs, rs, picks_at(gs, j))) }
proof fn lemma_sum_unpicked(gs: Seq<CombinedRange>, g: Game, m: int, i: int)
    requires grouped(gs, g.rs), 1 <= g.rs.len() <= 9, 0 <= m, i < 1326 * g.rs.len(),
    ensures sum_rec(table_of(gs, g), span(0, m), m, i) =~= list_sum(g, unpicked_at(gs, g.rs, m), i),
    decreases m,
{
    let t = table_of(gs, g);
    if m > 0 {
        lemma_sum_unpicked(gs, g, m - 1, i);
        lemma_prefix(t, span(0, m), span(0, m - 1), m - 1, i);
        let l = unpicked_at(gs, g.rs, m);
        assert(l.drop_last() =~= unpicked_at(gs, g.rs, m - 1));
        assert(span(0, m)[m - 1] == m - 1);
        lemma_picks_at(gs, g.rs.len() as int, m - 1);
        lemma_same_runouts(gs, g, picks_at(gs, m - 1), i);
        assert(l.last() == unpicked(gs, g.rs, picks_at(gs, m - 1)));
    }
}
proof fn lemma_unpicked_list(gs: Seq<CombinedRange>, rs: Seq<HandRange>)
    requires grouped(gs, rs), 1 <= rs.len(),
    ensures no_twice(unpicked_at(gs, rs, deals(gs, gs.len() as int))), forall|x: Seq<int>| #[trigger] unpicked_at(gs, rs, deals(gs, gs.len() as int)).contains(x) ==> one_of_each(rs, x),
{
    let m = deals(gs, gs.len() as int);
    let l = unpicked_at(gs, rs, m);
    theorem_positions(gs, rs.len() as int);
    assert forall|a: int, b: int| 0 <= a < b < l.len() implies #[trigger] l[a] != #[trigger] l[b] by {
        let (d, e) = (picks_at(gs, a), picks_at(gs, b));
        assert(choice(gs, picks_at(gs, a)) && choice(gs, picks_at(gs, b)));
        if unpicked(gs, rs, d) == unpicked(gs, rs, e) { lemma_unpicked_once(gs, rs, d, e); }
    }
    assert forall|x: Seq<int>| #[trigger] l.contains(x) implies one_of_each(rs, x) by { let j = choose|j: int| 0 <= j < l.len() && l[j] == x; assert(choice(gs, picks_at(gs, j))); lemma_unpicked(gs, rs, picks_at(gs, j)); }
}
proof fn lemma_one_of_each(rs: Seq<HandRange>, y: Seq<int>)
    requires rs.len() >= 1,
    ensures continues(rs, y, Seq::<int>::empty(), hands_of(rs, 0)) == one_of_each(rs, y),
{ if continues(rs, y, Seq::<int>::empty(), hands_of(rs, 0)) { assert(0 <= y[Seq::<int>::empty().len() as int] < hands_of(rs, 0)); assert forall|p: int| 0 <= p < rs.len() implies 0 <= #[trigger] y[p] < rs[p].hands.len() by { if p > 0 { } } } else if one_of_each(rs, y) { assert(0 <= y[0] < rs[0].hands.len()); } }
// C13: all positions once are all deals once
pub proof fn theorem_every_deal(gs: Seq<CombinedRange>, g: Game, i: int)
    requires groups_of(gs, g.rs), groups_ok(gs, g.rs.len() as int), proper(g.rs), 1 <= g.rs.len() <= 9, i < 1326 * g.rs.len(),
    ensures sum_rec(table_of(gs, g), span(0, deals(gs, gs.len() as int)), deals(gs, gs.len() as int), i) == every_deal(g, i),
        deals(gs, gs.len() as int) <= hand_choices(g.rs, 0), deals(gs, gs.len() as int) > 0,
{
    let rs = g.rs;
    let m = deals(gs, gs.len() as int);
    let e = Seq::<int>::empty();
    let (a, b) = (unpicked_at(gs, rs, m), listing(rs, e, hands_of(rs, 0)));
    lemma_sizes(gs, rs.len() as int); lemma_deals(gs, gs.len() as int, gs.len() as int);
    lemma_sum_unpicked(gs, g, m, i);
    lemma_unpicked_list(gs, rs);
    lemma_listing(rs, e, hands_of(rs, 0));
    lemma_sum_listing(g, e, hands_of(rs, 0), i);
    lemma_ways(rs, e, hands_of(rs, 0));
    assert forall|x: Seq<int>| #[trigger] a.contains(x) implies b.contains(x) by { assert(one_of_each(rs, x)); lemma_one_of_each(rs, x); }
    lemma_fewer(a, b);
    assert forall|x: Seq<int>| b.contains(x) && #[trigger] runouts_of(g, x, i) != zero_tally() implies a.contains(x) by {
        lemma_one_of_each(rs, x);
        assert(continues(rs, x, e, hands_of(rs, 0)));
        assert(fit(hands_at(rs, x), g.base));
        let d = lemma_picked_back(gs, rs, x, g.base);
        theorem_positions(gs, rs.len() as int);
        let j = choose|j: int| 0 <= j < m && #[trigger] picks_at(gs, j) == d;
        assert(a[j] == x);
    }
    lemma_exchange(g, a, b, i);
}
