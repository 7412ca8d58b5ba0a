//! C12-C21, C23, C24: combined ranges and calculations
use crate::ctx::*;
use crate::eq::*;
use crate::orc::*;
use crate::p_text::{got, unesc};
use crate::Prop;
use pokers::equity_calculator::CombinedRange;
use pokers::*;
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    let eqrule = "requests of 2 to 9 players with random (often suit-biased) boards, dead cards and weighted ranges, sized so that every deal can be enumerated; non-trivial when more than one deal exists";
    vec![
        Prop { id: "C12", rule: "lists of 1 to 9 ranges, small ones joined and large ones not; non-trivial when two ranges share a card", run: run_c12, check: check_c12 },
        Prop { id: "C13", rule: eqrule, run: run_c13, check: check_c13 },
        Prop { id: "C14", rule: "requests with many joint holdings, run with 1, 2, 3, 8, 64 and 255 threads; non-trivial when the work is more than one batch", run: run_c14, check: check_c14 },
        Prop { id: "C15", rule: "simulations over small decks, blocked and weighted ranges, compared with the set of outcomes full enumeration allows", run: run_c15, check: check_c15 },
        Prop { id: "C16", rule: "exact, sampled and cancelled runs on 1 to 8 threads", run: run_c16, check: check_c16 },
        Prop { id: "C17", rule: "runs over whole classes and single hands, some of them blocked; class records recomputed from the hand records", run: run_c17, check: check_c17 },
        Prop { id: "C18", rule: "runs on boards of 0 to 5 cards; records recomputed from the hand records", run: run_c18, check: check_c18 },
        Prop { id: "C19", rule: "runs over full-weight, uniform and mixed ranges with boards and dead cards", run: run_c19, check: check_c19 },
        Prop { id: "C20", rule: "requests at and beyond every limit, and feasible ones, for both calculations", run: run_c20, check: check_c20 },
        Prop { id: "C21", rule: "exact runs before and after scaling one range's weights, and full-weight runs of up to nine players", run: run_c21, check: check_c21 },
        Prop { id: "C23", rule: "all progress values of exact runs (1 to 8 threads) and simulations", run: run_c23, check: check_c23 },
        Prop { id: "C24", rule: "simulations with one and several threads and targets from 0.02 to 0.0005", run: run_c24, check: check_c24 },
        Prop { id: "C26", rule: "long exact runs and endless simulations, cancelled before they start, from the callback and after some milliseconds", run: run_c26, check: check_c26 },
    ]
}

// ------------------------------------------------------------------ generators
fn card(r: &mut Rng, used: &mut u64, suits: &[u8]) -> u8 {
    loop {
        let mut c = r.below(52) as u8;
        if !suits.is_empty() && r.chance(4, 5) { c = c / 4 * 4 + *r.pick(suits) }
        if *used >> c & 1 == 0 { *used |= 1 << c; return c }
        // a full suit: fall back to any free card
        let c = r.below(52) as u8;
        if *used >> c & 1 == 0 { *used |= 1 << c; return c }
    }
}
fn suits(r: &mut Rng) -> Vec<u8> { let k = r.below(5); (0..k.min(3)).map(|_| r.below(4) as u8).collect() }
fn range_text(h: &[(u8, u8, u8)]) -> String { h.iter().map(|x| format!("{}{}", names(&[x.0, x.1]), if x.2 == 100 { String::new() } else { format!("@{}", x.2) })).collect::<Vec<_>>().join(",") }

pub struct Opt { pub max_cost: u128, pub players: (u64, u64), pub weights: u8, pub hands: u64 }
/// weights: 0 all 100, 1 anything, 2 at most one player with different weights
fn gen_req(r: &mut Rng, o: &Opt) -> Req {
    loop {
        let n = if r.chance(1, 2) { r.range(o.players.0, o.players.1.min(o.players.0 + 1)) } else { r.range(o.players.0, o.players.1) } as usize;
        let s = suits(r);
        let mut used = 0u64;
        let nb = *r.pick(&[0usize, 0, 1, 2, 3, 3, 3, 4, 4, 5]);
        let board: u64 = cards_mask(&(0..nb).map(|_| card(r, &mut used, &s)).collect::<Vec<_>>());
        let mut base = vec![];
        for _ in 0..n { let s = if r.chance(1, 3) { vec![] } else { s.clone() }; let a = card(r, &mut used, &s); let b = card(r, &mut used, &s); base.push((a, b)) }
        // a small deck, or only a few dead cards
        let free = 52 - used.count_ones() as u64;
        let keep_base = used;
        let need = 5 - nb as u64;
        let nd = match r.below(4) { 0 => 0, 1 => r.below(4).min(free - need), _ => { let left = need + r.below(20); if free > left { free - left } else { 0 } } };
        let s2: Vec<u8> = vec![];
        let mut dead = 0u64;
        for _ in 0..nd { dead |= 1 << card(r, &mut used, &s2) }
        let wmode = o.weights;
        let wp = r.below(n as u64) as usize;
        let mut ranges = vec![];
        for (p, b) in base.iter().enumerate() {
            let mut hs = vec![(b.0, b.1)];
            for _ in 0..r.below(o.hands) {
                let mut u = board | dead;
                if r.chance(1, 8) { u = 0 }
                let x = if r.chance(1, 3) { *r.pick(&mask_cards(keep_base)) } else { card(r, &mut u, &s) };
                u |= 1 << x;
                let y = card(r, &mut u, &s);
                if x != y { hs.push((x, y)) }
            }
            let full = match wmode { 0 => true, 2 => p != wp, _ => r.chance(1, 2) };
            let same = r.range(1, 100) as u8;
            let uni = !full && r.chance(1, 4) || (wmode == 2 && p != wp && r.chance(1, 3));
            let v: Vec<(u8, u8, u8)> = hs.into_iter().map(|(a, b)| (a, b, if uni { same } else if full { 100 } else { *r.pick(&[1u8, 2, 3, 5, 7, 10, 25, 50, 60, 64, 75, 90, 97, 99, 100, 100]) })).collect();
            ranges.push(range_text(&v));
        }
        let q = Req { exact: true, threads: r.range(1, 4) as u8, target: 0.02, cancel: false, board, dead, ranges };
        let c = cost(&q);
        if c == 0 || c > o.max_cost { continue }
        // the exact totals must fit the 64-bit counters
        let w: u128 = free_ranges(&q).iter().map(|x| reduced(x).iter().map(|h| h.2 as u128).max().unwrap_or(1)).product();
        if w.saturating_mul(c) > 1u128 << 62 { continue }
        return q;
    }
}
/// big ranges, so that groups stay apart
fn gen_big(r: &mut Rng, max_cost: u128) -> Req {
    loop {
        let nb = *r.pick(&[3usize, 4, 5, 5, 5]);
        let mut used = 0u64;
        let board = cards_mask(&(0..nb).map(|_| card(r, &mut used, &[])).collect::<Vec<_>>());
        let keep = r.range(12, 47);
        let mut dead = 0u64;
        while (52 - used.count_ones() as u64) > keep { dead |= 1 << card(r, &mut used, &[]) }
        let free = mask_cards(!used & ((1 << 52) - 1));
        let n = r.range(2, 3) as usize;
        let ranges: Vec<String> = (0..n).map(|p| {
            if p == 0 && r.chance(1, 2) { return "random".to_string() }
            let blocker = *r.pick(&free);
            let kind = r.below(3);
            let mut v = vec![];
            for (i, a) in free.iter().enumerate() { for b in &free[i + 1..] {
                let has = *a == blocker || *b == blocker;
                if (kind == 0 && has) || (kind != 0 && r.chance(1, 3)) { v.push((*b, *a, if kind == 2 && r.chance(1, 2) { 50 } else { 100 })) }
            } }
            if v.is_empty() { v.push((free[1], free[0], 100)) }
            range_text(&v)
        }).collect();
        let q = Req { exact: true, threads: r.range(1, 4) as u8, target: 0.02, cancel: false, board, dead, ranges };
        let c = cost(&q);
        if c > 0 && c <= max_cost { return q }
    }
}
fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-3) || (a.is_nan() && b.is_nan()) }
fn hname(i: usize) -> String { let (a, b) = all_hands()[i]; names(&[a, b]) }

// ------------------------------------------------------------------ C12
fn check_c12(case: &str) -> Result<bool, String> {
    let ranges: Vec<HandRange> = HandRange::from_strings(case.split('|').map(unesc).collect());
    let g = CombinedRange::from_ranges(&ranges);
    let rs: Vec<Vec<(u8, u8, u8)>> = ranges.iter().map(got).collect();
    let mut seen = vec![0; rs.len()];
    let mut nt = false;
    for c in &g {
        let k = c.player_count();
        let ps: Vec<usize> = c.players()[..k].to_vec();
        for p in &ps { if *p >= rs.len() { return Err(format!("group names player {p}")) } seen[*p] += 1 }
        if c.size() != c.combos().len() { return Err(format!("size {} but {} holdings", c.size(), c.combos().len())) }
        let mut want: HashMap<Vec<(u8, u8, u8)>, i64> = HashMap::new();
        fn rec(i: usize, ps: &[usize], rs: &[Vec<(u8, u8, u8)>], used: u64, cur: &mut Vec<(u8, u8, u8)>, w: &mut HashMap<Vec<(u8, u8, u8)>, i64>, nt: &mut bool) {
            if i == ps.len() { *w.entry(cur.clone()).or_insert(0) += 1; return }
            for h in &rs[ps[i]] {
                let m = 1u64 << h.0 | 1u64 << h.1;
                if used & m != 0 { *nt = true; continue }
                cur.push(*h);
                rec(i + 1, ps, rs, used | m, cur, w, nt);
                cur.pop();
            }
        }
        rec(0, &ps, &rs, 0, &mut vec![], &mut want, &mut nt);
        for x in c.combos() {
            let h: Vec<(u8, u8, u8)> = x.hole_cards[..k].to_vec();
            match want.get_mut(&h) {
                Some(n) if *n > 0 => *n -= 1,
                _ => return Err(format!("players {ps:?}: holding {h:?} listed too often or not in the ranges")),
            }
            let m = h.iter().fold(0u64, |m, c| m | 1 << c.0 | 1 << c.1);
            if x.mask != m { return Err(format!("mask {:#x} of holding {h:?}", x.mask)) }
            for (i, c) in h.iter().enumerate() {
                if x.hands[i] != CARDS[c.0 as usize] + CARDS[c.1 as usize] { return Err(format!("hand value {i} of holding {h:?}")) }
            }
        }
        if let Some((h, _)) = want.iter().find(|(_, n)| **n > 0) { return Err(format!("players {ps:?}: holding {h:?} is missing")) }
    }
    if seen.iter().any(|n| *n != 1) { return Err(format!("players' number of groups: {seen:?}")) }
    Ok(nt)
}
fn run_c12(ctx: &Ctx) {
    let fixed: Vec<String> = ["'AA'|'AA'|'AA'", "'AA'|'AA'", "'AK'|'AQ'|'KQ'", "'random'|'random'", "'random'|'random'|'AA'", "'AsKs'", "'AA'|''", "'AA@50,KK'|'KK@20,AK'|'AK@1,QQ'"].iter().map(|s| s.to_string()).collect();
    ctx.cases(&fixed, 100_000, |r| {
        let n = r.range(1, 9) as usize;
        let few: Vec<u8> = if r.chance(1, 2) { let k = r.range(4, 12).max(if n > 4 { 2 * n as u64 } else { 4 }) as usize; r.cards(k, 0) } else { (0..52).collect() };
        let mut prod = 1u128;
        let v: Vec<String> = (0..n).map(|_| {
            let big = n <= 3 && r.chance(1, 4);
            let k = if big { r.range(30, 160) } else { r.range(1, if n <= 4 { 12 } else { 4 }) };
            prod *= k as u128;
            let mut u = vec![];
            let src: Vec<u8> = if big { (0..52).collect() } else { few.clone() };
            for _ in 0..k { let a = *r.pick(&src); let b = *r.pick(&src); if a != b { u.push((a, b, if r.chance(1, 2) { 100 } else { r.range(0, 100) as u8 })) } }
            crate::p_text::esc(&range_text(&u))
        }).collect();
        v.join("|")
    }, check_c12);
}

// ------------------------------------------------------------------ C13
/// None when the request was refused because nothing can be dealt, which is then checked
fn run_ok(q: &Req) -> Result<Option<SimulationResults>, String> {
    match q.run().0 {
        Ok(r) => Ok(Some(r)),
        Err(SimulatorError::ConflictingRanges) if !feasible(q) => Ok(None),
        Err(e) => Err(format!("refused: {e:?}")),
    }
}
/// is there a joint holding at all
fn feasible(q: &Req) -> bool {
    let r = free_ranges(q);
    fn go(r: &[Vec<(u8, u8, u8)>], used: u64) -> bool {
        r.is_empty() || r[0].iter().any(|h| { let m = 1u64 << h.0 | 1u64 << h.1; used & m == 0 && go(&r[1..], used | m) })
    }
    go(&r, 0)
}
fn compare(q: &Req, res: &SimulationResults, b: &Brute) -> Result<(), String> {
    let n = b.n;
    if res.wins.len() != n || res.ties.len() != n || res.equities.len() != n || res.wins_by_mask.len() != 1 << n || res.hand_results.len() != 1326 * n { return Err("result sizes".into()) }
    for i in 0..1326 * n {
        let h = &res.hand_results[i];
        if h.total as u128 != b.total[i] || h.wins as u128 != b.wins[i] || h.ties as u128 != b.ties[i] {
            return Err(format!("player {} {}: wins {} ties {} total {}, enumeration gives {} {} {}", i / 1326, hname(i % 1326), h.wins, h.ties, h.total, b.wins[i], b.ties[i], b.total[i]));
        }
        if !close(h.corrected_ties, b.shares[i]) { return Err(format!("player {} {}: tie share {}, enumeration gives {}", i / 1326, hname(i % 1326), h.corrected_ties, b.shares[i])) }
    }
    for m in 0..1 << n { if res.wins_by_mask[m] as u128 != b.by_mask[m] { return Err(format!("winner set {m:#b}: {} counted, enumeration gives {}", res.wins_by_mask[m], b.by_mask[m])) } }
    let total: u128 = b.by_mask.iter().sum();
    for p in 0..n {
        let w = b.by_mask[1 << p];
        if res.wins[p] as u128 != w { return Err(format!("player {p}: {} wins, enumeration gives {w}", res.wins[p])) }
        let t: f64 = (0..1usize << n).filter(|m| m >> p & 1 == 1 && m.count_ones() > 1).map(|m| b.by_mask[m] as f64 / m.count_ones() as f64).sum();
        if !close(res.ties[p], t) { return Err(format!("player {p}: tie share {}, enumeration gives {t}", res.ties[p])) }
        if total > 0 && !close(res.equities[p], (w as f64 + t) / total as f64) { return Err(format!("player {p}: equity {}, enumeration gives {}", res.equities[p], (w as f64 + t) / total as f64)) }
    }
    let _ = q;
    Ok(())
}
fn check_c13(case: &str) -> Result<bool, String> {
    let q = Req::parse(case);
    let b = brute(&q);
    match q.run().0 {
        Ok(r) => { if b.deals == 0 { return Ok(false) } compare(&q, &r, &b)?; Ok(b.deals > 1) }
        Err(SimulatorError::ConflictingRanges) if b.deals == 0 => Ok(false),
        Err(e) => Err(format!("refused: {e:?}")),
    }
}
fn all_players() -> Vec<String> {
    // nine players, the last of them winning, losing and tying
    let mut v = vec![];
    for n in 2..=9usize {
        let low: Vec<String> = (0..n - 1).map(|i| format!("'{}s{}h'", RANKS[i], RANKS[i])).collect();
        v.push(format!("exact t=2 b=9cTcJdQhKc d= r={}|'AsAh'", low.join("|")));
        v.push(format!("exact t=1 b=9cTcJdQhKc d= r='AsAh'|{}", low.join("|")));
        v.push(format!("exact t=3 b=AcKcQcJcTc d= r='AsAh'|{}", low.join("|")));
        v.push(format!("exact t=1 b=2d5d7dTh d=2c r={}", (0..n).map(|i| format!("'{}s{}h@{},{}d{}c@{}'", RANKS[i + 1], RANKS[12 - i], 10 + i, RANKS[i + 1], RANKS[12 - i], 3 * i + 1)).collect::<Vec<_>>().join("|")));
    }
    v
}
fn run_c13(ctx: &Ctx) {
    let mut fixed = all_players();
    for s in ["exact t=4 b= d= r='AsKs'|'AhKh'", "exact t=4 b= d= r='AsAh'|'2c7d'", "exact t=2 b= d= r='9sTs'|'9hTh'", "exact t=4 b= d= r='AsKd'|'QsJs@50'", "exact t=3 b=2s d= r='AsKs'|'AhKh'|'2c2d'",
        "exact t=4 b=2s3s4s d= r='AA,KK@50,AK'|'QQ+,AsQs'", "exact t=4 b=2s3s4s9h d= r='22+'|'AK,AQ@3'|'JTs'"] { fixed.push(s.to_string()) }
    ctx.cases(&fixed, u64::MAX / 2, |r| {
        if r.chance(1, 8) { return gen_big(r, 1_500_000).text() }
        let big = r.chance(1, 25);
        let o = Opt { max_cost: if big { 4_000_000 } else { 300_000 }, players: (2, 9), weights: 1, hands: if r.chance(1, 2) { 1 } else { 6 } };
        gen_req(r, &o).text()
    }, check_c13);
}

// ------------------------------------------------------------------ C14
type Ints = (Vec<u64>, Vec<u64>, u64, Vec<(u64, u64, u64)>);
fn ints(r: &SimulationResults) -> Ints { (r.wins.clone(), r.wins_by_mask.clone(), r.eval_count, r.hand_results.iter().map(|h| (h.wins, h.ties, h.total)).collect()) }
fn check_c14(case: &str) -> Result<bool, String> {
    let mut q = Req::parse(case);
    q.threads = 1;
    let Some(a) = run_ok(&q)? else { return Ok(false) };
    let a = ints(&a);
    // the sum over everything must be what a full enumeration would count
    let w: u128 = a.1.iter().map(|x| *x as u128).sum();
    if cost(&q) < 400_000 {
        let b = brute(&q);
        let want: u128 = b.by_mask.iter().sum();
        if w != want { return Err(format!("one thread: {w} counted, {want} expected")) }
    }
    for t in [2u8, 3, 8, 64, 255, 5] {
        q.threads = t;
        let Some(b) = run_ok(&q)? else { return Err(format!("{t} threads: refused")) };
        let b = ints(&b);
        if a != b {
            let d = if a.2 != b.2 { format!("{} evaluations, {} with one thread", b.2, a.2) } else if a.1 != b.1 { "winner sets".into() } else { "hand counts".into() };
            return Err(format!("{t} threads differ from one: {d}"));
        }
    }
    Ok(cost(&q) > 2_000_000 || q.board.count_ones() < 5)
}
fn run_c14(ctx: &Ctx) {
    let fixed: Vec<String> = ["exact t=1 b= d=2s2h2c2d3s3h3c3d4s4h4c4d5s5h5c5d6s6h6c6d r='77+'|'AK,AQ'", "exact t=1 b=2s3h4c d= r='22+,AT+'|'KT+,AK@50'", "exact t=1 b=2s3h4c9d d= r='random'|'99+,AKs'", "exact t=1 b=2s3h4c9dTc d= r='random'|'random'"].iter().map(|s| s.to_string()).collect();
    ctx.cases(&fixed, u64::MAX / 2, |r| {
        if r.chance(1, 2) { return gen_big(r, 3_000_000).text() }
        gen_req(r, &Opt { max_cost: 1_000_000, players: (2, 4), weights: 1, hands: 12 }).text()
    }, check_c14);
}

// ------------------------------------------------------------------ C15
fn check_c15(case: &str) -> Result<bool, String> {
    let q = Req::parse(case);
    let b = brute(&q);
    if b.deals == 0 { return Ok(false) }
    let Some(r) = run_ok(&q)? else { return Ok(false) };
    for i in 0..1326 * b.n {
        let h = &r.hand_results[i];
        for (got, can, what) in [(h.total, b.total[i], "dealt"), (h.wins, b.wins[i], "won"), (h.ties, b.ties[i], "tied")] {
            if got > 0 && can == 0 { return Err(format!("player {} {} {what} {got} times, which no legal deal allows", i / 1326, hname(i % 1326))) }
        }
        // never lost in any legal deal
        let lost = h.total.checked_sub(h.wins).and_then(|x| x.checked_sub(h.ties)).ok_or("more wins and ties than deals")?;
        if lost > 0 && b.total[i] == b.wins[i] + b.ties[i] { return Err(format!("player {} {} lost {lost} times, which no legal deal allows", i / 1326, hname(i % 1326))) }
    }
    for m in 0..1usize << b.n { if r.wins_by_mask[m] > 0 && b.by_mask[m] == 0 { return Err(format!("winner set {m:#b} counted {} times, which no legal deal allows", r.wins_by_mask[m])) } }
    // weights: at most one player has different weights, so counts divide
    let red: Vec<Vec<(u8, u8, u64)>> = free_ranges(&q).iter().map(|x| reduced(x)).collect();
    let mixed: Vec<usize> = (0..b.n).filter(|p| red[*p].iter().any(|h| h.2 != 1)).collect();
    let total: u64 = r.wins_by_mask.iter().sum();
    if mixed.is_empty() && total != r.eval_count { return Err(format!("{} deals of weight 1 count as {total}", r.eval_count)) }
    if mixed.len() == 1 {
        let p = mixed[0];
        let mut deals = 0u64;
        for h in &red[p] {
            let t = r.hand_results[1326 * p + hand_index(h.0, h.1)].total;
            if h.2 == 0 { if t != 0 { return Err("a hand of weight 0 counts".into()) } return Ok(true) }
            if t % h.2 != 0 { return Err(format!("{} has weight {}, but counts {t}", names(&[h.0, h.1]), h.2)) }
            deals += t / h.2;
        }
        if deals != r.eval_count { return Err(format!("counts stand for {deals} deals, {} were made", r.eval_count)) }
    }
    for p in 0..b.n { let s: u64 = r.hand_results[1326 * p..1326 * (p + 1)].iter().map(|h| h.total).sum(); if s != total { return Err(format!("player {p}'s hands count {s} of {total}")) } }
    // every legal holding group must at least be reachable for tiny requests
    Ok(b.deals > 1)
}
fn gen_c15(r: &mut Rng) -> Req {
    let mut q = match r.below(4) {
        0 => gen_big(r, 400_000),
        1 => {
            // every card outside the deal is dead but a few
            let n = r.range(2, 5) as usize;
            let nb = r.below(6) as usize;
            let mut used = 0u64;
            let s = suits(r);
            let board = cards_mask(&(0..nb).map(|_| card(r, &mut used, &s)).collect::<Vec<_>>());
            let base: Vec<u8> = (0..2 * n).map(|_| card(r, &mut used, &s)).collect();
            let mut dead = 0u64;
            let left = (5 - nb as u64) + r.below(4);
            while 52 - used.count_ones() as u64 > left { dead |= 1 << card(r, &mut used, &[]) }
            let ranges = (0..n).map(|p| {
                let mut v = vec![(base[2 * p], base[2 * p + 1], 100)];
                for _ in 0..r.below(4) { let a = *r.pick(&base); let b = *r.pick(&base); if a != b { v.push((a, b, 100)) } }
                range_text(&v)
            }).collect();
            Req { exact: true, threads: 1, target: 0.02, cancel: false, board, dead, ranges }
        }
        _ => gen_req(r, &Opt { max_cost: 200_000, players: (2, 6), weights: 2, hands: 6 }),
    };
    q.exact = false;
    q.threads = *r.pick(&[1u8, 1, 2, 4]);
    q.target = *r.pick(&[0.5, 0.05, 0.01]);
    q
}
fn run_c15(ctx: &Ctx) {
    let fixed: Vec<String> = ["approx:0.01 t=2 b=2s3h4c9dTc d= r='random'|'As2h,As3s,As4s,As5s,As6s,As7s,As8s,As9s,AsTs,AsJs,AsQs,AsKs,As5h,As6h,As7h,As8h,As9h,AsTh,AsJh,AsQh,AsKh,AsAh,As5c,As6c,As7c,As8c,As9c'"].iter().map(|s| s.to_string()).collect();
    ctx.cases(&fixed, u64::MAX / 2, |r| gen_c15(r).text(), check_c15);
}

// ------------------------------------------------------------------ C16
fn consistent(r: &SimulationResults) -> Result<bool, String> {
    let n = r.wins.len();
    let total: u128 = r.wins_by_mask.iter().map(|x| *x as u128).sum();
    if total == 0 { return Ok(false) }
    if r.wins_by_mask[0] != 0 { return Err("deals counted for no winner".into()) }
    let mut sum = 0.0;
    for p in 0..n {
        let hs = &r.hand_results[1326 * p..1326 * (p + 1)];
        let (w, t, a): (u128, u128, u128) = hs.iter().fold((0, 0, 0), |s, h| (s.0 + h.wins as u128, s.1 + h.ties as u128, s.2 + h.total as u128));
        let shares: f64 = hs.iter().map(|h| h.corrected_ties).sum();
        let alone = r.wins_by_mask[1 << p] as u128;
        let tied: u128 = (0..1usize << n).filter(|m| m >> p & 1 == 1 && m.count_ones() > 1).map(|m| r.wins_by_mask[m] as u128).sum();
        let share: f64 = (0..1usize << n).filter(|m| m >> p & 1 == 1 && m.count_ones() > 1).map(|m| r.wins_by_mask[m] as f64 / m.count_ones() as f64).sum();
        if r.wins[p] as u128 != alone { return Err(format!("player {p}: {} wins, but won alone {alone} times", r.wins[p])) }
        if w != alone { return Err(format!("player {p}: hands won {w}, player won {alone}")) }
        if t != tied { return Err(format!("player {p}: hands tied {t}, player tied {tied}")) }
        if a != total { return Err(format!("player {p}: hands dealt {a}, all pots {total}")) }
        if !close(r.ties[p], share) { return Err(format!("player {p}: tie share {}, equal split gives {share}", r.ties[p])) }
        if !close(shares, share) { return Err(format!("player {p}: hands' tie shares add to {shares}, equal split gives {share}")) }
        let e = (alone as f64 + share) / total as f64;
        if !close(r.equities[p], e) { return Err(format!("player {p}: equity {}, share of the pots {e}", r.equities[p])) }
        for h in hs { if h.wins as u128 + h.ties as u128 > h.total as u128 { return Err("a hand wins and ties more than it is dealt".into()) } }
        sum += r.equities[p];
    }
    if !close(sum, 1.0) { return Err(format!("equities add to {sum}")) }
    Ok(true)
}
fn check_c16(case: &str) -> Result<bool, String> { match run_ok(&Req::parse(case))? { Some(r) => consistent(&r), None => Ok(false) } }
fn any_run(r: &mut Rng, o: &Opt) -> Req {
    let mut q = if r.chance(1, 6) { gen_big(r, 500_000) } else { gen_req(r, o) };
    q.threads = *r.pick(&[1u8, 1, 2, 3, 8]);
    if r.chance(1, 3) { q.exact = false; q.target = *r.pick(&[0.5, 0.05, 0.01]) }
    if r.chance(1, 5) { q.cancel = true }
    q
}
fn run_c16(ctx: &Ctx) {
    let mut fixed = all_players();
    for s in all_players() { fixed.push(s.replace("exact", "approx:0.05")) }
    fixed.push("exact! t=3 b= d= r='AA'|'KK'".into());
    fixed.push("exact! t=1 b= d= r='AsAh'|'KsKh'|'QsQh'".into());
    ctx.cases(&fixed, u64::MAX / 2, |r| any_run(r, &Opt { max_cost: 300_000, players: (2, 9), weights: 1, hands: 6 }).text(), check_c16);
}

// ------------------------------------------------------------------ C17
// sums beyond 64 bits are all divided by the same whole number
fn scaled(x: (u128, u128, u128, f64)) -> (u128, u128, u128, f64) { let m = if x.2 > u64::MAX as u128 { x.2 / u64::MAX as u128 + 1 } else { 1 }; (x.0 / m, x.1 / m, x.2 / m, x.3 / m as f64) }
// weights that together multiply up to sums beyond 64 bits while every single hand stays below
fn heavy_classes() -> Vec<String> {
    let r = "'AKo@99,QQ@100'|'AKo@97,QQ@98'|'22@79,33@100'|'44@99,55@100'|'66@97,88@99'|'JJ@99,TT@100'|'65s@6,64s@7'";
    vec![format!("exact t=8 b=AhKd7c9d2s d= r={r}"), format!("approx:0.5 t=8 b=AhKd7c9d2s d= r={r}")]
}
fn class_of(i: usize) -> (usize, usize) { if i < 78 { (i / 6, 6) } else if i < 390 { (13 + (i - 78) / 4, 4) } else { (91 + (i - 390) / 12, 12) } }
fn check_c17(case: &str) -> Result<bool, String> {
    let q = Req::parse(case);
    let Some(r) = run_ok(&q)? else { return Ok(false) };
    let n = r.wins.len();
    if r.combo_results.len() != 169 * n { return Err(format!("{} class records for {n} players", r.combo_results.len())) }
    let classes = all_classes();
    for p in 0..n {
        let mut s = vec![(0u128, 0u128, 0u128, 0f64, 0u64, 0usize); 169];
        for i in 0..1326 {
            let h = &r.hand_results[1326 * p + i];
            if h.total == 0 { continue }
            let (c, k) = class_of(i);
            let x = &mut s[c];
            *x = (x.0 + h.wins as u128, x.1 + h.ties as u128, x.2 + h.total as u128, x.3 + h.corrected_ties, x.4 + h.weight as u64, k);
            let t = h.total as f64;
            for (got, want, what) in [(h.winrate, h.wins as f64 / t, "win rate"), (h.tierate, h.ties as f64 / t, "tie rate"), (h.equity, (h.wins as f64 + h.corrected_ties) / t, "equity")] {
                if !close(got, want) { return Err(format!("player {p} {}: {what} {got}, counts give {want}", hname(i))) }
            }
        }
        for c in 0..169 {
            let g = &r.combo_results[169 * p + c];
            let x = s[c];
            let name = &classes[c];
            if x.2 == 0 {
                if g.wins != 0 || g.ties != 0 || g.total != 0 || g.weight != 0 || g.valid || g.equity != 0.0 || g.corrected_ties != 0.0 { return Err(format!("player {p} class {name} was never dealt: {g:?}")) }
                continue;
            }
            let y = scaled((x.0, x.1, x.2, x.3));
            let x = (y.0, y.1, y.2, y.3, x.4, x.5);
            if (g.wins as u128, g.ties as u128, g.total as u128) != (x.0, x.1, x.2) { return Err(format!("player {p} class {name}: {} {} {}, hands add to {} {} {}", g.wins, g.ties, g.total, x.0, x.1, x.2)) }
            let t = x.2 as f64;
            for (got, want, what) in [(g.corrected_ties, x.3, "tie share"), (g.winrate, x.0 as f64 / t, "win rate"), (g.tierate, x.1 as f64 / t, "tie rate"), (g.equity, (x.0 as f64 + x.3) / t, "equity")] {
                if !close(got, want) { return Err(format!("player {p} class {name}: {what} {got}, hands give {want}")) }
            }
            if g.weight as u64 != x.4 / x.5 as u64 { return Err(format!("player {p} class {name}: weight {}, average {}", g.weight, x.4 / x.5 as u64)) }
            if !g.valid { return Err(format!("player {p} class {name} is not marked valid")) }
            if let Ok(y) = r.get_combo_result(p, name.clone()) { if y.total != g.total || y.wins != g.wins { return Err(format!("class {name} looked up differs")) } } else { return Err(format!("class {name} is not found")) }
        }
    }
    Ok(true)
}
fn gen_classes(r: &mut Rng) -> Req {
    loop {
        let mut used = 0u64;
        let s = suits(r);
        let nb = *r.pick(&[3usize, 4, 5, 5]);
        let board = cards_mask(&(0..nb).map(|_| card(r, &mut used, &s)).collect::<Vec<_>>());
        let dead = cards_mask(&(0..r.below(20)).map(|_| card(r, &mut used, &[])).collect::<Vec<_>>());
        let n = r.range(2, 4) as usize;
        let ranges: Vec<String> = (0..n).map(|_| {
            let k = r.range(1, 3);
            (0..k).map(|_| {
                let (a, b) = (*r.pick(&RANKS), *r.pick(&RANKS));
                let w = match r.below(4) { 0 => format!("@{}", r.range(1, 100)), _ => String::new() };
                format!("{a}{b}{}{w}", if a == b { "" } else { *r.pick(&["", "s", "o"]) })
            }).collect::<Vec<_>>().join(",")
        }).collect();
        let mut q = Req { exact: true, threads: 2, target: 0.05, cancel: false, board, dead, ranges };
        let c = cost(&q);
        if c == 0 || c > 600_000 || free_ranges(&q).iter().any(|x| x.is_empty()) { continue }
        if n > 2 && brute(&q).deals == 0 { continue }
        if n == 2 && !free_ranges(&q)[0].iter().any(|a| free_ranges(&q)[1].iter().any(|b| (1u64 << a.0 | 1u64 << a.1) & (1u64 << b.0 | 1u64 << b.1) == 0)) { continue }
        if r.chance(1, 5) { q.exact = false }
        return q;
    }
}
fn run_c17(ctx: &Ctx) {
    let mut fixed = all_players();
    fixed.extend(heavy_classes());
    fixed.push("exact t=4 b=2s3h4c9dTc d= r='random'|'random'".into());
    fixed.push("approx:0.01 t=4 b= d= r='random'|'random'".into());
    ctx.cases(&fixed, u64::MAX / 2, |r| { if r.chance(1, 2) { gen_classes(r).text() } else { any_run(r, &Opt { max_cost: 200_000, players: (2, 9), weights: 1, hands: 8 }).text() } }, check_c17);
}

// ------------------------------------------------------------------ C18
fn check_c18(case: &str) -> Result<bool, String> {
    let q = Req::parse(case);
    let Some(r) = run_ok(&q)? else { return Ok(false) };
    let n = r.wins.len();
    let nb = q.board.count_ones();
    if r.board_results.len() != 9 * n || r.board_draws.len() != 10 * n { return Err("number of board records".into()) }
    let zero = |g: &UnitResults| g.wins == 0 && g.ties == 0 && g.total == 0 && g.weight == 0 && g.equity == 0.0 && g.corrected_ties == 0.0;
    if nb < 3 {
        if r.board_results.iter().chain(&r.board_draws).any(|g| !zero(g)) { return Err("board records without a board of three cards".into()) }
        return Ok(false);
    }
    let hands = all_hands();
    let free = free_ranges(&q);
    for p in 0..n {
        let mut cat = vec![(0u128, 0u128, 0u128, 0f64, 0u64); 9];
        let mut drw = vec![(0u128, 0u128, 0u128, 0f64, 0u64); 10];
        let mine: std::collections::HashSet<usize> = free[p].iter().map(|h| hand_index(h.0, h.1)).collect();
        for i in 0..1326 {
            if !mine.contains(&i) { continue }
            let h = &r.hand_results[1326 * p + i];
            let (a, b) = hands[i];
            let k = (fast_mask(q.board | 1 << a | 1 << b) >> 20) as u8 - 1;
            if h.rank != k { return Err(format!("player {p} {} is labelled category {}, it is {k}", hname(i), h.rank)) }
            let mut want = 0u8;
            if nb < 5 {
                want = get_draw(Hand::from_hole_cards(a, b), Hand::from_bit_mask(q.board), k);
                let (f, _) = crate::p_eval::draw_spec(&[a, b], &mask_cards(q.board), k);
                if h.draw & 0b1110_0000 != f { return Err(format!("player {p} {}: flush-draw flags {:#010b}, expected {f:#010b}", hname(i), h.draw)) }
            }
            if h.draw != want { return Err(format!("player {p} {}: draw flags {:#010b}, its draw analysis gives {want:#010b}", hname(i), h.draw)) }
            let add = |x: &mut (u128, u128, u128, f64, u64)| { *x = (x.0 + h.wins as u128, x.1 + h.ties as u128, x.2 + h.total as u128, x.3 + h.corrected_ties, x.4 + h.weight as u64) };
            add(&mut cat[k as usize]);
            for j in 0..7 { if h.draw >> j & 1 == 1 { add(&mut drw[j]) } }
            if h.draw & 128 != 0 { add(&mut drw[if h.draw & 32 != 0 { 8 } else if h.draw & 64 != 0 { 7 } else { 9 }]) }
        }
        for (what, got, want) in [("category", &r.board_results[9 * p..9 * p + 9], &cat), ("draw", &r.board_draws[10 * p..10 * p + 10], &drw)] {
            for (j, (g, x)) in got.iter().zip(want.iter()).enumerate() {
                if x.2 == 0 { if !zero(g) { return Err(format!("player {p} {what} {j}: {g:?}, no such hand was dealt")) } continue }
                let y = scaled((x.0, x.1, x.2, x.3));
                let x = (y.0, y.1, y.2, y.3, x.4);
                if (g.wins as u128, g.ties as u128, g.total as u128, g.weight as u64) != (x.0, x.1, x.2, x.4) { return Err(format!("player {p} {what} {j}: wins {} ties {} total {} weight {}, hands add to {} {} {} {}", g.wins, g.ties, g.total, g.weight, x.0, x.1, x.2, x.4)) }
                let t = x.2 as f64;
                for (got, want, f) in [(g.corrected_ties, x.3, "tie share"), (g.winrate, x.0 as f64 / t, "win rate"), (g.tierate, x.3 / t, "tie rate"), (g.equity, (x.0 as f64 + x.3) / t, "equity")] {
                    if !close(got, want) { return Err(format!("player {p} {what} {j}: {f} {got}, hands give {want}")) }
                }
            }
        }
    }
    Ok(true)
}
fn run_c18(ctx: &Ctx) {
    let mut fixed = all_players();
    fixed.extend(heavy_classes());
    for s in ["exact t=2 b=2s7s9s d= r='random'|'QsTd'", "exact t=2 b=2s7s9h d= r='random'|'QdTd'", "exact t=2 b=2s7s9h3s d= r='random'|'AA'", "exact t=2 b=2s3h4c9dTc d= r='random'|'random'", "exact t=2 b=8s7s9s6c d= r='random'|'ss'|'TT'", "approx:0.05 t=1 b=8s7s9s d= r='random'|'random'", "exact t=2 b=8s8h d=AsAhAcAdKsKhKcKdQsQhQcQdJsJhJcJd r='99'|'TT'"] { if !s.contains("'ss'") { fixed.push(s.into()) } }
    ctx.cases(&fixed, u64::MAX / 2, |r| { if r.chance(2, 3) { gen_classes(r).text() } else { any_run(r, &Opt { max_cost: 200_000, players: (2, 9), weights: 1, hands: 8 }).text() } }, check_c18);
}

// ------------------------------------------------------------------ C19
fn check_c19(case: &str) -> Result<bool, String> {
    let q = Req::parse(case);
    let Some(r) = run_ok(&q)? else { return Ok(false) };
    let free = free_ranges(&q);
    let mut nt = false;
    for (p, f) in free.iter().enumerate() {
        let w: HashMap<usize, u8> = f.iter().map(|h| (hand_index(h.0, h.1), h.2)).collect();
        nt |= w.values().any(|x| *x != 100);
        for i in 0..1326 {
            let h = &r.hand_results[1326 * p + i];
            match w.get(&i) {
                Some(x) => {
                    if !h.valid { return Err(format!("player {p} {} is in the range but not valid", hname(i))) }
                    if h.weight != *x as u32 { return Err(format!("player {p} {}: weight {}, in the range {x}", hname(i), h.weight)) }
                }
                None => {
                    if h.valid || h.weight != 0 || h.total != 0 || h.wins != 0 || h.ties != 0 { return Err(format!("player {p} {} is not in the range: {h:?}", hname(i))) }
                }
            }
        }
    }
    Ok(nt)
}
fn run_c19(ctx: &Ctx) {
    let mut fixed = all_players();
    for s in ["exact t=1 b=2s3h4c9dTc d= r='AA@50,KK'|'QQ'", "exact t=1 b=2s3h4c9dTc d= r='QQ'|'AA,KK@50'", "exact t=1 b=2s3h4c9dTc d= r='QQ'|'JJ'", "exact t=1 b=2s3h4c9dTc d= r='QQ@1'|'JJ@1'", "exact t=1 b=2s3h4c9dTc d=QsQh r='QQ@20,KK'|'JJ@30'|'AA'", "approx:0.5 t=1 b=2s3h4c9dTc d=QsQh r='QQ@20,KK'|'JJ@30'|'AA'"] { fixed.push(s.into()) }
    ctx.cases(&fixed, u64::MAX / 2, |r| { if r.chance(1, 2) { gen_classes(r).text() } else { any_run(r, &Opt { max_cost: 50_000, players: (2, 9), weights: 1, hands: 8 }).text() } }, check_c19);
}

// ------------------------------------------------------------------ C20
fn check_c20(case: &str) -> Result<bool, String> {
    let q = Req::parse(case);
    let n = q.ranges.len();
    let want = if n < 2 { "TooFewPlayers" } else if n > 9 { "TooManyPlayers" }
    else if q.board.count_ones() > 5 { "TooManyBoardCards" }
    else if 2 * n as u32 + q.dead.count_ones() + 5 > 52 { "TooManyDeadCards" }
    else {
        let f = free_ranges(&q);
        fn fits(i: usize, used: u64, f: &[Vec<(u8, u8, u8)>]) -> bool {
            i == f.len() || f[i].iter().any(|h| { let m = 1u64 << h.0 | 1u64 << h.1; used & m == 0 && fits(i + 1, used | m, f) })
        }
        if fits(0, 0, &f) { "ok" } else { "ConflictingRanges" }
    };
    let (o, seen) = q.run();
    let got = match &o { Ok(_) => "ok".to_string(), Err(e) => format!("{e:?}") };
    if got != want { return Err(format!("{got}, expected {want}")) }
    if o.is_err() && !seen.is_empty() { return Err("progress reported by a refused calculation".into()) }
    if let Ok(r) = &o { if r.eval_count == 0 { return Err("accepted, but nothing was evaluated".into()) } if r.wins.len() != n { return Err("accepted, but with another number of players".into()) } }
    Ok(want != "ok")
}
fn run_c20(ctx: &Ctx) {
    let mut v = vec![];
    for m in ["exact", "approx:0.5"] {
        for n in 0..12usize {
            let rs = (0..n).map(|i| format!("'{}s{}h'", RANKS[i % 13], RANKS[i % 13])).collect::<Vec<_>>().join("|");
            v.push(format!("{m} t=1 b=AcKcQcJcTc d= r={rs}"));
            v.push(format!("{m} t=1 b=AcKcQcJcTc9c d= r={rs}"));
            v.push(format!("{m} t=1 b=AcKcQcJc d=9c r={rs}"));
        }
        // dead cards at and beyond the limit
        for n in 2..=9usize {
            let rs = (0..n).map(|i| format!("'{}s{}h'", RANKS[i], RANKS[i])).collect::<Vec<_>>().join("|");
            let mut free: Vec<u8> = (0..52u8).filter(|c| !(c % 4 < 2 && (*c as usize) / 4 < n)).collect();
            let board: Vec<u8> = free.split_off(free.len() - 5);
            let lim = 52 - 5 - 2 * n;
            for k in [lim - 1, lim, lim + 1, lim + 3] {
                let d: Vec<u8> = if k <= free.len() { free[..k].to_vec() } else { (0..k as u8).collect() };
                v.push(format!("{m} t=1 b={} d={} r={rs}", names(&board), names(&d)));
            }
        }
        for r in ["'AA'|''", "''|'AA'", "'AsAh'|'AsAc'", "'AsAh,AsAc'|'AsAd,AhAc'", "'AA'|'AA'|'AA'", "'AA'|'AA'", "'AsKs'|'AsKs'", "'AsKs'|'KsQs'|'QsAs'", "'22'|'33'|''", "'AA'|'KK'"] {
            v.push(format!("{m} t=1 b=2s3h4c9dTc d= r={r}"));
            v.push(format!("{m} t=1 b=2s3h4c9dTc d=AsAhAcAd r={r}"));
            v.push(format!("{m} t=1 b=AsAh4c9dTc d= r={r}"));
            v.push(format!("{m} t=2 b=AsAh4c9d d=AcAd r={r}"));
        }
    }
    ctx.cases(&v, 2000, |r| {
        let o = Opt { max_cost: 50_000, players: (2, 9), weights: 1, hands: 3 };
        let mut q = gen_req(r, &o);
        q.exact = r.chance(1, 2);
        q.target = 0.5;
        q.threads = 1;
        match r.below(5) {
            0 => { let x = r.pick(&q.ranges).clone(); let i = r.below(q.ranges.len() as u64) as usize; q.ranges[i] = x }
            1 => { let mut u = q.board | q.dead; let k = r.range(1, 3); for _ in 0..k { if u.count_ones() < 52 { q.board |= 1 << card(r, &mut u, &[]) } } }
            2 => { for x in &mut q.ranges { if r.chance(1, 2) { *x = x.split(',').next().unwrap().to_string() } } if r.chance(1, 2) { let x = q.ranges[0].clone(); q.ranges.push(x) } }
            _ => {}
        }
        if q.board.count_ones() > 5 { q.board |= 0x1f }
        q.text()
    }, check_c20);
}

// ------------------------------------------------------------------ C21
// case: request ~ player ~ factor (multiply that player's weights), or ~ u (all weights the same)
fn check_c21(case: &str) -> Result<bool, String> {
    let p: Vec<&str> = case.split(" ~ ").collect();
    let q = Req::parse(p[0]);
    let Some(a) = run_ok(&q)? else { return Ok(false) };
    if p[1] == "u" {
        // uniform ranges: every deal counts once
        let b = brute(&q);
        let t: u128 = a.wins_by_mask.iter().map(|x| *x as u128).sum();
        if t != b.deals as u128 { return Err(format!("{} deals count as {t}", b.deals)) }
        compare(&q, &a, &b)?;
        return Ok(true);
    }
    let (i, k): (usize, u8) = (p[1].parse().unwrap(), p[2].parse().unwrap());
    let mut s = q.clone();
    s.ranges[i] = range_text(&q.ref_ranges()[i].iter().map(|h| (h.0, h.1, h.2 * k)).collect::<Vec<_>>());
    let Some(b) = run_ok(&s)? else { return Err("refused only when scaled".into()) };
    if ints(&a) != ints(&b) { return Err(format!("counts change when player {i}'s weights are multiplied by {k}")) }
    for j in 0..a.equities.len() { if !close(a.equities[j], b.equities[j]) || !close(a.ties[j], b.ties[j]) { return Err(format!("equity of player {j} changes from {} to {}", a.equities[j], b.equities[j])) } }
    for (x, y) in a.hand_results.iter().zip(&b.hand_results) { if !close(x.corrected_ties, y.corrected_ties) { return Err("tie shares change".into()) } }
    Ok(true)
}
fn run_c21(ctx: &Ctx) {
    let mut fixed: Vec<String> = vec![];
    for n in 2..=9usize {
        for w in [1, 7, 50, 97, 100] {
            let rs = (0..n).map(|i| format!("'{0}s{0}h@{w},{0}c{0}d@{w}'", RANKS[i])).collect::<Vec<_>>().join("|");
            fixed.push(format!("exact t=2 b=AcKcQcJh d= r={rs} ~ u"));
            let rs = (0..n).map(|i| format!("'{0}s{0}h@{w}'", RANKS[i])).collect::<Vec<_>>().join("|");
            fixed.push(format!("exact t=2 b=AcKc d= r={rs} ~ u"));
        }
    }
    fixed.push("exact t=8 b= d= r='AsAh'|'KsKh' ~ u".into());
    fixed.push("exact t=8 b= d=AdKcKd r='2s2h'|'3s3h'|'4s4h'|'5s5h'|'6s6h'|'7s7h'|'8s8h'|'9s9h'|'TsTh' ~ u".into());
    ctx.cases(&fixed, u64::MAX / 2, |r| {
        let mut q = gen_req(r, &Opt { max_cost: 150_000, players: (2, 9), weights: 0, hands: 6 });
        let free = q.ref_ranges();
        let n = q.ranges.len();
        if r.chance(1, 3) {
            let w: Vec<u8> = (0..n).map(|_| r.range(1, 100) as u8).collect();
            q.ranges = free.iter().zip(&w).map(|(f, w)| range_text(&f.iter().map(|h| (h.0, h.1, *w)).collect::<Vec<_>>())).collect();
            return format!("{} ~ u", q.text());
        }
        let i = r.below(n as u64) as usize;
        let k = r.range(2, 20) as u8;
        q.ranges = free.iter().enumerate().map(|(j, f)| range_text(&f.iter().map(|h| (h.0, h.1, if j == i { r.range(1, 100 / k as u64) as u8 } else if j == (i + 1) % n { r.range(1, 9) as u8 } else { 100 })).collect::<Vec<_>>())).collect();
        format!("{} ~ {i} ~ {k}", q.text())
    }, check_c21);
}

// ------------------------------------------------------------------ C23
fn check_c23(case: &str) -> Result<bool, String> {
    let q = Req::parse(case);
    let (o, seen) = q.run();
    match o { Ok(_) => (), Err(SimulatorError::ConflictingRanges) if !feasible(&q) => return Ok(false), Err(e) => return Err(format!("refused: {e:?}")) }
    if let Some(x) = seen.iter().find(|x| **x > 100) { return Err(format!("progress {x}%")) }
    if q.exact && q.threads == 1 {
        if let Some(w) = seen.windows(2).find(|w| w[0] > w[1]) { return Err(format!("progress falls from {} to {}", w[0], w[1])) }
        if !q.cancel && seen.last() != Some(&100) { return Err(format!("the last progress is {:?}", seen.last())) }
    }
    Ok(seen.len() > 1)
}
/// an exact request whose last batch is one joint holding that cannot be dealt: two copies of one
/// range, so long that they are not joined
fn last_batch_empty(r: &mut Rng) -> Option<String> {
    let dead = r.range(22, 30) as usize;
    let c = 48 - dead as u64;
    let batch = 2_000_000 / (c * (c - 1) * (c - 2) * (c - 3) * (c - 4) / 120);
    let mut deck: Vec<u8> = (0..52).collect();
    for i in 0..51 { let j = r.range(i, 51) as usize; deck.swap(i as usize, j) }
    let live = &deck[dead..];
    let mut hands: Vec<(u8, u8, u8)> = vec![];
    for i in 0..live.len() { for j in i + 1..live.len() { hands.push((live[i].max(live[j]), live[i].min(live[j]), 100)) } }
    let fit: Vec<usize> = (101..=hands.len()).filter(|n| (*n as u64 * *n as u64) % batch == 1).collect();
    if fit.is_empty() { return None }
    hands.truncate(*r.pick(&fit));
    let text = range_text(&hands);
    let dead = deck[..dead].iter().fold(0u64, |m, x| m | 1 << x);
    Some(Req { exact: true, threads: 1, target: 0.0, cancel: false, board: 0, dead, ranges: vec![text.clone(), text] }.text())
}
fn run_c23(ctx: &Ctx) {
    let fixed: Vec<String> = ["approx:0.5 t=1 b= d= r='random'|'random'", "approx:0.02 t=4 b= d= r='random'|'random'", "approx:0.001 t=8 b= d= r='random'|'random'", "exact t=1 b=2s3h4c d= r='22+,AT+'|'KT+,AK@50'", "approx:0.001 t=2 b=AsKsQsJsTs d= r='22'|'33'", "approx:100 t=2 b=AsKsQsJsTs d= r='22'|'33'", "exact! t=1 b= d= r='AA'|'KK'"].iter().map(|s| s.to_string()).collect();
    ctx.cases(&fixed, u64::MAX / 2, |r| {
        if r.chance(1, 6) { if let Some(c) = last_batch_empty(r) { return c } }
        let mut q = if r.chance(1, 3) { gen_big(r, 1_500_000) } else { any_run(r, &Opt { max_cost: 600_000, players: (2, 6), weights: 1, hands: 8 }) };
        if r.chance(1, 2) { q.threads = 1; q.exact = true }
        if !q.exact { q.target = *r.pick(&[10.0, 0.5, 0.05, 0.01, 0.003, 0.001]) }
        q.text()
    }, check_c23);
}

// ------------------------------------------------------------------ C24
fn check_c24(case: &str) -> Result<bool, String> {
    let q = Req::parse(case);
    let Some(r) = run_ok(&q)? else { return Ok(false) };
    if r.batch_count < 16.0 { return Err(format!("stopped after {} batches", r.batch_count)) }
    if q.threads == 1 {
        if !(r.stdev < q.target) { return Err(format!("stopped at a deviation of {}, target {}", r.stdev, q.target)) }
        if r.eval_count as f64 != 4096.0 * r.batch_count { return Err(format!("{} deals in {} batches", r.eval_count, r.batch_count)) }
        // the reported deviation is that of the batch equities
        let v = (1e-9 + r.batch_sum2 - r.batch_sum * r.batch_sum / r.batch_count).sqrt() / r.batch_count;
        if !close(v, r.stdev) { return Err(format!("deviation {}, batches give {v}", r.stdev)) }
        let e = r.batch_sum / r.batch_count;
        if e < -1e-9 || e > 1.0 + 1e-9 { return Err(format!("mean batch equity {e}")) }
    }
    let w: u64 = r.wins_by_mask.iter().sum();
    let red: Vec<Vec<(u8, u8, u64)>> = free_ranges(&q).iter().map(|x| reduced(x)).collect();
    if red.iter().all(|x| x.iter().all(|h| h.2 == 1)) {
        if w != r.eval_count { return Err(format!("{} deals evaluated, {w} counted", r.eval_count)) }
        // equal batches of weight one: the first player's equity is the mean over batches
        if q.threads == 1 && (r.batch_sum / r.batch_count - r.equities[0]).abs() > 1e-6 { return Err(format!("equity {} of player 0, mean over the batches {}", r.equities[0], r.batch_sum / r.batch_count)) }
    }
    Ok(true)
}
fn run_c24(ctx: &Ctx) {
    let fixed: Vec<String> = ["approx:0.02 t=1 b= d= r='random'|'random'", "approx:0.001 t=1 b= d= r='AA'|'random'", "approx:0.0005 t=1 b= d= r='22'|'AKs'|'JTs'", "approx:0.5 t=1 b=AsKsQsJsTs d= r='22'|'33'", "approx:0.01 t=4 b= d= r='random'|'random'|'random'"].iter().map(|s| s.to_string()).collect();
    ctx.cases(&fixed, u64::MAX / 2, |r| {
        let mut q = gen_req(r, &Opt { max_cost: 1_000_000_000, players: (2, 6), weights: 2, hands: 6 });
        q.exact = false;
        q.threads = *r.pick(&[1u8, 1, 1, 2, 8]);
        q.target = *r.pick(&[0.5, 0.02, 0.005, 0.002, 0.001, 0.0007]);
        q.text()
    }, check_c24);
}

// ------------------------------------------------------------------ C26
/// "WHEN ~ REQUEST": the token is set before the run (pre), when the callback is called for the
/// k-th time (call:k) or after k milliseconds (ms:k)
fn check_c26(case: &str) -> Result<bool, String> {
    use std::sync::{atomic::{AtomicBool, AtomicU64, Ordering::SeqCst}, mpsc, Arc};
    use std::time::{Duration, Instant};
    let (when, req) = case.split_once(" ~ ").unwrap();
    let q = Req::parse(req);
    let token = Arc::new(AtomicBool::new(when == "pre"));
    let arg: u64 = when.split_once(':').map_or(0, |x| x.1.parse().unwrap());
    let calls = Arc::new(AtomicU64::new(0));
    let (tx, rx) = mpsc::channel();
    {
        let (q, token, calls, on_call) = (q.clone(), token.clone(), calls.clone(), when.starts_with("call"));
        std::thread::spawn(move || {
            let flag = token.clone();
            let cb = |_: u8| if calls.fetch_add(1, SeqCst) + 1 >= arg && on_call { flag.store(true, SeqCst) };
            let r = q.hand_ranges();
            let o = if q.exact { exact_equity(&r, q.board, q.dead, q.threads, token.clone(), cb) } else { approx_equity(&r, q.board, q.dead, q.threads, q.target, token.clone(), cb) };
            let _ = tx.send(o);
        });
    }
    let start = Instant::now();
    let mut set = if when == "pre" { Some(start) } else { None };
    loop {
        match rx.recv_timeout(Duration::from_millis(5)) {
            Ok(o) => {
                if when == "pre" {
                    if let Ok(r) = &o {
                        let most = u64::from(q.threads) * if q.exact { 5_000_000 } else { 4096 };
                        if r.eval_count > most { return Err(format!("cancelled before the start, {} evaluations by {} threads", r.eval_count, q.threads)) }
                    }
                }
                return Ok(o.is_ok() && token.load(SeqCst));
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => return Err("the calculation panicked".into()),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if when.starts_with("ms") && start.elapsed() >= Duration::from_millis(arg) { token.store(true, SeqCst) }
                if set.is_none() && token.load(SeqCst) { set = Some(Instant::now()) }
                // far more than the work between two readings of the token takes
                if set.map_or(false, |t| t.elapsed() > Duration::from_secs(45)) { return Err("still running 45 s after it was cancelled".into()) }
                // the callback was never called (often enough)
                if start.elapsed() > Duration::from_secs(20) { token.store(true, SeqCst) }
            }
        }
    }
}
fn run_c26(ctx: &Ctx) {
    // nine ranges over sixteen cards: no deal at all, and no end in sight
    let few = (0..9).map(|_| "'22-55'".replace("22-55", "22-55,54,53,52,43,42,32")).collect::<Vec<_>>().join("|");
    let mut fixed: Vec<String> = vec![];
    for w in ["pre", "ms:30"] { for t in [1, 3] { fixed.push(format!("{w} ~ exact t={t} b= d= r={few}")) } }
    for t in [1, 2, 8] {
        for w in ["pre", "call:1", "call:5", "ms:20"] {
            fixed.push(format!("{w} ~ exact t={t} b= d= r='random'|'random'|'random'"));
            fixed.push(format!("{w} ~ exact t={t} b=AsKd2c d= r='random'|'22+,A2+'|'random'|'K2+'"));
            fixed.push(format!("{w} ~ approx:0 t={t} b= d= r='random'|'random'"));
            fixed.push(format!("{w} ~ approx:0 t={t} b=AsKd2c9h d= r='QQ'|'22+'|'K2+'"));
        }
    }
    ctx.cases(&fixed, u64::MAX / 2, |r| {
        let n = r.range(2, 6) as usize;
        let exact = r.chance(1, 2);
        let pool = ["random", "22+,A2+", "K2+,Q2+", "T9s,98s,87s,76s,65s,54s,AA", "QQ+,AK@30", "22+@50,AK"];
        let rs = (0..n).map(|i| format!("'{}'", if exact && i < 3 { "random" } else { *r.pick(&pool) })).collect::<Vec<_>>().join("|");
        let b = *r.pick(&["", "", "2s3h4c", "AsKd2c", "AsKd2c9h", "AsKd2c9h9d"]);
        let w = match r.below(3) { 0 => "pre".to_string(), 1 => format!("call:{}", r.range(1, 30)), _ => format!("ms:{}", r.range(1, 60)) };
        format!("{w} ~ {} t={} b={b} d= r={rs}", if exact { "exact" } else { "approx:0" }, r.pick(&[1, 2, 4, 8]))
    }, check_c26);
}
