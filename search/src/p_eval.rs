//! C01-C06, C22: hand values, scores, indexes, names, division, flush draws
use crate::ctx::*;
use crate::orc::*;
use crate::Prop;
use pokers::fastdivide::DividerU64;
use pokers::{get_card_index, get_draw, Hand, CARDS, COMBO_TO_INDEX, HAND_TO_INDEX, INDEX_TO_COMBO, INDEX_TO_HAND};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "every hand of 5, 6 and 7 cards, every smaller one, and every rank multiset; two hands are compared through the strength of each; all are non-trivial", run: run_c01, check: check_c01 },
        Prop { id: "C02", rule: "every hand of 2 to 7 cards with its category, both evaluations", run: run_c02, check: check_c02 },
        Prop { id: "C03", rule: "sets of at most 7 cards and a random tree of additions of them; non-trivial from 2 cards on", run: run_c03, check: check_c03 },
        Prop { id: "C04", rule: "all 2652 ordered pairs of distinct cards", run: run_c04, check: check_c04 },
        Prop { id: "C05", rule: "all hand and class names for 2 to 9 players, and texts that are not names", run: run_c05, check: check_c05 },
        Prop { id: "C06", rule: "divisors of every bit length, near powers of two and small ones, with dividends at multiples of the divisor and one off; non-trivial when the divisor is above 1", run: run_c06, check: check_c06 },
        Prop { id: "C22", rule: "hole cards and boards of 3 or 4 cards, half of them drawn from one or two suits; non-trivial when some suit holds three or more cards", run: run_c22, check: check_c22 },
    ]
}

pub fn parse_cards(s: &str) -> Vec<u8> {
    let c: Vec<char> = s.chars().collect();
    c.chunks(2).map(|p| (4 * RANKS.iter().position(|r| *r == p[0]).unwrap() + SUITS.iter().position(|s| *s == p[1]).unwrap()) as u8).collect()
}
fn hand(cs: &[u8]) -> Hand { cs.iter().fold(Hand::default(), |h, c| h + CARDS[*c as usize]) }

// ---------------------------------------------------------------- C01 / C02
fn check_c01(case: &str) -> Result<bool, String> {
    let (a, b) = case.split_once(' ').unwrap();
    let (a, b) = (parse_cards(a), parse_cards(b));
    let (sa, sb) = (hand(&a).evaluate(), hand(&b).evaluate());
    let (ra, rb) = (strength(&a), strength(&b));
    if sa.cmp(&sb) != ra.cmp(&rb) {
        return Err(format!("scores {sa} and {sb}, but the poker order is {:?} ({ra:#x}, {rb:#x})", ra.cmp(&rb)));
    }
    Ok(true)
}
fn check_c02(case: &str) -> Result<bool, String> {
    let a = parse_cards(case);
    let h = hand(&a);
    let s = h.evaluate();
    let st = strength(&a);
    if (s / 4096) as u32 != st >> 20 { return Err(format!("score {s} has category {}, the hand is of category {}", s / 4096, st >> 20)) }
    let mut cnt = [0u8; 13];
    for c in &a { cnt[(c / 4) as usize] += 1 }
    // the same ranks in suits that make no flush
    let n = no_flush(&cnt);
    let e = hand(&n).evaluate();
    let w = h.evaluate_without_flush();
    if w != e { return Err(format!("evaluated without flush: {w}; the same ranks without a flush ({}) score {e}", names(&n))) }
    Ok(true)
}
/// cards with these rank counts and no five of one suit
fn no_flush(cnt: &[u8; 13]) -> Vec<u8> {
    let mut v = vec![];
    let mut s = 0;
    for r in 0..13 { for _ in 0..cnt[r] { v.push((4 * r + s % 4) as u8); s += 1 } }
    v
}
fn rank_vectors(f: &mut dyn FnMut(&[u8; 13], u8)) {
    fn rec(r: usize, n: u8, c: &mut [u8; 13], f: &mut dyn FnMut(&[u8; 13], u8)) {
        if r == 13 { if n >= 2 { f(c, n) } return }
        for k in 0..=4.min(7 - n) { c[r] = k; rec(r + 1, n + k, c, f) }
        c[r] = 0;
    }
    rec(0, 0, &mut [0; 13], f)
}
struct Table { score: Vec<u16>, who: Vec<u64> }
fn base(ctx: &Ctx) -> Option<Table> {
    let mut t = Table { score: vec![0; 10 << 20], who: vec![0; 10 << 20] };
    let mut clash = None;
    let mut add = |cs: &[u8]| {
        let st = strength(cs) as usize;
        let e = hand(cs).evaluate();
        if t.who[st] == 0 { t.score[st] = e; t.who[st] = cards_mask(cs) }
        else if t.score[st] != e && clash.is_none() { clash = Some((names(cs), names(&mask_cards(t.who[st])))) }
        ctx.evals.fetch_add(1, SeqCst);
        ctx.distinct.fetch_add(1, SeqCst);
    };
    rank_vectors(&mut |c, _| add(&no_flush(c)));
    for m in 0..8192u32 {
        if (5..=7).contains(&m.count_ones()) {
            let cs: Vec<u8> = (0..13u8).filter(|r| m >> r & 1 == 1).map(|r| 4 * r).collect();
            add(&cs)
        }
    }
    if let Some((a, b)) = clash { ctx.fail(format!("{a} {b}"), "equal hands, different scores".into()); return None }
    let mut last: Option<usize> = None;
    for st in 0..t.who.len() {
        if t.who[st] == 0 { continue }
        if let Some(l) = last {
            if t.score[l] >= t.score[st] {
                ctx.fail(format!("{} {}", names(&mask_cards(t.who[l])), names(&mask_cards(t.who[st]))), "order of scores".into());
                return None;
            }
        }
        last = Some(st);
    }
    Some(t)
}
/// visit every k-card set (k = 2..7), sharing the partial sums
fn every_hand(ctx: &Ctx, k: usize, f: &(dyn Fn(&Hand, u64) -> bool + Sync)) {
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for th in 0..ctx.threads {
            let next = &next;
            sc.spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                // the two highest cards
                let mut hi = 51u64;
                let mut x = i;
                loop { if hi == 0 { return } if x < hi { break } x -= hi; hi -= 1 }
                if ctx.stop.load(SeqCst) || !ctx.time_left() { return }
                let lo = x;
                let m = 1u64 << hi | 1u64 << lo;
                let h = Hand::default() + CARDS[hi as usize] + CARDS[lo as usize];
                let mut n = 0u64;
                ctx.block(th, &names(&mask_cards(m)), || rec(k - 2, lo as usize, h, m, f, &mut n));
                ctx.evals.fetch_add(n, SeqCst);
                ctx.distinct.fetch_add(n, SeqCst);
                if i % 331 == 7 { ctx.sample(&format!("all hands of {k} cards whose two highest are {}", names(&mask_cards(m)))) }
            });
        }
    });
    fn rec(left: usize, below: usize, h: Hand, m: u64, f: &(dyn Fn(&Hand, u64) -> bool + Sync), n: &mut u64) -> bool {
        if left == 0 { *n += 1; return f(&h, m) }
        for c in (left - 1..below).rev() { if !rec(left - 1, c, h + CARDS[c], m | 1 << c, f, n) { return false } }
        true
    }
}
fn run_c01(ctx: &Ctx) {
    let t = match ctx.block(0, "2s2h 2s2h", || base(ctx)) { Some(Some(t)) => t, _ => return };
    for k in [7usize, 2, 3, 4, 5, 6] {
        every_hand(ctx, k, &|h, m| {
            let st = fast_mask(m) as usize;
            let e = h.evaluate();
            if e != t.score[st] {
                let b = names(&mask_cards(t.who[st]));
                let a = names(&mask_cards(m));
                // some pair with this hand must be ordered wrongly
                let case = wrong_pair(&a, &b);
                ctx.fail(case, "score of an equal hand differs".into());
                return false;
            }
            true
        });
        if !ctx.time_left() { break }
        ctx.note(format!("all hands of {k} cards evaluated"));
    }
}
fn wrong_pair(a: &str, b: &str) -> String { format!("{a} {b}") }
fn run_c02(ctx: &Ctx) {
    // category of every rank multiset and flush, by themselves
    let mut bad = None;
    ctx.block(0, "2s2h", || rank_vectors(&mut |c, _| {
        let cs = no_flush(c);
        ctx.evals.fetch_add(1, SeqCst);
        ctx.distinct.fetch_add(1, SeqCst);
        if bad.is_none() { if let Err(w) = check_c02(&names(&cs)) { bad = Some((names(&cs), w)) } }
    }));
    if let Some((c, w)) = bad { ctx.fail(c, w); return }
    // score of a rank multiset without flush, by its strength
    let mut plain = vec![0u16; 10 << 20];
    ctx.block(0, "2s2h", || rank_vectors(&mut |c, _| { plain[strength_counts(c, 0) as usize] = hand(&no_flush(c)).evaluate() }));
    if ctx.stop.load(SeqCst) { return }
    for k in [7usize, 2, 3, 4, 5, 6] {
        every_hand(ctx, k, &|h, m| {
            let s = suit_masks(m);
            let st = fast(s);
            let e = h.evaluate();
            let w = h.evaluate_without_flush();
            let bad = if (e >> 12) as u32 != st >> 20 { true }
            else if s.iter().all(|x| x.count_ones() < 5) { w != e }
            else {
                let mut cnt = [0u8; 13];
                for x in s { for r in 0..13 { cnt[r] += (x >> r & 1) as u8 } }
                w != plain[strength_counts(&cnt, 0) as usize]
            };
            if bad { ctx.fail(names(&mask_cards(m)), "category or flush-free score".into()); return false }
            true
        });
        if !ctx.time_left() { break }
        ctx.note(format!("all hands of {k} cards evaluated"));
    }
}

// ---------------------------------------------------------------- C03
// case: cards, then the additions in reverse Polish: D push default, <card> push card, M<hex> push
// from_bit_mask, H<card><card> push from_hole_cards, + add, = add_assign
fn check_c03(case: &str) -> Result<bool, String> {
    let (set, prog) = case.split_once(' ').unwrap();
    let cs = parse_cards(set);
    let m = cards_mask(&cs);
    let mut st: Vec<Hand> = vec![];
    for tok in prog.split(' ') {
        match tok.as_bytes()[0] {
            b'D' => st.push(Hand::default()),
            b'M' => st.push(Hand::from_bit_mask(u64::from_str_radix(&tok[1..], 16).unwrap())),
            b'H' => { let p = parse_cards(&tok[1..]); st.push(Hand::from_hole_cards(p[0], p[1])) }
            b'+' => { let b = st.pop().unwrap(); let a = st.pop().unwrap(); st.push(a + b) }
            b'=' => { let b = st.pop().unwrap(); let mut a = st.pop().unwrap(); a += b; st.push(a) }
            _ => st.push(CARDS[parse_cards(tok)[0] as usize]),
        }
    }
    let h = st.pop().unwrap();
    let want = hand(&mask_cards(m));
    if h != want { return Err(format!("built as {:?}, added one by one {:?}", h, want)) }
    if !(h == want) || h.get_key() != want.get_key() || h.get_mask() != want.get_mask() { return Err("equality".into()) }
    if h.count() as usize != cs.len() { return Err(format!("count {} for {} cards", h.count(), cs.len())) }
    for c in 0..52u8 { if h.contains(c) != (m >> c & 1 == 1) { return Err(format!("contains({}) = {}", card_name(c), h.contains(c))) } }
    let s = suit_masks(m);
    for k in 0..4u8 {
        if h.suit_count(k) != s[k as usize].count_ones() as i32 { return Err(format!("suit_count({k}) = {}", h.suit_count(k))) }
        if h.get_suit_mask(k) != s[k as usize] { return Err(format!("get_suit_mask({k}) = {:#b}", h.get_suit_mask(k))) }
    }
    if h.get_rank_mask() != s[0] | s[1] | s[2] | s[3] { return Err(format!("get_rank_mask = {:#b}", h.get_rank_mask())) }
    let f = s.iter().copied().find(|x| x.count_ones() >= 5);
    if h.has_flush() != f.is_some() { return Err(format!("has_flush = {}", h.has_flush())) }
    if h.get_flush_key() != f.unwrap_or(0) as usize { return Err(format!("get_flush_key = {:#b}", h.get_flush_key())) }
    // a different set is a different hand
    for c in 0..52u8 {
        if m >> c & 1 == 0 { if cs.len() < 7 && h + CARDS[c as usize] == h { return Err("hand with one card more compares equal".into()) } }
    }
    Ok(cs.len() >= 2)
}
fn gen_c03(r: &mut Rng) -> String {
    let k = r.range(0, 7) as usize;
    let cs: Vec<u8> = if r.chance(1, 3) {
        let (a, b) = (r.below(4) as u8, r.below(4) as u8);
        let mut used = 0u64;
        while (used.count_ones() as usize) < k {
            let c = r.below(52) as u8;
            if c % 4 == a || (c % 4 == b && r.chance(1, 2)) { used |= 1 << c }
        }
        mask_cards(used)
    } else { r.cards(k, 0) };
    c03_case(r, &cs)
}
fn c03_case(r: &mut Rng, cs: &[u8]) -> String {
    let mut cs = cs.to_vec();
    let set = names(&cs);
    for i in (1..cs.len()).rev() { let j = r.below(i as u64 + 1) as usize; cs.swap(i, j) }
    // leaves: one of them holds the default hand
    let mut terms: Vec<String> = vec![];
    if r.chance(1, 3) {
        let n = r.below(cs.len() as u64 + 1) as usize;
        let junk = if r.chance(1, 2) { r.next() << 52 } else { 0 };
        terms.push(format!("M{:x}", cards_mask(&cs[..n]) | junk));
        cs.drain(..n);
    } else { terms.push("D".into()) }
    while !cs.is_empty() {
        if cs.len() >= 2 && r.chance(1, 3) {
            terms.push(format!("H{}{}", card_name(cs[0]), card_name(cs[1])));
            cs.drain(..2);
        } else { terms.push(card_name(cs.remove(0))) }
    }
    for i in (1..terms.len()).rev() { let j = r.below(i as u64 + 1) as usize; terms.swap(i, j) }
    // random binary tree
    while terms.len() > 1 {
        let i = r.below(terms.len() as u64 - 1) as usize;
        let b = terms.remove(i + 1);
        let a = terms.remove(i);
        terms.insert(i, format!("{a} {b} {}", if r.chance(1, 2) { "+" } else { "=" }));
    }
    format!("{set} {}", terms[0])
}
fn run_c03(ctx: &Ctx) {
    let mut r = Rng::new(ctx.seed);
    let mut fixed = vec![c03_case(&mut r, &[])];
    for a in 0..52u8 { fixed.push(c03_case(&mut r, &[a])); for b in 0..a { fixed.push(c03_case(&mut r, &[a, b])) } }
    for s in 0..4u8 {
        for m in 0..8192u32 { if m.count_ones() <= 7 && m.count_ones() >= 3 {
            let cs: Vec<u8> = (0..13u8).filter(|x| m >> x & 1 == 1).map(|x| 4 * x + s).collect();
            fixed.push(c03_case(&mut r, &cs));
        } }
    }
    ctx.cases(&fixed, 3_000_000, gen_c03, check_c03);
}

// ---------------------------------------------------------------- C04
fn check_c04(case: &str) -> Result<bool, String> {
    let c = parse_cards(case);
    let (a, b) = (c[0], c[1]);
    let i = get_card_index(a, b);
    if i != get_card_index(b, a) { return Err(format!("index {i} one way round, {} the other", get_card_index(b, a))) }
    let h = Hand::default() + CARDS[a as usize] + CARDS[b as usize];
    if h.get_card_index() != i { return Err(format!("index {i} from the cards, {} from the default hand plus the cards", h.get_card_index())) }
    let h = Hand::from_hole_cards(a, b);
    if h.get_card_index() != i { return Err(format!("index {i} from the cards, {} from the hand", h.get_card_index())) }
    let ok = if a / 4 == b / 4 { i < 78 } else if a % 4 == b % 4 { (78..390).contains(&i) } else { (390..1326).contains(&i) };
    if !ok { return Err(format!("index {i} is in the wrong section")) }
    for (x, y) in all_hands() {
        if (x.min(y), x.max(y)) != (a.min(b), a.max(b)) && get_card_index(x, y) == i {
            return Err(format!("index {i} is also that of {}", names(&[x, y])));
        }
    }
    Ok(true)
}
fn run_c04(ctx: &Ctx) {
    let mut v = vec![];
    for a in 0..52u8 { for b in 0..52u8 { if a != b { v.push(names(&[a, b])) } } }
    ctx.cases(&v, 0, |_| String::new(), check_c04);
    ctx.note("all 2652 ordered pairs");
}

// ---------------------------------------------------------------- C05
fn res(players: usize) -> Result<pokers::SimulationResults, String> {
    let r = pokers::HandRange::from_strings((0..players).map(|i| format!("{}s{}h", RANKS[i], RANKS[i])).collect());
    let t = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut r = pokers::exact_equity(&r, pokers::get_card_mask("AcKcQcAdKd"), 0, 1, t, |_| {}).map_err(|e| format!("{e:?}"))?;
    // every record is recognisable
    if r.hand_results.len() != 1326 * players { return Err(format!("{} hand records for {players} players", r.hand_results.len())) }
    if r.combo_results.len() != 169 * players { return Err(format!("{} class records for {players} players", r.combo_results.len())) }
    for (i, x) in r.hand_results.iter_mut().enumerate() { x.wins = i as u64 }
    for (i, x) in r.combo_results.iter_mut().enumerate() { x.wins = 1_000_000 + i as u64 }
    Ok(r)
}
static RES: Mutex<Vec<Option<pokers::SimulationResults>>> = Mutex::new(Vec::new());
// case: players player text
fn check_c05(case: &str) -> Result<bool, String> {
    let mut it = case.splitn(3, ' ');
    let players: usize = it.next().unwrap().parse().unwrap();
    let player: usize = it.next().unwrap().parse().unwrap();
    let text = crate::p_text::unesc(it.next().unwrap());
    let r = {
        let mut g = RES.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 10 { g.resize(10, None) }
        if g[players].is_none() { g[players] = Some(res(players)?) }
        let r = g[players].take().unwrap();
        drop(g);
        r
    };
    let hands = all_hands();
    let h = hands.iter().position(|(a, b)| names(&[*a, *b]) == text);
    let classes = all_classes();
    let c = classes.iter().position(|x| *x == text);
    let out = (|| {
        match (h, r.get_hand_result(player, text.clone())) {
            (Some(_), Ok(x)) => {
                let k = crate::p_eval::parse_cards(&text);
                let want = (1326 * player + get_card_index(k[0], k[1])) as u64;
                if x.wins != want { return Err(format!("record {} of the hand results instead of {want}", x.wins)) }
            }
            (None, Err(_)) => {}
            (Some(_), Err(e)) => return Err(format!("no hand result: {e}")),
            (None, Ok(_)) => return Err("a hand result for a text that names no hand".into()),
        }
        match (c, r.get_combo_result(player, text.clone())) {
            (Some(i), Ok(x)) => {
                if x.wins != (1_000_000 + 169 * player + i) as u64 { return Err(format!("record {} of the class results instead of {}", x.wins - 1_000_000, 169 * player + i)) }
            }
            (None, Err(_)) => {}
            (Some(_), Err(e)) => return Err(format!("no class result: {e}")),
            (None, Ok(_)) => return Err("a class result for a text that names no class".into()),
        }
        if let Some(i) = h {
            let k = parse_cards(&text);
            let ix = get_card_index(k[0], k[1]);
            if INDEX_TO_HAND[ix] != text { return Err(format!("the name at the hand's index {ix} is {}", INDEX_TO_HAND[ix])) }
            if HAND_TO_INDEX.get(text.as_str()) != Some(&ix) { return Err(format!("HAND_TO_INDEX gives {:?}, the hand's index is {ix}", HAND_TO_INDEX.get(text.as_str()))) }
            let _ = i;
            // class of the batch the hand lies in
            let cl = if ix < 78 { ix / 6 } else if ix < 390 { 13 + (ix - 78) / 4 } else { 91 + (ix - 390) / 12 };
            let (hi, lo) = (RANKS[(k[0].max(k[1]) / 4) as usize], RANKS[(k[0].min(k[1]) / 4) as usize]);
            let want = if k[0] / 4 == k[1] / 4 { format!("{hi}{lo}") } else if k[0] % 4 == k[1] % 4 { format!("{hi}{lo}s") } else { format!("{hi}{lo}o") };
            if INDEX_TO_COMBO[cl] != want { return Err(format!("hand of class {want} is batched into {}", INDEX_TO_COMBO[cl])) }
        }
        if let Some(i) = c {
            if COMBO_TO_INDEX.get(text.as_str()) != Some(&i) { return Err(format!("COMBO_TO_INDEX gives {:?}, not {i}", COMBO_TO_INDEX.get(text.as_str()))) }
        }
        Ok(h.is_some() || c.is_some())
    })();
    RES.lock().unwrap_or_else(|e| e.into_inner())[players] = Some(r);
    out
}
fn run_c05(ctx: &Ctx) {
    let mut v = vec![];
    let mut r = Rng::new(ctx.seed);
    let mut bad: Vec<String> = ["", " ", "AsAs", "AhAs", "2sAs", "asah", "AsAhKs", "A", "AA ", "AAs", "AAo", "KAs", "AKS", "aks", "AK", "32", "Random", "1s2s", "AsA", "\u{1F0A1}"].iter().map(|s| s.to_string()).collect();
    for (a, b) in all_hands() { bad.push(names(&[b, a])) }
    for c in all_classes() { bad.push(c.to_lowercase()); bad.push(c.chars().rev().collect()); bad.push(format!("{c}s")); }
    let h = all_hands();
    let ok: Vec<String> = h.iter().map(|(a, b)| names(&[*a, *b])).chain(all_classes()).collect();
    bad.retain(|b| !ok.contains(b));
    for (players, ps) in [(2usize, vec![0usize, 1]), (9, vec![0, 4, 8]), (3, vec![2])] {
        for p in ps {
            for t in &ok { v.push(format!("{players} {p} {t}")) }
            for t in &bad { if r.chance(1, 4) { v.push(format!("{players} {p} {}", crate::p_text::esc(t))) } }
        }
    }
    let mut one = Ctx::new(ctx.seed, 600.0, 1);
    one.deadline = ctx.deadline + std::time::Duration::from_secs(300);
    one.cases(&v, 0, |_| String::new(), check_c05);
    ctx.evals.fetch_add(one.evals.load(SeqCst), SeqCst);
    ctx.distinct.fetch_add(one.distinct.load(SeqCst), SeqCst);
    for s in one.samples.lock().unwrap().iter() { ctx.sample(s) }
    let f = one.found.lock().unwrap().clone();
    if let Some((c, w)) = f { ctx.fail(c, w) }
}

// ---------------------------------------------------------------- C06
fn check_c06(case: &str) -> Result<bool, String> {
    let (d, n) = case.split_once(' ').unwrap();
    let (d, n): (u64, u64) = (d.parse().unwrap(), n.parse().unwrap());
    let div = DividerU64::divide_by(d);
    let q = div.divide(n);
    if q != n / d { return Err(format!("{n} / {d} = {}, got {q}", n / d)) }
    if n / div != n / d { return Err(format!("operator: {n} / {d} = {}, got {}", n / d, n / div)) }
    Ok(d > 1)
}
fn c06_div(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.range(1, 70000),
        1 => { let k = r.below(64); let x = r.below(2049) as i64 - 1024; ((1u128 << k) as u64).wrapping_add(x as u64).max(1) }
        2 => u64::MAX - r.below(100000),
        3 => { let a = r.range(1, 1 << 20); let b = r.below(45); (a << b).max(1) }
        _ => (r.next() >> r.below(64)).max(1),
    }
}
fn c06_nums(r: &mut Rng, d: u64, f: &mut dyn FnMut(u64)) {
    let qm = u64::MAX / d;
    for n in [0, 1, d - 1, d, d.wrapping_add(1), u64::MAX, u64::MAX - 1, qm * d, (qm * d).wrapping_sub(1), (qm / 2 * d).wrapping_sub(1), qm / 2 * d, 1 << 63, (1 << 63) - 1] { f(n) }
    for _ in 0..4 {
        let q = r.next() >> r.below(64);
        let q = if qm == u64::MAX { q } else { q % (qm + 1) };
        f(q * d);
        f((q * d).wrapping_sub(1));
        f(q.wrapping_mul(d).wrapping_add(r.next() % d));
        // high end: largest quotients, remainder d-1
        let q = qm - r.next() % (qm / 16 + 1).min(qm.max(1));
        f((q * d).wrapping_sub(1));
    }
}
fn run_c06(ctx: &Ctx) {
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| for t in 0..ctx.threads {
        let next = &next;
        sc.spawn(move || {
            let mut r = Rng::new(ctx.seed * 77 + t as u64);
            loop {
                let k = next.fetch_add(1, SeqCst);
                if !ctx.time_left() || k > 20000 { break }
                let mut ds = vec![];
                for j in 0..100u64 { if k < 2000 { ds.push(k * 100 + j + 1) } else { ds.push(c06_div(&mut r)) } }
                let mut n = 0u64;
                for d in ds {
                    let ok = ctx.block(t, &format!("{d} 0"), || {
                        let div = DividerU64::divide_by(d);
                        let mut bad = None;
                        c06_nums(&mut r, d, &mut |x| { n += 1; if div.divide(x) != x / d || x / div != x / d { bad = Some(x) } });
                        bad
                    });
                    match ok { None => return, Some(Some(x)) => { let c = format!("{d} {x}"); let w = check_c06(&c).err().unwrap_or_default(); ctx.fail(c, w); return } _ => {} }
                    if d % 9973 == 3 { ctx.sample(&format!("divisor {d}")) }
                }
                ctx.evals.fetch_add(n, SeqCst);
                ctx.distinct.fetch_add(n, SeqCst);
            }
        });
    });
}

// ---------------------------------------------------------------- C22
fn check_c22(case: &str) -> Result<bool, String> {
    let (a, b) = case.split_once(' ').unwrap();
    let (hole, board) = (parse_cards(a), parse_cards(b));
    let all: Vec<u8> = hole.iter().chain(&board).copied().collect();
    let cat = (strength(&all) >> 20) as u8 - 1;
    let got = get_draw(Hand::from_hole_cards(hole[0], hole[1]), hand(&board), cat) & 0b1110_0000;
    // the same with the hole cards built on the default hand
    let got2 = get_draw(hand(&hole[..1]) + CARDS[hole[1] as usize], Hand { key: board.iter().fold(0u64, |k, c| k + CARDS[*c as usize].key), mask: hand(&board).mask }, cat) & 0b1110_0000;
    let (want, nt) = draw_spec(&hole, &board, cat);
    if got != want { return Err(format!("flush-draw flags {got:#010b}, expected {want:#010b} (category {cat})")) }
    if got2 != want { return Err(format!("flush-draw flags {got2:#010b}, expected {want:#010b} (category {cat})")) }
    Ok(nt)
}
pub fn draw_spec(hole: &[u8], board: &[u8], cat: u8) -> (u8, bool) {
    let hs = suit_masks(cards_mask(hole));
    let bs = suit_masks(cards_mask(board));
    let nut = |s: usize| {
        // highest card from ten up of the suit that is not on the board
        let free: Vec<u16> = (8..13).rev().filter(|r| bs[s] >> r & 1 == 0).collect();
        !free.is_empty() && hs[s] >> free[0] & 1 == 1
    };
    let mut f = 0u8;
    let mut nt = false;
    for s in 0..4 {
        let n = (hs[s] | bs[s]).count_ones();
        nt |= n >= 3;
        if cat < 5 {
            if n == 4 { f |= 32; if nut(s) { f |= 128 } }
            if n == 3 && board.len() == 3 { f |= 64; if nut(s) { f |= 128 } }
        } else if cat == 5 && n >= 5 && nut(s) { f |= 128 }
    }
    (f, nt)
}
fn run_c22(ctx: &Ctx) {
    ctx.cases(&[], 2_000_000, |r| {
        let n = 5 + r.below(2) as usize;
        let cs = match r.below(4) {
            0 => r.cards(n, 0),
            k => {
                let s: Vec<u8> = (0..k).map(|_| r.below(4) as u8).collect();
                let mut used = 0u64;
                let mut v = vec![];
                while v.len() < n {
                    let c = if r.chance(5, 6) { 4 * r.below(13) as u8 + *r.pick(&s) } else { r.below(52) as u8 };
                    let c = if r.chance(1, 3) { 4 * (8 + r.below(5) as u8) + c % 4 } else { c };
                    if used >> c & 1 == 0 { used |= 1 << c; v.push(c) }
                    else { let c = r.below(52) as u8; if used >> c & 1 == 0 { used |= 1 << c; v.push(c) } }
                }
                for i in (1..n).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j) }
                v
            }
        };
        format!("{} {}", names(&cs[..2]), names(&cs[2..]))
    }, check_c22);
}
