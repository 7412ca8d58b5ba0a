//! C07-C11: range texts, card texts
use crate::ctx::*;
use crate::orc::*;
use crate::Prop;
use pokers::hand_range::{card_from_str, card_to_string, flop_from_str, hole_to_string, holes_to_strings, mask_to_string};
use pokers::{get_card_mask, HandRange};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", rule: "texts generated from the grammar (1 to 6 items, mixed case, weights, overlapping items), a third of them with a malformed continuation; non-trivial when the range has a hand", run: run_c07, check: check_c07 },
        Prop { id: "C08", rule: "random texts over range characters and arbitrary Unicode, mutated valid texts, long texts; non-trivial when some hand is parsed", run: run_c08, check: check_c08 },
        Prop { id: "C09", rule: "ranges with random 52-bit and 64-bit board and dead masks; non-trivial when some hands stay and some go", run: run_c09, check: check_c09 },
        Prop { id: "C10", rule: "card masks of every size, and texts of card characters, some damaged; all cards and holdings", run: run_c10, check: check_c10 },
        Prop { id: "C11", rule: "all two-character texts over a wide alphabet, texts of three cards with spacing, damaged ones; non-trivial when the text has at least one valid card", run: run_c11, check: check_c11 },
    ]
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() { if c > ' ' && c <= '~' && c != '\\' { o.push(c) } else { o.push_str(&format!("\\u{{{:x}}}", c as u32)) } }
    o.push('\'');
    o
}
pub fn unesc(s: &str) -> String {
    if !(s.len() >= 2 && s.starts_with('\'') && s.ends_with('\'')) { return s.to_string() }
    let mut o = String::new();
    let mut it = s[1..s.len() - 1].chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            it.next();
            it.next();
            let mut v = 0;
            for d in it.by_ref() { if d == '}' { break } v = v * 16 + d.to_digit(16).unwrap() }
            o.push(char::from_u32(v).unwrap());
        } else { o.push(c) }
    }
    o
}

// ------------------------------------------------------------ reference range parser
/// what an item may denote: every hand of the cards (hi rank, lo rank) in the classes allowed
fn class(x: u8, y: u8, suited: bool, off: bool, out: &mut Vec<(u8, u8)>) {
    let (h, l) = (x.max(y), x.min(y));
    for s1 in 0..4u8 { for s2 in 0..4u8 {
        if h == l { if off && s1 > s2 { out.push((4 * h + s1, 4 * l + s2)) } }
        else if (s1 == s2 && suited) || (s1 != s2 && off) { out.push((4 * h + s1, 4 * l + s2)) }
    } }
}
pub fn sort_key(c: (u8, u8)) -> u32 { ((c.0 / 4) as u32) << 24 | ((c.1 / 4) as u32) << 16 | ((c.0 % 4) as u32) << 8 | (c.1 % 4) as u32 }

/// None: the text uses a form whose meaning the property leaves open
pub fn ref_parse(text: &str) -> Option<Vec<(u8, u8, u8)>> {
    let mut got: Vec<(u8, u8, u8)> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut put = |hs: Vec<(u8, u8)>, w: u8, got: &mut Vec<(u8, u8, u8)>| {
        for h in hs { if seen.insert(h) { got.push((h.0, h.1, w)) } }
    };
    if text == "random" {
        let mut v = vec![];
        for a in 0..52u8 { for b in 0..a { v.push((a, b)) } }
        put(v, 100, &mut got);
    } else {
        let low: Vec<char> = text.to_lowercase().chars().collect();
        let rank = |i: usize| low.get(i).and_then(|c| "23456789tjqka".chars().position(|x| x == *c)).map(|x| x as u8);
        let suit = |i: usize| low.get(i).and_then(|c| "shcd".chars().position(|x| x == *c)).map(|x| x as u8);
        let is = |i: usize, c: char| low.get(i) == Some(&c);
        let mut i = 0;
        'items: loop {
            // one item
            let mut hs = vec![];
            let x = match rank(i) { Some(x) => x, None => break };
            if let Some(s1) = suit(i + 1) {
                let (y, s2) = match (rank(i + 2), suit(i + 3)) { (Some(y), Some(s)) => (y, s), _ => break };
                let (a, b) = (4 * x + s1, 4 * y + s2);
                if a == b { break }
                hs.push((a.max(b), a.min(b)));
                i += 4;
            } else {
                let y = match rank(i + 1) { Some(y) => y, None => break };
                i += 2;
                let (mut suited, mut off) = (true, true);
                if is(i, 'o') { suited = false; i += 1 } else if is(i, 's') { off = false; i += 1 }
                if is(i, '+') {
                    i += 1;
                    if x == y { for r in x..13 { class(r, r, suited, off, &mut hs) } }
                    else if x > y { for r in y..x { class(x, r, suited, off, &mut hs) } }
                    else { return None }
                } else if is(i, '-') {
                    let (z, t) = match (rank(i + 1), rank(i + 2)) { (Some(z), Some(t)) => (z, t), _ => break };
                    i += 3;
                    if is(i, 'o') { if suited { break } i += 1 } else if is(i, 's') { if off { break } i += 1 }
                    if is(i, 'o') || is(i, 's') { break }
                    if (x == y) != (z == t) { break }
                    if x == y { for r in x.min(z)..=x.max(z) { class(r, r, suited, off, &mut hs) } }
                    else {
                        // the shared rank and the two ends
                        let (k, p, q) = if x == z { (x, y, t) } else if x == t { (x, y, z) } else if y == z { (y, x, t) } else if y == t { (y, x, z) } else { break };
                        for r in p.min(q)..=p.max(q) { class(k, r, suited, off, &mut hs) }
                    }
                } else { class(x, y, suited, off, &mut hs) }
            }
            let mut w = 100u8;
            if is(i, '@') {
                let mut j = i + 1;
                let mut v = 0u64;
                while let Some(d) = low.get(j).and_then(|c| if c.is_ascii_digit() { Some(*c as u64 - 48) } else { None }) { v = (v * 10 + d).min(1000); j += 1 }
                if j == i + 1 || v > 100 { return None }
                w = v as u8;
                i = j;
            }
            put(hs, w, &mut got);
            if is(i, ',') { i += 1 } else { break 'items }
        }
    }
    got.sort_by_key(|h| sort_key((h.0, h.1)));
    Some(got)
}
pub fn got(r: &HandRange) -> Vec<(u8, u8, u8)> { r.hands.iter().map(|c| (c.0, c.1, c.2)).collect() }

fn gen_item(r: &mut Rng) -> String {
    let rk = |r: &mut Rng| { let c = RANKS[r.below(13) as usize]; if r.chance(1, 2) { c.to_ascii_lowercase() } else { c } };
    let st = |r: &mut Rng| { let c = SUITS[r.below(4) as usize]; if r.chance(1, 4) { c.to_ascii_uppercase() } else { c } };
    let so = |r: &mut Rng| ["", "", "s", "o", "S", "O"][r.below(6) as usize];
    let mut s = match r.below(7) {
        0 => { let x = rk(r); format!("{x}{x}{}", ["", "", "o", "s"][r.below(4) as usize]) }
        1 => { let x = rk(r); format!("{x}{x}+") }
        2 => format!("{}{}{}", rk(r), rk(r), so(r)),
        3 => { let (a, b) = (rk(r), rk(r)); format!("{a}{b}{}+", so(r)) }
        4 => { let (x, y) = (rk(r), rk(r)); format!("{x}{x}-{y}{y}") }
        5 => {
            let (k, p, q) = (rk(r), rk(r), rk(r));
            let a = if r.chance(1, 2) { format!("{k}{p}") } else { format!("{p}{k}") };
            let b = if r.chance(1, 2) { format!("{k}{q}") } else { format!("{q}{k}") };
            let s = so(r);
            let t = match r.below(6) { 0 => so(r), 1 | 2 => "", _ => s };
            format!("{a}{s}-{b}{t}")
        }
        _ => format!("{}{}{}{}", rk(r), st(r), rk(r), st(r)),
    };
    if r.chance(1, 3) { let z = if r.chance(1, 8) { "0" } else { "" }; let n = match r.below(8) { 0 => 0, 1 => 100, 2 => 1, _ => r.below(101) }; s.push_str(&format!("@{z}{n}")) }
    s
}
fn gen_range(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    let mut v: Vec<String> = (0..n).map(|_| gen_item(r)).collect();
    if r.chance(1, 3) {
        let junk = *r.pick(&["", " ", "x", "A", "AsK", "Ax", "AsAs", "1010", "AK-", "AK-QJ", "AA-KQ", "AKs-ATo", "AK-ATs", "AKo-ATs", "22-A2", "As", "AsKs-AsQs", "+", "@50", "random", "AKos", "-", "AhKdd", "AK--", "AK++", "KK+s", ",", "AK-AQ+", "é", "22-", "AKso"]);
        let at = r.below(v.len() as u64 + 1) as usize;
        if r.chance(1, 2) || v.is_empty() { v.insert(at, junk.to_string()) } else { let i = at.min(v.len() - 1); v[i].push_str(junk) }
    }
    v.join(",")
}
fn check_c07(case: &str) -> Result<bool, String> {
    let t = unesc(case);
    let want = match ref_parse(&t) { Some(w) => w, None => return Ok(false) };
    let g = sorted(&HandRange::from_string(t.clone()));
    if g != want { return Err(diff(&g, &want)) }
    let v = HandRange::from_strings(vec![t.clone(), "AA".into(), t]);
    if v.len() != 3 || sorted(&v[0]) != want || sorted(&v[2]) != want || v[1].hands.len() != 6 { return Err("from_strings differs from parsing each text".into()) }
    Ok(!want.is_empty())
}
/// as a set with weights (the order is C08's)
fn sorted(r: &HandRange) -> Vec<(u8, u8, u8)> { let mut g = got(r); g.sort_by_key(|h| (sort_key((h.0, h.1)), h.2)); g }
fn diff(g: &[(u8, u8, u8)], w: &[(u8, u8, u8)]) -> String {
    let n = |h: &(u8, u8, u8)| if h.0 < 52 && h.1 < 52 { format!("{}@{}", names(&[h.0, h.1]), h.2) } else { format!("{h:?}") };
    let extra: Vec<String> = g.iter().filter(|h| !w.contains(h)).take(5).map(n).collect();
    let miss: Vec<String> = w.iter().filter(|h| !g.contains(h)).take(5).map(n).collect();
    format!("{} hands, expected {}; not denoted: {extra:?}; missing: {miss:?}{}", g.len(), w.len(), if extra.is_empty() && miss.is_empty() { " (order or repetition)" } else { "" })
}
fn run_c07(ctx: &Ctx) {
    let mut v: Vec<String> = ["random", "", "22+", "AA", "A2+", "a2s+", "22+,A2+,KQ@50", "AsKs,AsKs@20,AKs@30"].iter().map(|s| esc(s)).collect();
    // every single item of the short forms
    let l = |c: char, k: usize| if k % 2 == 0 { c.to_ascii_lowercase() } else { c };
    for (i, a) in RANKS.iter().enumerate() { for (j, b) in RANKS.iter().enumerate() {
        for s in ["", "s", "o"] { for p in ["", "+", "@37", "+@9"] { v.push(esc(&format!("{}{}{s}{p}", l(*a, i + j), l(*b, j)))) } }
        for (k, c) in RANKS.iter().enumerate() { for (m, d) in RANKS.iter().enumerate() {
            let s = ["", "s", "o"][(i + j + k + m) % 3];
            let t = if (i + k) % 2 == 0 { s } else { "" };
            v.push(esc(&format!("{}{}{s}-{}{}{t}", a, l(*b, m), c, d)));
        } }
        for s in SUITS { for t in SUITS { v.push(esc(&format!("{a}{s}{b}{t}"))) } }
    } }
    for w in 0..=100 { v.push(esc(&format!("QQ@{w}"))) ; v.push(esc(&format!("Kd7h@{w},22"))) }
    ctx.cases(&v, 2_000_000, |r| esc(&gen_range(r)), check_c07);
}

fn check_c08(case: &str) -> Result<bool, String> {
    let t = unesc(case);
    let t = if let Some(n) = t.strip_prefix("repeat:") {
        let (k, s) = n.split_once(':').unwrap();
        s.repeat(k.parse().unwrap())
    } else { t };
    let in_order = t != "random";
    let r = HandRange::from_string(t);
    let g = got(&r);
    for h in &g {
        if h.0 > 51 || h.1 > 51 { return Err(format!("{h:?} is not two cards of the deck")) }
        if h.0 == h.1 { return Err(format!("{h:?} repeats a card")) }
        if h.0 < h.1 { return Err(format!("{h:?} has the lower card first")) }
        if h.2 > 100 { return Err(format!("weight {} of {}", h.2, names(&[h.0, h.1]))) }
    }
    let mut u: Vec<_> = g.iter().map(|h| (h.0, h.1)).collect();
    u.sort();
    if let Some(w) = u.windows(2).find(|w| w[0] == w[1]) { return Err(format!("{} occurs twice", names(&[w[0].0, w[0].1]))) }
    if !in_order { return Ok(!g.is_empty()) }
    for w in g.windows(2) {
        if sort_key((w[0].0, w[0].1)) >= sort_key((w[1].0, w[1].1)) { return Err(format!("{} is followed by {}", names(&[w[0].0, w[0].1]), names(&[w[1].0, w[1].1]))) }
    }
    Ok(!g.is_empty())
}
fn gen_c08(r: &mut Rng) -> String {
    let alpha: Vec<char> = "23456789TJQKAakqjtshcdSHCDooss+-@,, 0123456789@@x".chars().collect();
    let wide: Vec<char> = "\u{212a}\u{130}\u{17f}\u{660}\u{ff11}é\n\t\0\u{10ffff}①Ⅷ𝟗ß".chars().collect();
    let s = match r.below(4) {
        0 => { let n = r.below(12); (0..n).map(|_| *r.pick(&alpha)).collect() }
        1 => {
            let mut c: Vec<char> = gen_range(r).chars().collect();
            for _ in 0..r.range(1, 3) {
                if c.is_empty() { break }
                let i = r.below(c.len() as u64) as usize;
                match r.below(4) { 0 => { c.remove(i); } 1 => c.insert(i, *r.pick(&alpha)), 2 => c[i] = *r.pick(&alpha), _ => c.insert(i, *r.pick(&wide)) }
            }
            c.into_iter().collect()
        }
        2 => { let n = r.below(40); (0..n).map(|_| if r.chance(1, 6) { *r.pick(&wide) } else { *r.pick(&alpha) }).collect() }
        _ => { let mut s = gen_range(r); s.push('@'); for _ in 0..r.below(30) { s.push((b'0' + r.below(10) as u8) as char) } s }
    };
    esc(&s)
}
fn run_c08(ctx: &Ctx) {
    let mut v: Vec<String> = ["", "A", "As", "AsK", "AK@", "AK@4294967296", "AK@99999999999999999999", "AK-", "AK-A", "AKs-", "AsAs", "22-A", "random", "random,AA", "AA@101", "AK@256,22", "AA@1000000000000000000000000000000,KK"].iter().map(|s| esc(s)).collect();
    for s in ["repeat:3000:A2+,", "repeat:20000:AsKd,", "repeat:5000:9", "repeat:400:A2+,", "repeat:300:AA@", "repeat:3000:A", "repeat:3000:@"] { v.push(esc(s)) }
    // all short texts over the range alphabet
    let al: Vec<char> = "a2shod+-@,1x".chars().collect();
    for a in &al { v.push(esc(&format!("{a}"))); for b in &al { v.push(esc(&format!("{a}{b}"))); for c in &al { for d in &al { v.push(esc(&format!("{a}{b}{c}{d}"))); } } } }
    ctx.cases(&v, 2_000_000, gen_c08, check_c08);
}

// case: text board dead
fn check_c09(case: &str) -> Result<bool, String> {
    let p: Vec<&str> = case.split(' ').collect();
    let (b, d) = (u64::from_str_radix(p[1], 16).unwrap(), u64::from_str_radix(p[2], 16).unwrap());
    let mut r = HandRange::from_string(unesc(p[0]));
    let before = got(&r);
    r.remove_conflicting_combos(b, d);
    let g = got(&r);
    let want: Vec<_> = before.iter().copied().filter(|h| b >> h.0 & 1 == 0 && b >> h.1 & 1 == 0 && d >> h.0 & 1 == 0 && d >> h.1 & 1 == 0).collect();
    if g != want { return Err(diff(&g, &want)) }
    Ok(!g.is_empty() && g.len() < before.len())
}
fn mask(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => r.next(),
        2 => r.next() & r.next() & r.next(),
        3 => 1u64 << r.below(64),
        _ => { let k = r.range(1, 8) as usize; cards_mask(&r.cards(k, 0)) }
    }
}
fn run_c09(ctx: &Ctx) {
    let mut v = vec![];
    for c in 0..64 { v.push(format!("'random' {:x} 0", 1u64 << c)); v.push(format!("'random' 0 {:x}", 1u64 << c)) }
    ctx.cases(&v, 400_000, |r| {
        let t = if r.chance(1, 3) { "random".into() } else { gen_range(r) };
        format!("{} {:x} {:x}", esc(&t), mask(r), mask(r))
    }, check_c09);
}

// case: mask <hex> | text '<text>' | hole c1 c2 | card c
fn check_c10(case: &str) -> Result<bool, String> {
    let p: Vec<&str> = case.split(' ').collect();
    match p[0] {
        "mask" => {
            let m = u64::from_str_radix(p[1], 16).unwrap();
            let t = mask_to_string(m);
            let want = names(&mask_cards(m));
            if t != want { return Err(format!("mask_to_string gives {t}, expected {want}")) }
            let k = m & ((1 << 52) - 1);
            if get_card_mask(&t) != k { return Err(format!("back from {t}: {:#x}", get_card_mask(&t))) }
            Ok(k.count_ones() > 1)
        }
        "text" => {
            let t = unesc(&case[5..]);
            let low: Vec<char> = t.to_lowercase().chars().collect();
            let mut want = 0u64;
            let mut ok = low.len() % 2 == 0;
            if ok { for c in low.chunks(2) {
                match ("23456789tjqka".chars().position(|x| x == c[0]), "shcd".chars().position(|x| x == c[1])) {
                    (Some(r), Some(s)) => want |= 1u64 << (4 * r + s),
                    _ => ok = false,
                }
            } }
            if !ok { want = 0 }
            let g = get_card_mask(&t);
            if g != want { return Err(format!("get_card_mask gives {g:#x}, expected {want:#x}")) }
            Ok(want != 0)
        }
        "card" => {
            let c: u8 = p[1].parse().unwrap();
            if card_to_string(c) != card_name(c) { return Err(format!("card_to_string gives {}, expected {}", card_to_string(c), card_name(c))) }
            Ok(true)
        }
        _ => {
            let (a, b): (u8, u8) = (p[1].parse().unwrap(), p[2].parse().unwrap());
            let want = names(&[a.min(b), a.max(b)]);
            match hole_to_string((a, b)) { Ok(s) if s == want => {}, x => return Err(format!("hole_to_string gives {x:?}, expected {want}")) }
            match holes_to_strings(&[(a, b), (3, 7), (b, a)]) { Ok(s) if s == vec![want.clone(), "2d3d".to_string(), want.clone()] => {}, x => return Err(format!("holes_to_strings gives {x:?}")) }
            let s = pokers::hand_range::Combo(a, b, 50).to_string();
            if s != names(&[a, b]) { return Err(format!("a range's hand is written {s}, expected {}", names(&[a, b]))) }
            Ok(true)
        }
    }
}
fn run_c10(ctx: &Ctx) {
    let mut v = vec!["mask 0".to_string(), "mask ffffffffffffffff".into(), format!("mask {:x}", (1u64 << 52) - 1)];
    for c in 0..52u8 {
        v.push(format!("card {c}"));
        v.push(format!("mask {:x}", 1u64 << c));
        v.push(format!("text '{}'", card_name(c)));
        v.push(format!("text '{}'", card_name(c).to_uppercase()));
        v.push(format!("text '{}'", card_name(c).to_lowercase()));
        for d in 0..52u8 { if c != d { v.push(format!("hole {c} {d}")); v.push(format!("mask {:x}", 1u64 << c | 1u64 << d)); v.push(format!("text '{}{}'", card_name(c), card_name(d).to_lowercase())) } }
    }
    for a in 0x20u8..0x7f { for b in 0x20u8..0x7f { v.push(format!("text {}", esc(&format!("{}{}", a as char, b as char)))) } }
    ctx.cases(&v, 2_000_000, |r| match r.below(3) {
        0 => format!("mask {:x}", match r.below(3) { 0 => r.next(), 1 => r.next() & r.next() & r.next(), _ => { let k = r.range(0, 9) as usize; cards_mask(&r.cards(k, 0)) } }),
        _ => format!("text {}", esc(&card_text(r))),
    }, check_c10);
}
fn card_text(r: &mut Rng) -> String {
    let n = r.below(9) as usize;
    let mut c: Vec<char> = (0..n).flat_map(|_| { let k = r.below(52) as u8; let s = card_name(k); let s = if r.chance(1, 4) { s.to_uppercase() } else if r.chance(1, 3) { s.to_lowercase() } else { s }; s.chars().collect::<Vec<_>>() }).collect();
    if r.chance(1, 3) {
        let junk: Vec<char> = "1xX sh2a,é\u{212a}\u{130}A".chars().collect();
        for _ in 0..r.range(1, 2) {
            let i = r.below(c.len() as u64 + 1) as usize;
            match r.below(3) { 0 => c.insert(i, *r.pick(&junk)), 1 => if i < c.len() { c[i] = *r.pick(&junk) }, _ => if i < c.len() { c.remove(i); } }
        }
    }
    c.into_iter().collect()
}

// case: card '<text>' | flop '<text>'
fn ref_card(a: char, b: char) -> Option<u8> {
    let r = "23456789TJQKA".chars().position(|x| x == a || x.to_ascii_lowercase() == a)?;
    let s = "shcd".chars().position(|x| x == b)?;
    Some((4 * r + s) as u8)
}
fn ref_flop(t: &str) -> Option<[u8; 3]> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut v = [0u8; 3];
    for k in 0..3 {
        if k > 0 { while i < c.len() && c[i].is_whitespace() { i += 1 } }
        v[k] = ref_card(*c.get(i)?, *c.get(i + 1)?)?;
        i += 2;
    }
    if i != c.len() { return None }
    v.sort();
    if v[0] == v[1] || v[1] == v[2] { return None }
    Some(v)
}
fn check_c11(case: &str) -> Result<bool, String> {
    let t = unesc(&case[5..]);
    if case.starts_with("card ") {
        let c: Vec<char> = t.chars().collect();
        let want = if c.len() == 2 { ref_card(c[0], c[1]) } else { None };
        let g = card_from_str(&t);
        if g.clone().ok() != want { return Err(format!("card_from_str gives {g:?}, expected {want:?}")) }
        Ok(want.is_some())
    } else {
        let want = ref_flop(&t);
        let g = flop_from_str(&t);
        if g.clone().ok() != want { return Err(format!("flop_from_str gives {g:?}, expected {want:?}")) }
        Ok(want.is_some())
    }
}
fn run_c11(ctx: &Ctx) {
    let mut v = vec![];
    let mut al: Vec<char> = (0x20u8..0x7f).map(|c| c as char).collect();
    al.extend("\u{212a}\u{130}\u{ff21}éß\n\t\u{2003}\0".chars());
    v.push("card ''".to_string());
    for a in &al { v.push(format!("card {}", esc(&a.to_string()))); for b in &al { v.push(format!("card {}", esc(&format!("{a}{b}")))) } }
    for c in 0..52u8 { for x in al.iter() { v.push(format!("card {}", esc(&format!("{}{x}", card_name(c))))); v.push(format!("card {}", esc(&format!("{x}{}", card_name(c))))) } }
    for a in 0..52u8 { for b in 0..52u8 { v.push(format!("flop '{}2s'", names(&[a, b]))); v.push(format!("flop 'Ad{}'", names(&[a, b]))); v.push(format!("flop '{}7h{}'", card_name(a), card_name(b))) } }
    ctx.cases(&v, 2_000_000, |r| {
        if r.chance(1, 4) { return format!("card {}", esc(&card_text(r))) }
        let ws = ["", "", "", " ", "  ", "\t", "\n ", "\u{2003}", "\u{a0}"];
        let d = r.chance(1, 8);
        let cs = if d { let x = r.below(52) as u8; vec![x, r.below(52) as u8, x] } else { r.cards(3, 0) };
        let c: Vec<String> = cs.iter().map(|c| { let s = card_name(*c); if r.chance(1, 4) { s.to_lowercase() } else if r.chance(1, 12) { s.to_uppercase() } else { s } }).collect();
        let mut t = format!("{}{}{}{}{}", c[0], r.pick(&ws), c[1], r.pick(&ws), c[2]);
        if r.chance(1, 4) {
            let junk: Vec<char> = " 1xsA,\u{212a}7h".chars().collect();
            let mut q: Vec<char> = t.chars().collect();
            let i = r.below(q.len() as u64 + 1) as usize;
            match r.below(3) { 0 => q.insert(i, *r.pick(&junk)), 1 => if i < q.len() { q[i] = *r.pick(&junk) }, _ => if i < q.len() { q.remove(i); } }
            t = q.into_iter().collect();
        }
        format!("flop {}", esc(&t))
    }, check_c11);
}
