//! Equity requests and their brute-force results.
use crate::orc::*;
use crate::p_text::{esc, got, ref_parse, unesc};
use pokers::*;
use std::cell::RefCell;
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Req { pub exact: bool, pub threads: u8, pub target: f64, pub cancel: bool, pub board: u64, pub dead: u64, pub ranges: Vec<String> }

impl Req {
    /// e.g. "exact t=4 b=f0 d=0 r='AhKd@50'|'22+'"
    pub fn text(&self) -> String {
        format!("{}{} t={} b={} d={} r={}", if self.exact { "exact".to_string() } else { format!("approx:{}", self.target) }, if self.cancel { "!" } else { "" },
            self.threads, hexn(self.board), hexn(self.dead), self.ranges.iter().map(|s| esc(s)).collect::<Vec<_>>().join("|"))
    }
    pub fn parse(s: &str) -> Req {
        let p: Vec<&str> = s.splitn(5, ' ').collect();
        let cancel = p[0].ends_with('!');
        let m = p[0].trim_end_matches('!');
        let num = |x: &str| if x.contains("0x") { u64::from_str_radix(&x[4..], 16).unwrap() } else { cards_mask(&crate::p_eval::parse_cards(&x[2..])) };
        Req {
            exact: m == "exact", cancel,
            target: m.strip_prefix("approx:").map_or(0.0, |x| x.parse().unwrap()),
            threads: p[1][2..].parse().unwrap(), board: num(p[2]), dead: num(p[3]),
            ranges: p[4][2..].split('|').filter(|x| !x.is_empty()).map(unesc).collect(),
        }
    }
    pub fn hand_ranges(&self) -> Vec<HandRange> { HandRange::from_strings(self.ranges.clone()) }
    /// the ranges as the notation defines them
    pub fn ref_ranges(&self) -> Vec<Vec<(u8, u8, u8)>> { self.ranges.iter().map(|t| ref_parse(t).unwrap_or_else(|| got(&HandRange::from_string(t.clone())))).collect() }
    pub fn run(&self) -> (Result<SimulationResults, SimulatorError>, Vec<u8>) {
        let token = Arc::new(AtomicBool::new(self.cancel));
        let seen = RefCell::new(vec![]);
        let r = self.hand_ranges();
        let cb = |x: u8| seen.borrow_mut().push(x);
        let o = if self.exact { exact_equity(&r, self.board, self.dead, self.threads, token, cb) }
        else { approx_equity(&r, self.board, self.dead, self.threads, self.target, token, cb) };
        (o, seen.into_inner())
    }
}
fn hexn(m: u64) -> String { if m >> 52 != 0 { format!("0x{m:x}") } else { names(&mask_cards(m)) } }

/// results of dealing everything, as plain sums
#[derive(Clone)]
pub struct Brute {
    pub n: usize,
    pub wins: Vec<u128>,            // per hand record (player * 1326 + index)
    pub ties: Vec<u128>,
    pub total: Vec<u128>,
    pub shares: Vec<f64>,           // tie shares per hand record
    pub by_mask: Vec<u128>,
    pub deals: u64,
}
pub fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
pub fn reduced(r: &[(u8, u8, u8)]) -> Vec<(u8, u8, u64)> {
    let g = r.iter().fold(0, |g, h| gcd(g, h.2 as u64)).max(1);
    r.iter().map(|h| (h.0, h.1, h.2 as u64 / g)).collect()
}
pub fn free_ranges(q: &Req) -> Vec<Vec<(u8, u8, u8)>> {
    let used = q.board | q.dead;
    q.ref_ranges().into_iter().map(|r| r.into_iter().filter(|h| (1u64 << h.0 | 1u64 << h.1) & used == 0).collect()).collect()
}
pub fn binom(n: u64, k: u64) -> u64 { (0..k).fold(1u128, |a, i| a * (n - i) as u128 / (i + 1) as u128) as u64 }

/// number of player evaluations a brute force needs (an upper bound), to keep cases small
pub fn cost(q: &Req) -> u128 {
    let n = q.ranges.len() as u32;
    let j: u128 = free_ranges(q).iter().map(|r| r.len() as u128).product();
    let used = (q.board | q.dead).count_ones() + 2 * n;
    if used > 52 { return 0 }
    j * binom((52 - used) as u64, 5 - q.board.count_ones().min(5) as u64) as u128 * n as u128
}

pub fn index_table() -> &'static Vec<u16> {
    static T: std::sync::OnceLock<Vec<u16>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = vec![0u16; 64 * 64];
        for (i, (a, b)) in all_hands().into_iter().enumerate() { t[a as usize * 64 + b as usize] = i as u16; t[b as usize * 64 + a as usize] = i as u16 }
        t
    })
}
pub fn hand_index(a: u8, b: u8) -> usize { index_table()[a as usize * 64 + b as usize] as usize }

pub fn brute(q: &Req) -> Brute {
    let r: Vec<Vec<(u8, u8, u64)>> = free_ranges(q).iter().map(|x| reduced(x)).collect();
    let n = r.len();
    let z = vec![0u128; 1326 * n];
    let mut b = Brute { n, wins: z.clone(), ties: z.clone(), total: z, shares: vec![0.0; 1326 * n], by_mask: vec![0; 1 << n], deals: 0 };
    let mut pick = vec![(0u8, 0u8, 0u64); n];
    deal(0, q.board | q.dead, &r, &mut pick, q, &mut b);
    b
}
fn deal(i: usize, used: u64, r: &[Vec<(u8, u8, u64)>], pick: &mut Vec<(u8, u8, u64)>, q: &Req, b: &mut Brute) {
    if i == r.len() {
        let w: u128 = pick.iter().map(|p| p.2 as u128).product();
        let need = 5 - q.board.count_ones() as usize;
        let deck: Vec<u8> = (0..52u8).filter(|c| used >> c & 1 == 0).collect();
        let hs: Vec<[u16; 4]> = pick.iter().map(|p| suit_masks(1 << p.0 | 1 << p.1)).collect();
        let ix: Vec<usize> = pick.iter().enumerate().map(|(k, p)| 1326 * k + hand_index(p.0, p.1)).collect();
        boards(&deck, 0, need, suit_masks(q.board), &mut |bs| {
            let mut best = 0u32;
            let mut who = 0usize;
            for (k, h) in hs.iter().enumerate() {
                let s = fast([h[0] | bs[0], h[1] | bs[1], h[2] | bs[2], h[3] | bs[3]]);
                if s > best { best = s; who = 1 << k } else if s == best { who |= 1 << k }
            }
            for k in &ix { b.total[*k] += w }
            let c = who.count_ones();
            for k in 0..hs.len() { if who >> k & 1 == 1 { if c == 1 { b.wins[ix[k]] += w } else { b.ties[ix[k]] += w; b.shares[ix[k]] += w as f64 / c as f64 } } }
            b.by_mask[who] += w;
            b.deals += 1;
        });
        return;
    }
    for h in &r[i] {
        let m = 1u64 << h.0 | 1u64 << h.1;
        if used & m == 0 { pick[i] = *h; deal(i + 1, used | m, r, pick, q, b) }
    }
}
fn boards(deck: &[u8], from: usize, need: usize, b: [u16; 4], f: &mut dyn FnMut([u16; 4])) {
    if need == 0 { f(b); return }
    for i in from..deck.len() {
        let mut x = b;
        x[(deck[i] % 4) as usize] |= 1 << (deck[i] / 4);
        boards(deck, i + 1, need - 1, x, f);
    }
}
