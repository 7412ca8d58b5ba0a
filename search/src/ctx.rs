//! Running many cases in parallel, catching panics, aborts and hangs.
use crate::orc::Rng;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Check = fn(&str) -> Result<bool, String>;

pub struct Ctx {
    pub deadline: Instant,
    pub seed: u64,
    pub threads: usize,
    pub evals: AtomicU64,
    pub distinct: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub notes: Mutex<Vec<String>>,
    pub found: Mutex<Option<(String, String)>>,
    pub stop: AtomicBool,
}

/// what each worker is running, for the panic hook and the watchdog
pub static SLOTS: Mutex<Vec<Option<(String, Instant)>>> = Mutex::new(Vec::new());
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub const HANG: Duration = Duration::from_secs(150);

impl Ctx {
    pub fn new(seed: u64, secs: f64, threads: usize) -> Ctx {
        SLOTS.lock().unwrap().resize(threads + 1, None);
        Ctx {
            deadline: Instant::now() + Duration::from_secs_f64(secs),
            seed, threads,
            evals: AtomicU64::new(0), distinct: AtomicU64::new(0),
            samples: Mutex::new(vec![]), notes: Mutex::new(vec![]), found: Mutex::new(None),
            stop: AtomicBool::new(false),
        }
    }
    pub fn time_left(&self) -> bool { Instant::now() < self.deadline && !self.stop.load(SeqCst) }
    pub fn fail(&self, case: String, why: String) {
        let mut f = self.found.lock().unwrap();
        if f.is_none() { *f = Some((case, why)) }
        self.stop.store(true, SeqCst);
    }
    pub fn note(&self, s: impl Into<String>) { self.notes.lock().unwrap().push(s.into()) }
    pub fn sample(&self, s: &str) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 { v.push(s.chars().take(300).collect()) }
    }
    /// a block of evaluations done by a hand-written loop; `case` describes it for the hook
    pub fn block<T>(&self, slot: usize, case: &str, f: impl FnOnce() -> T) -> Option<T> {
        SLOTS.lock().unwrap()[slot] = Some((case.to_string(), Instant::now() + Duration::from_secs(600)));
        let r = catch_unwind(AssertUnwindSafe(f));
        SLOTS.lock().unwrap()[slot] = None;
        match r {
            Ok(v) => Some(v),
            Err(_) => { self.fail(case.to_string(), format!("panicked: {}", LAST_PANIC.lock().unwrap())); None }
        }
    }
    /// fixed cases first (all of them), then generated ones until time or `max` is used up
    pub fn cases(&self, fixed: &[String], max: u64, gen: impl Fn(&mut Rng) -> String + Sync, check: Check) {
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..self.threads {
                let (gen, next) = (&gen, &next);
                sc.spawn(move || {
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut rng = Rng::new(self.seed.wrapping_mul(1000).wrapping_add(t as u64 + 1));
                    loop {
                        if self.stop.load(SeqCst) { break }
                        let k = next.fetch_add(1, SeqCst);
                        let case = if (k as usize) < fixed.len() { fixed[k as usize].clone() } else {
                            if k >= max + fixed.len() as u64 || !self.time_left() { break }
                            gen(&mut rng)
                        };
                        match run_one(t, &case, check) {
                            Ok(nontrivial) => {
                                self.evals.fetch_add(1, SeqCst);
                                if nontrivial && seen.len() < 2_000_000 && seen.insert(hash(&case)) {
                                    self.distinct.fetch_add(1, SeqCst);
                                }
                                if k % 97 == 5 { self.sample(&case) }
                            }
                            Err(why) => self.fail(case, why),
                        }
                    }
                });
            }
        });
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
    h
}

pub fn run_one(slot: usize, case: &str, check: Check) -> Result<bool, String> {
    SLOTS.lock().unwrap()[slot] = Some((case.to_string(), Instant::now()));
    let r = catch_unwind(AssertUnwindSafe(|| check(case)));
    SLOTS.lock().unwrap()[slot] = None;
    match r {
        Ok(x) => x,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.lock().unwrap())),
    }
}

/// Panics are recorded; one that cannot unwind (a violated precondition of an unsafe call,
/// a panic in a destructor) ends the process, so the running cases are printed first.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string().replace('\n', " ");
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            report_running("abort", &msg);
            std::process::exit(3);
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = msg;
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        let hung: Vec<String> = SLOTS.lock().unwrap().iter().flatten()
            .filter(|(_, t)| Instant::now().checked_duration_since(*t).map_or(false, |d| d > HANG)).map(|(c, _)| c.clone()).collect();
        if !hung.is_empty() {
            for c in hung { println!("CANDIDATE hang\t{c}") }
            std::process::exit(3);
        }
    });
}
fn report_running(kind: &str, msg: &str) {
    println!("ABORT {msg}");
    if let Ok(s) = SLOTS.lock() { for (c, _) in s.iter().flatten() { println!("CANDIDATE {kind}\t{c}") } }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
