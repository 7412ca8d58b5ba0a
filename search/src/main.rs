mod ctx;
mod orc;
mod p_eval;
mod p_text;
mod eq;
mod p_eq;
use ctx::*;
use std::sync::atomic::Ordering::SeqCst;

pub struct Prop { pub id: &'static str, pub rule: &'static str, pub run: fn(&Ctx), pub check: Check }

fn props() -> Vec<Prop> {
    let mut v = p_eval::props();
    v.extend(p_text::props());
    v.extend(p_eq::props());
    v
}

/// search run ID SECONDS SEED        (spawns itself, survives aborts and hangs of the code under test)
/// search child ID SECONDS SEED
/// search replay ID CASE             exit 0 holds, 1 fails
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "run" => std::process::exit(run(&a[2], &a[3], &a[4])),
        "child" => std::process::exit(child(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap())),
        "replay" => std::process::exit(replay(&a[2], &a[3])),
        _ => panic!("usage"),
    }
}

fn find(id: &str) -> Prop { props().into_iter().find(|p| p.id == id).expect("unknown property") }

fn child(id: &str, secs: f64, seed: u64) -> i32 {
    orc::self_test();
    install_hook();
    let p = find(id);
    let c = Ctx::new(seed, secs, std::thread::available_parallelism().map_or(4, |n| n.get()).min(8));
    (p.run)(&c);
    let found = c.found.lock().unwrap().clone();
    let list = |v: &Vec<String>| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    println!("RESULT {{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"notes\":[{}],\"found\":{}}}",
        c.evals.load(SeqCst), c.distinct.load(SeqCst), json_str(p.rule), list(&c.samples.lock().unwrap()), list(&c.notes.lock().unwrap()),
        match &found { None => "null".to_string(), Some((k, w)) => format!("{{\"case\":{},\"why\":{}}}", json_str(k), json_str(w)) });
    if found.is_some() { 1 } else { 0 }
}

fn replay(id: &str, case: &str) -> i32 {
    install_hook();
    let p = find(id);
    SLOTS.lock().unwrap().resize(1, None);
    match run_one(0, case, p.check) {
        Ok(_) => { println!("HOLDS property={id} case={case}"); 0 }
        Err(w) => { println!("FAILS property={id} case={case}\n  {w}"); 1 }
    }
}

fn run(id: &str, secs: &str, seed: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(&exe).args(["child", id, secs, seed]).output().expect("child");
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    if let Some(l) = out.lines().find(|l| l.starts_with("RESULT ")) {
        println!("{l}");
        return o.status.code().unwrap_or(2);
    }
    // the child died: which of the running cases does it?
    let abort = out.lines().find(|l| l.starts_with("ABORT ")).unwrap_or("the process died").to_string();
    for l in out.lines().filter(|l| l.starts_with("CANDIDATE ")) {
        let (kind, case) = l["CANDIDATE ".len()..].split_once('\t').unwrap();
        let mut ch = std::process::Command::new(&exe).args(["replay", id, case])
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
        let t = std::time::Instant::now();
        let died = loop {
            match ch.try_wait().unwrap() {
                Some(s) => break if s.success() { None } else { Some(abort.clone()) },
                None => if t.elapsed().as_secs() > 60 { let _ = ch.kill(); let _ = ch.wait(); break Some(format!("{kind}: no answer within 60 s")) },
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        };
        if let Some(why) = died {
            println!("RESULT {{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"\",\"samples\":[],\"notes\":[],\"found\":{{\"case\":{},\"why\":{}}}}}", json_str(case), json_str(&why));
            return 1;
        }
    }
    eprintln!("{out}\n{}", String::from_utf8_lossy(&o.stderr));
    println!("NORESULT {}", json_str(&abort));
    2
}
