//! Replays cases (one JSON object per line) against the implementation and records one event per
//! case. It judges nothing: panics, hangs and memory use are recorded as data.
mod conv;
mod hunt;
mod ops;
mod tables;

use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

struct Count;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = CUR.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(c, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: Count = Count;

pub fn mem_reset() -> usize {
    let c = CUR.load(SeqCst);
    PEAK.store(c, SeqCst);
    c
}
pub fn mem_peak(base: usize) -> usize {
    PEAK.load(SeqCst).saturating_sub(base)
}

/// Phase of the case that is executed, reported with a panic.
pub static PHASE: AtomicUsize = AtomicUsize::new(0);
pub const PHASES: [&str; 12] = [
    "build", "size", "plain", "compressed", "parse", "reparse", "parsez", "prefix", "render", "reser", "op", "verify",
];
pub fn phase(n: &str) {
    PHASE.store(PHASES.iter().position(|x| *x == n).expect("phase"), SeqCst);
}

static CASE: AtomicI64 = AtomicI64::new(-1);
static STARTED: AtomicU64 = AtomicU64::new(0);

pub fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

/// One call in a process of its own: the case on the standard input, the result on the output.
fn one() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_millis(7000));
        std::process::exit(77);
    });
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let v: Value = serde_json::from_str(&s).unwrap();
    println!("{}", ops::call(&v));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "hunt" {
        return hunt::main(&a[2..]);
    }
    if a[1] == "one" {
        return one();
    }
    let (inp, outp, skip) = (&a[1], &a[2], a[3].parse::<usize>().unwrap());
    let limit = a[4].parse::<u64>().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::BufReader::new(std::fs::File::open(inp).unwrap());
    let mut out = std::io::BufWriter::new(
        std::fs::OpenOptions::new().create(true).append(true).open(outp).unwrap(),
    );
    let cur = format!("{}.cur", outp);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = STARTED.load(SeqCst);
        if CASE.load(SeqCst) >= 0 && s != 0 && now().saturating_sub(s) > limit {
            // A hang: the driver records it and goes on behind this case
            let _ = std::fs::write(&cur, PHASES[PHASE.load(SeqCst)]);
            std::process::exit(77);
        }
    });
    let cfg = json!({"m": cfg!(feature = "mdns"), "d": cfg!(feature = "dnssec")});
    for (n, line) in inp.lines().enumerate() {
        let line = line.unwrap();
        if n < skip || line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let kind = case["k"].as_str().unwrap().to_string();
        // flushed before running so that a crash of the process leaves whole lines only
        PHASE.store(0, SeqCst);
        STARTED.store(now(), SeqCst);
        CASE.store(n as i64, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| ops::run(&kind, &case["c"])));
        CASE.store(-1, SeqCst);
        let o = match r {
            Ok(v) => v,
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".into()
                };
                let m: String = m.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').take(200).collect();
                json!({"panic": m, "ph": PHASES[PHASE.load(SeqCst)]})
            }
        };
        let ev = json!({"i": n, "x": match o.get("panic").and_then(|m| m.as_str()) { Some(m) if m.contains(" in case") => 2, Some(_) => 1, None => 0 }, "k": kind, "g": case.get("g").cloned().unwrap_or(json!("")), "cf": cfg, "c": case["c"], "o": o});
        serde_json::to_writer(&mut out, &ev).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
