//! Bounded check of the properties against the compiled library, through its public interface.
//!
//!   harness check ID SEED MILLISECONDS [FIRST]   explore cases until the time is over
//!   harness replay ID SEED INDEX                 run one case and print it
mod back;
mod coll;
mod man;
mod os;
mod sigs;
mod util;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

/// Memory that one case may hold; beyond it the case is reported and the process ends.
const LIMIT: isize = 256 << 20;
struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static LIMITED: Cell<bool> = const { Cell::new(false) };
    static INDEX: Cell<u64> = const { Cell::new(0) };
}
static ID: Mutex<String> = Mutex::new(String::new());
static SEED: AtomicU64 = AtomicU64::new(0);

fn too_much(size: usize) -> ! {
    LIMITED.with(|l| l.set(false));
    let input = CURRENT.with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or_default());
    report(INDEX.with(|i| i.get()), &input, &format!("allocation of {} bytes", size));
    std::process::exit(3)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let over = LIVE.try_with(|v| { v.set(v.get() + l.size() as isize); v.get() > LIMIT }).unwrap_or(false);
        if over && LIMITED.try_with(|l| l.get()).unwrap_or(false) { too_much(l.size()); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as isize));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn report(index: u64, input: &str, error: &str) {
    println!("{{\"violation\":{{\"property\":{},\"seed\":{},\"index\":{},\"input\":{},\"error\":{}}}}}", json(&ID.lock().unwrap()), SEED.load(Ordering::Relaxed), index, json(input), json(error));
}

type Run = fn(&mut Rng) -> Case;
const CASES: &[(&str, Run, &str)] = &[
    ("C01", coll::c01, "listings of a generated file name, half of them mutated, with a full set to attach it to, against a hand-written reader of names"),
    ("C02", coll::c02, "shuffled listings of up to 90 sets with up to 8 volumes each, any volume numbers, against a model of the sets"),
    ("C03", coll::c03, "shuffled listings of up to 60 sets over few times, with orphans, retries, gaps and overlaps, against a model of the chains and their invariants"),
    ("C04", coll::c04, "shuffled listings of up to 60 signatures over few times, some of them twice, against a model of the signature chains"),
    ("C05", back::c05, "backups of up to 300 sets; snapshots, however they are stepped through, compared with the sets and manifests with the file of the set"),
    ("C06", back::c06, "backups with overlapping chains and missing or unreadable signatures, whose archives tell where they come from"),
    ("C07", sigs::c07, "chains of up to 20 signature archives over up to 60 paths with additions, changes and deletions, against a replay"),
    ("C08", sigs::c08, "members with true, malformed, truncated and extreme signature headers, against the block arithmetic"),
    ("C09", sigs::c09, "archives with random header fields, against the fields written; the line displayed against its columns"),
    ("C10", man::c10, "manifests written as duplicity does for random contents, against the contents"),
    ("C11", man::c11, "manifests with lines and words added, removed, replaced and cut and readers that fail, against a reading line by line"),
    ("C12", man::c12, "quoted, plain and malformed words and hashes, against the original bytes"),
    ("C13", man::c13, "manifests over random paths cut into volumes, against a search of all volumes"),
    ("C14", sigs::c14, "sequences of up to 14 calls with any arguments over up to 300 snapshots, against a counter"),
    ("C15", coll::c15, "pairs of permuted listings"),
    ("C16", man::c16, "calendar dates from year 0 to 9999 and texts of another shape, against a count of days"),
    ("C17", back::c17, "40 to 120 requests over random backups of up to 36 chains with failures injected and results held, against a model of the cache"),
    ("C18", os::c18, "times around now, around the turns of years and of years 1 to 9998 in nine zones, against a calendar and the rules of the zones"),
    ("C19", os::c19, "scratch directories with any names, kinds and contents, given in several ways and changed during use, against what was written to them"),
    ("C20", sigs::c20, "chains of up to 3 archives over up to 900 paths, printed through the chain and through the backup, against the columns of the fields written"),
    ("C21", coll::c21, "listings of up to 10 sets, printed as a whole and one by one, against a text made from a model of the listing"),
];

fn run(f: Run, seed: u64, index: u64) -> Case {
    INDEX.with(|i| i.set(index));
    LIVE.with(|v| v.set(0));
    LIMITED.with(|l| l.set(true));
    trying("");
    // some backends give a few bytes at a time
    let mut r = Rng::new(seed, index ^ 1 << 60);
    let step = if r.chance(1, 5) { *r.pick(&[1, 2, 3, 5, 7, 11, 100, 511, 513, 4096]) } else { usize::MAX };
    STEP.with(|s| s.set(step));
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut Rng::new(seed, index))));
    LIMITED.with(|l| l.set(false));
    match r {
        Ok(mut c) => {
            if c.error.is_some() && step != usize::MAX { c.input.push_str(&format!(" (streams give at most {} bytes at a time)", step)); }
            c
        }
        Err(_) => Case::bad(CURRENT.with(|c| c.borrow().clone()), format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i).replace('\n', " ");
        PANIC.with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = s; });
    }));
    let a: Vec<String> = std::env::args().collect();
    let (mode, id) = (&a[1][..], &a[2][..]);
    let seed: u64 = a[3].parse().unwrap();
    let (_, f, rule) = *CASES.iter().find(|c| c.0 == id).expect("property");
    *ID.lock().unwrap() = id.to_string();
    SEED.store(seed, Ordering::Relaxed);
    if ["C09", "C20", "C21"].contains(&id) { os::print_zone(); }
    if mode == "replay" {
        let index: u64 = a[4].parse().unwrap();
        let c = run(f, seed, index);
        println!("{}", c.input);
        match c.error { Some(e) => { println!("violation: {}", e); std::process::exit(1) } None => println!("no violation") }
        return;
    }
    let budget = Duration::from_millis(a[4].parse().unwrap());
    let first: u64 = a.get(5).map_or(0, |x| x.parse().unwrap());
    let t0 = Instant::now();
    let workers: u64 = 6;
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, Case)>>> = Arc::new(Mutex::new(None));
    let progress: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..workers).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let mut hs = vec![];
    for w in 0..workers {
        let (stop, found, progress) = (stop.clone(), found.clone(), progress.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut seen: HashSet<u64> = HashSet::new();
            let mut samples: Vec<String> = vec![];
            let (mut n, mut index) = (0u64, first + w);
            while !stop.load(Ordering::Relaxed) && t0.elapsed() < budget {
                progress[w as usize].0.store(index, Ordering::Relaxed);
                progress[w as usize].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                let c = run(f, seed, index);
                n += 1;
                if c.error.is_some() {
                    let mut g = found.lock().unwrap();
                    if g.as_ref().map_or(true, |x| index < x.0) { *g = Some((index, c)); }
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
                if !c.trivial && seen.len() < 5_000_000 && seen.insert(hash(&c.input)) && samples.is_empty() && w < 3 {
                    samples.push(c.input.chars().take(700).collect());
                }
                index += workers;
            }
            progress[w as usize].1.store(u64::MAX, Ordering::Relaxed);
            (n, seen, samples)
        }).unwrap());
    }
    // a case that does not end is a violation
    loop {
        std::thread::sleep(Duration::from_millis(50));
        let now = t0.elapsed().as_millis() as u64;
        let mut busy = false;
        for p in progress.iter() {
            let s = p.1.load(Ordering::Relaxed);
            if s == u64::MAX { continue; }
            busy = true;
            if now.saturating_sub(s) > 20_000 {
                report(p.0.load(Ordering::Relaxed), "(replay the index)", "no end after 20 s");
                std::process::exit(3);
            }
        }
        if !busy { break; }
    }
    let mut n = 0;
    let mut all: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    for h in hs { let (k, s, v) = h.join().unwrap(); n += k; all.extend(s); samples.extend(v); }
    let s: Vec<String> = samples.iter().map(|s| json(s)).collect();
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"seconds\":{:.1}}}", n, all.len(), json(rule), s.join(","), t0.elapsed().as_secs_f64());
    let g = found.lock().unwrap();
    if let Some((i, c)) = &*g { report(*i, &c.input, c.error.as_ref().unwrap()); std::process::exit(1); }
}
