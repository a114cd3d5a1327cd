//! Case driver: deterministic cases, panic capture, hang and memory watchdog, replay.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAXT: usize = 64;
pub struct Counting;
static LIVE: [AtomicI64; MAXT] = [const { AtomicI64::new(0) }; MAXT];
static PEAK: [AtomicI64; MAXT] = [const { AtomicI64::new(0) }; MAXT];
thread_local! { static SLOT: Cell<usize> = const { Cell::new(0) }; }
fn slot() -> usize { SLOT.try_with(|s| s.get()).unwrap_or(0) }
fn bump(n: i64) {
    let s = slot();
    let v = LIVE[s].fetch_add(n, Relaxed) + n;
    if v > PEAK[s].load(Relaxed) { PEAK[s].store(v, Relaxed) }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { bump(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { bump(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { bump(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { bump(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
/// peak of live bytes (of this thread) while f runs, minus what was live before
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let s = slot();
    let before = LIVE[s].load(Relaxed);
    PEAK[s].store(before, Relaxed);
    let r = f();
    (r, PEAK[s].load(Relaxed) - before)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let k = *self.pick(&[1usize, 2, 4, 256, 256]);
        (0..n).map(|_| self.below(k) as u8).collect()
    }
    pub fn interesting_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.u64(),
            1 => self.u64() >> self.below(64),
            2 => { let b = 1u64 << self.below(64); b.wrapping_add(self.below(5) as u64).wrapping_sub(2) }
            3 => (self.below(4) as u64).wrapping_sub(2),
            4 => (i64::MIN as u64).wrapping_add(self.below(5) as u64).wrapping_sub(2),
            _ => self.below(300) as u64,
        }
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub notes: RefCell<Vec<String>>,
    pub verbose: bool,
    pub digest: u64,
    pub nontrivial: bool,
}
impl Ctx {
    pub fn note(&self, f: impl FnOnce() -> String) { if self.verbose { self.notes.borrow_mut().push(f()) } }
    pub fn hash(&mut self, b: &[u8]) {
        let mut h = self.digest ^ 0xcbf29ce484222325 ^ b.len() as u64;
        for &x in b { h = (h ^ x as u64).wrapping_mul(0x100000001b3); }
        self.digest = h;
    }
}
pub type Case = fn(&mut Ctx) -> Result<(), String>;
pub struct Prop { pub id: &'static str, pub case: Case, pub quick: u64, pub thorough: u64, pub rule: &'static str, pub hang_s: u64 }

fn seed_of(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03);
    for b in id.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}
fn run_case(p: &Prop, seed: u64, idx: u64, thorough: bool, verbose: bool) -> (Result<(), String>, Ctx) {
    let mut ctx = Ctx { rng: Rng::new(seed_of(seed, p.id, idx)), idx, thorough, notes: RefCell::new(vec![]), verbose, digest: 0, nontrivial: false };
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(&mut ctx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone()))),
    };
    (r, ctx)
}
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o
}
/// short text of a byte string
pub fn hex(b: &[u8]) -> String {
    if b.len() <= 4096 { b.iter().map(|x| format!("{:02x}", x)).collect() }
    else { format!("{}..{} bytes..{}", b[..1024].iter().map(|x| format!("{:02x}", x)).collect::<String>(), b.len(), b[b.len() - 256..].iter().map(|x| format!("{:02x}", x)).collect::<String>()) }
}

pub fn main_with(props: &[Prop]) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let id = &a[1];
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no such property {id}"); std::process::exit(3) });
    let seed: u64 = get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let thorough = get("--tier").map(|t| t == "thorough").unwrap_or(false);
    let out = get("--out").unwrap_or("/dev/null".into());
    let budget = Duration::from_secs(get("--budget").map(|x| x.parse().unwrap()).unwrap_or(60));
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
    let only: Option<u64> = get("--only").map(|x| x.parse().unwrap());
    let total = get("--cases").map(|x| x.parse().unwrap()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let threads = if only.is_some() { 1 } else { get("--threads").map(|x| x.parse().unwrap()).unwrap_or(8) };
    let next = AtomicU64::new(only.unwrap_or(0));
    let end = only.map(|x| x + 1).unwrap_or(total);
    let evals = AtomicU64::new(0);
    let fail: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    static RUNNING: [AtomicU64; MAXT] = [const { AtomicU64::new(u64::MAX) }; MAXT];
    static SINCE: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
    let t0 = Instant::now();
    let write_fail = |idx: u64, msg: &str, notes: &str| {
        let s = format!("{{\"property\":\"{}\",\"seed\":{},\"tier\":\"{}\",\"case\":{},\"failure\":\"{}\",\"input\":\"{}\",\"replay_cmd\":\"python3 /verif/tools/check.py {} --replay <this file>\"}}\n",
            p.id, seed, if thorough { "thorough" } else { "quick" }, idx, esc(msg), esc(notes), p.id);
        let _ = std::fs::write(&out, s);
        println!("FAIL case={} {}", idx, msg.replace('\n', " "));
    };
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 1..=threads {
            let (next, evals, fail, stop, seen, samples) = (&next, &evals, &fail, &stop, &seen, &samples);
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                SLOT.with(|s| s.set(t));
                let mut mine = HashSet::new();
                loop {
                    if stop.load(Relaxed) || t0.elapsed() > budget { break }
                    let idx = next.fetch_add(1, Relaxed);
                    if idx >= end { break }
                    SINCE[t].store(t0.elapsed().as_millis() as u64, SeqCst);
                    RUNNING[t].store(idx, SeqCst);
                    let live = LIVE[t].load(Relaxed);
                    let (r, ctx) = run_case(p, seed, idx, thorough, false);
                    RUNNING[t].store(u64::MAX, SeqCst);
                    LIVE[t].store(live, Relaxed);
                    evals.fetch_add(1, Relaxed);
                    if ctx.nontrivial { mine.insert(ctx.digest); }
                    if let Err(m) = r {
                        let (r2, c2) = run_case(p, seed, idx, thorough, true);
                        let m = r2.err().unwrap_or(format!("{m} (not reproduced when run again)"));
                        let mut f = fail.lock().unwrap();
                        if f.as_ref().map_or(true, |x| x.0 > idx) { *f = Some((idx, m, c2.notes.borrow().join("\n"))); }
                        stop.store(true, Relaxed);
                        break;
                    }
                    if idx % 997 == 5 && samples.lock().unwrap().len() < 5 {
                        let (_, c2) = run_case(p, seed, idx, thorough, true);
                        let mut s = c2.notes.borrow().join("; ");
                        if s.len() > 400 { s = s.chars().take(400).collect(); }
                        samples.lock().unwrap().push(s);
                    }
                }
                seen.lock().unwrap().extend(mine);
            }).unwrap());
        }
        // watchdog
        loop {
            std::thread::sleep(Duration::from_millis(10));
            for t in 1..=threads {
                let idx = RUNNING[t].load(SeqCst);
                if idx == u64::MAX { continue }
                let ran = (t0.elapsed().as_millis() as u64).saturating_sub(SINCE[t].load(SeqCst));
                let m = if ran > p.hang_s * 1000 { Some(format!("no result after {} s (does not terminate)", p.hang_s)) }
                    else if LIVE[t].load(Relaxed) > (2500i64 << 20) { Some("uses more than 2.5 GB of memory on a small input".to_string()) } else { None };
                if let Some(m) = m {
                    if RUNNING[t].load(SeqCst) == idx { write_fail(idx, &m, "regenerate the input with the replay command"); std::process::exit(1) }
                }
            }
            if hs.iter().all(|h| h.is_finished()) { break }
        }
    });
    let n = evals.load(SeqCst);
    let d = seen.lock().unwrap().len();
    if let Some((idx, m, notes)) = fail.lock().unwrap().clone() {
        write_fail(idx, &m, &notes);
        std::process::exit(1);
    }
    let ss: Vec<String> = samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"planned\":{},\"rule\":\"{}\",\"samples\":[{}],\"wall_s\":{:.2}}}", n, d, total, esc(p.rule), ss.join(","), t0.elapsed().as_secs_f64());
}
