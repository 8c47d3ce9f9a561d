//! Exploration driver: enumeration, parallel execution, counters, violations, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Violation { pub case: String, pub msg: String }

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub only: Option<String>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub viol: Mutex<Vec<Violation>>,
    pub samples: Mutex<Vec<String>>,
    pub distinct: Mutex<HashSet<u64>>,
    pub extra: Mutex<BTreeMap<String, u64>>,
    pub sections: Mutex<Vec<(String, u64)>>,
    pub assumptions: Mutex<Vec<String>>,
    pub known: Vec<(String, String)>,
    pub known_hit: Mutex<BTreeMap<String, u64>>,
    pub threads: usize,
    pub digest: Mutex<BTreeMap<String, u64>>,
}

thread_local! {
    static CASE: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static OPS: Cell<u64> = const { Cell::new(0) };
    pub static TRACES: Cell<u64> = const { Cell::new(0) };
    static OUTS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    pub static NCPU: Cell<usize> = const { Cell::new(2) };
}

/// Counts one call into the implementation (a transition of the explored system).
#[inline] pub fn op() { OPS.with(|o| o.set(o.get() + 1)); }
/// Counts one model trace / prediction compared with what the implementation did.
#[inline] pub fn trace() { TRACES.with(|o| o.set(o.get() + 1)); }
pub fn outcome(h: u64) { OUTS.with(|o| o.borrow_mut().push(h)); }

/// The library asks the OS for the number of CPUs through this function; the harness decides the answer.
#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, size: usize, mask: *mut u8) -> i32 {
    let n = NCPU.try_with(|n| n.get()).unwrap_or(2);
    for i in 0..size { *mask.add(i) = 0; }
    for i in 0..n.min(size * 8) { *mask.add(i / 8) |= 1 << (i % 8); }
    0
}
pub fn set_cpus(n: usize) { NCPU.with(|c| c.set(n)); }

// ---- bytes allocated and not yet freed by this thread
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
#[cfg(feature = "fine")]
fn allocated(p: *mut u8, n: usize) -> *mut u8 { crate::fine::on_alloc(p, n); p }
#[cfg(not(feature = "fine"))]
#[inline(always)]
fn allocated(p: *mut u8, _: usize) -> *mut u8 { p }
struct Counting;
#[cfg(not(miri))]
#[global_allocator]
static ALLOC: Counting = Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64)); allocated(std::alloc::System.alloc(l), l.size()) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64)); allocated(std::alloc::System.alloc_zeroed(l), l.size()) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64)); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64)); std::alloc::System.realloc(p, l, n) }
}
pub fn last_panic() -> String { LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default() }
pub fn live() -> i64 { LIVE.with(|c| c.get()) }

static WD: Mutex<Vec<(usize, Instant, String)>> = Mutex::new(Vec::new());
static WD_NEXT: AtomicUsize = AtomicUsize::new(0);
static PROP: Mutex<String> = Mutex::new(String::new());

pub const HANG_S: u64 = 150;

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b { h = (h ^ x as u64).wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}

fn replay_path(prop: &str, n: usize) -> String { {
    let st = std::env::var("MC_STAGE").unwrap_or_default();
    format!("/verif/replay/{prop}-{}{n}.txt", if st.is_empty() || st == "main" { String::new() } else { format!("{st}-{}", std::env::var("MC_PART").unwrap_or_default()) })
} }

fn write_replay(prop: &str, n: usize, case: &str, msg: &str) -> String {
    let p = replay_path(prop, n);
    let _ = std::fs::create_dir_all("/verif/replay");
    let _ = std::fs::write(&p, format!("property={prop}\ntier={}\nstage={}\ncase={case}\n\n{msg}\n\nreplay with: ./check {prop} replay {p}\n", std::env::args().nth(2).unwrap_or_default(), std::env::var("MC_STAGE").unwrap_or_else(|_| "main".into())));
    p
}

extern "C" fn on_signal(sig: i32) {
    let case = CASE.try_with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or_default()).unwrap_or_default();
    let prop = PROP.try_lock().map(|p| p.clone()).unwrap_or_default();
    let p = write_replay(&prop, 0, &case, &format!("the process received fatal signal {sig} while running this case"));
    println!("case {case}: fatal signal {sig}");
    println!("VIOLATION property={prop} replay={p}");
    unsafe { libc::_exit(1) }
}

/// called by the address sanitizer, when the harness is built with it, before it prints its report
#[no_mangle]
pub extern "C" fn __asan_on_error() {
    let case = CASE.try_with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or_default()).unwrap_or_default();
    eprintln!("current case={case}");
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, only: Option<String>) -> Self {
        *PROP.lock().unwrap() = prop.to_string();
        let p2 = prop.to_string();
        std::panic::set_hook(Box::new(move |i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let full = format!("panic at {loc}: {m}");
            LAST_PANIC.lock().map(|mut l| *l = full.clone()).ok();
            PANIC.with(|p| *p.borrow_mut() = Some(full.clone()));
            // unwinding cannot leave extern "C" functions: the process would abort next
            if m.contains("cannot unwind") {
                let case = CASE.with(|c| c.borrow().clone());
                let p = write_replay(&p2, 0, &case, &full);
                println!("case {case}: {full}");
                println!("VIOLATION property={p2} replay={p}");
                unsafe { libc::_exit(1) }
            }
        }));
        if !cfg!(miri) {
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
                unsafe { libc::signal(s, on_signal as *const () as usize); }
            }
            let p3 = prop.to_string();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_secs(2));
                let w = WD.lock().unwrap();
                if let Some(x) = w.iter().find(|x| x.1.elapsed().as_secs() > HANG_S) {
                    let p = write_replay(&p3, 0, &x.2, "no result within the time limit (hang or deadlock)");
                    println!("case {}: no result after {HANG_S} s", x.2);
                    println!("VIOLATION property={p3} replay={p}");
                    unsafe { libc::_exit(1) }
                }
            });
        }
        let mut known = vec![];
        if let Ok(k) = std::fs::read_to_string("/verif/known_findings.txt") {
            for l in k.lines() {
                if let Some(r) = l.strip_prefix("finding: property=") {
                    let (id, rest) = r.split_once(' ').unwrap_or((r, ""));
                    if id == prop {
                        // finding: property=<id> key=<key> <description>
                        if let Some(k) = rest.strip_prefix("key=") { let (k, d) = k.split_once(' ').unwrap_or((k, "")); known.push((k.to_string(), d.to_string())); }
                    }
                }
            }
        }
        Self {
            prop: prop.into(), tier, seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(), only, states: AtomicU64::new(0), transitions: AtomicU64::new(0), traces: AtomicU64::new(0),
            viol: Mutex::new(vec![]), samples: Mutex::new(vec![]), distinct: Mutex::new(HashSet::new()), extra: Mutex::new(BTreeMap::new()),
            sections: Mutex::new(vec![]), assumptions: Mutex::new(vec![]), known, known_hit: Mutex::new(BTreeMap::new()),
            threads: threads_ext::cpus(), digest: Mutex::new(BTreeMap::new()),
        }
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn count(&self, k: &str, n: u64) { *self.extra.lock().unwrap().entry(k.into()).or_default() += n; }
    pub fn fail(&self, msg: String) {
        let case = CASE.with(|c| c.borrow().clone());
        self.fail_at(case, msg);
    }
    pub fn fail_at(&self, case: String, msg: String) {
        let mut v = self.viol.lock().unwrap();
        if v.len() < 50 { v.push(Violation { case, msg }); }
    }
    /// A failure that is a listed finding when `key` is in the known-findings file.
    pub fn fail_key(&self, key: &str, msg: String) {
        if self.known.iter().any(|k| k.0 == key) { *self.known_hit.lock().unwrap().entry(key.into()).or_default() += 1; return; }
        self.fail(msg);
    }
    pub fn failing(&self) -> bool { self.viol.lock().unwrap().len() >= 20 }
    pub fn sample(&self, s: String) { let mut v = self.samples.lock().unwrap(); if v.len() < 6 { v.push(s); } }
    pub fn digest(&self, k: String, h: u64) { self.digest.lock().unwrap().insert(k, h); }

    /// Explores every item of one section, in parallel. `f` returns Err(description) if the property fails there.
    pub fn explore<T: Sync>(&self, section: &str, items: &[T], show: impl Fn(&T) -> String + Sync, f: impl Fn(&T) -> Result<(), String> + Sync) {
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let run = || {
            let slot = WD_NEXT.fetch_add(1, SeqCst);
            loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= items.len() { break; }
                let case = format!("{section}/{i}");
                if let Some(o) = &self.only { if *o != case { continue; } }
                if self.failing() { break; }
                let it = &items[i];
                CASE.with(|c| *c.borrow_mut() = case.clone());
                if cfg!(miri) { eprintln!("current case={case}"); } else { WD.lock().unwrap().push((slot, Instant::now(), case.clone())); }
                set_cpus(2);
                PANIC.with(|p| *p.borrow_mut() = None);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(it)));
                match r {
                    Ok(Ok(())) => {},
                    Ok(Err(m)) => self.fail(format!("{}\n  {m}", show(it))),
                    Err(_) => {
                        let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default());
                        self.fail(format!("{}\n  {m}", show(it)))
                    },
                }
                if !cfg!(miri) { WD.lock().unwrap().retain(|x| x.0 != slot); }
                done.fetch_add(1, SeqCst);
                if i == items.len() / 2 { self.sample(format!("{case}: {}", show(it))); }
            }
            self.flush();
        };
        if cfg!(miri) || self.threads <= 1 { run(); } else {
            std::thread::scope(|s| { for _ in 0..self.threads { std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, run).unwrap(); } });
        }
        let d = done.load(SeqCst);
        self.states.fetch_add(d, SeqCst);
        self.sections.lock().unwrap().push((section.to_string(), d));
    }
    /// merge thread-local counters
    pub fn flush(&self) {
        self.transitions.fetch_add(OPS.with(|o| o.replace(0)), SeqCst);
        self.traces.fetch_add(TRACES.with(|o| o.replace(0)), SeqCst);
        let o = OUTS.with(|o| std::mem::take(&mut *o.borrow_mut()));
        if !o.is_empty() { self.distinct.lock().unwrap().extend(o); }
    }

    pub fn finish(self) -> i32 {
        self.flush();
        let viol = self.viol.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let esc = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o };
        let sec = self.sections.into_inner().unwrap();
        let distinct = self.distinct.into_inner().unwrap().len();
        let mut cov = format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"distinct_outcomes\": {}, \"exhaustive\": {}",
            self.states.load(SeqCst), self.transitions.load(SeqCst), self.traces.load(SeqCst), distinct, viol.is_empty() && self.only.is_none());
        cov += &format!(", \"sections\": {{{}}}", sec.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
        for (k, v) in self.extra.into_inner().unwrap() { cov += &format!(", {}: {}", esc(&k), v); }
        cov += &format!(", \"samples\": [{}]", self.samples.into_inner().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
        let j = format!("{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{{cov}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.1}, \"violations\": {}\n}}\n",
            esc(&self.prop), if self.tier == Tier::Quick { "quick" } else { "thorough" }, self.seed,
            self.assumptions.into_inner().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), wall, viol.len());
        if self.only.is_none() {
            if let Ok(f) = std::env::var("MC_EVIDENCE") { let _ = std::fs::write(f, &j); }
        }
        if let Ok(f) = std::env::var("MC_DIGEST") {
            let d = self.digest.into_inner().unwrap();
            let _ = std::fs::write(f, d.iter().map(|(k, v)| format!("{k}\t{v:016x}\n")).collect::<String>());
        }
        for (k, n) in self.known_hit.into_inner().unwrap() {
            let d = self.known.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
            println!("KNOWN-FINDING: property={} {d} ({n} cases)", self.prop);
        }
        println!("{}: {} states, {} transitions, {} traces validated, {} distinct outcomes, {} violations, {:.1} s", self.prop, self.states.load(SeqCst), self.transitions.load(SeqCst), self.traces.load(SeqCst), distinct, viol.len(), wall);
        for (n, v) in viol.iter().enumerate().take(5) {
            let p = write_replay(&self.prop, n, &v.case, &v.msg);
            println!("case {}: {}", v.case, v.msg);
            println!("VIOLATION property={} replay={p}", self.prop);
        }
        if viol.is_empty() { 0 } else { 1 }
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

// number of harness threads: the real CPU count (the affinity call above is the harness's own)
#[allow(non_snake_case)]
pub mod threads_ext {
    pub fn cpus() -> usize {
        if let Ok(s) = std::env::var("MC_THREADS") { if let Ok(n) = s.parse() { return n; } }
        let n = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) };
        if n < 1 { 1 } else { (n as usize).min(16) }
    }
}

/// All assignments that differ from the base in at most `k` dimensions; simplest first.
pub fn deviations<T: Clone>(base: &T, dims: &[Vec<Box<dyn Fn(&mut T) + Sync + Send>>], k: usize) -> Vec<T> {
    let mut out = vec![base.clone()];
    fn rec<T: Clone>(from: usize, left: usize, cur: &T, dims: &[Vec<Box<dyn Fn(&mut T) + Sync + Send>>], out: &mut Vec<T>) {
        if left == 0 { return; }
        for d in from..dims.len() {
            for alt in &dims[d] {
                let mut c = cur.clone();
                alt(&mut c);
                if left == 1 { out.push(c); } else { rec(d + 1, left - 1, &c, dims, out); }
            }
        }
    }
    for n in 1..=k { rec(0, n, base, dims, &mut out); }
    out
}
