//! Scheduling points at the level of single memory accesses (build with tools/sancov.sh).
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

extern "C" { fn mc_fine_set(v: i32); fn mc_is_static(a: usize) -> i32; }

/// one access: where in the code, address, size (0: a basic block is entered), write
#[derive(Clone, Copy)]
pub struct Ev { pub pc: usize, pub addr: usize, pub size: u32, pub write: bool }
#[derive(Clone, Copy)]
struct CEv { section: usize, thread: usize, e: Ev }

/// accesses of a controlled run with several workers
#[derive(Default)]
pub struct Eng { starts: Mutex<HashMap<usize, usize>>, record: Mutex<Vec<CEv>>, conflict: HashSet<usize>, exploring: bool, pub hits: AtomicU64 }

enum Mode { Off, Record(Vec<Ev>), Armed(u64, Option<Box<dyn FnOnce()>>), Count(Arc<AtomicU64>), Ctl(*const Eng) }
thread_local! {
    static MODE: RefCell<Mode> = const { RefCell::new(Mode::Off) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
fn set(m: Mode) -> Mode { let on = !matches!(m, Mode::Off); unsafe { mc_fine_set(0); } let o = MODE.with(|x| x.replace(m)); unsafe { mc_fine_set(on as i32); } o }

#[no_mangle]
extern "C" fn mc_access(addr: usize, size: u32, write: i32, pc: usize) {
    let e = Ev { pc, addr, size, write: write != 0 };
    let hook = MODE.with(|m| match &mut *m.borrow_mut() {
        Mode::Off => None,
        Mode::Record(v) => { if v.len() < 4_000_000 { v.push(e); } None },
        Mode::Armed(n, h) => { if *n == 0 { h.take() } else { *n -= 1; None } },
        Mode::Count(c) => { c.fetch_add(1, Relaxed); None },
        Mode::Ctl(g) => {
            let g = unsafe { &**g };
            if size == 0 { return None; }
            if g.exploring {
                if g.conflict.contains(&pc) { g.hits.fetch_add(1, Relaxed); return Some(Box::new(|| rayon::mc::point("access")) as Box<dyn FnOnce()>); }
            } else if let Some((section, thread)) = rayon::mc::concurrent() {
                let mut r = g.record.lock().unwrap();
                if r.len() < 3_000_000 { r.push(CEv { section, thread, e }); }
            }
            None
        },
    });
    if let Some(h) = hook { h(); }
}

/// Called by the allocator: the block is new memory, whatever was at its addresses before.
pub fn on_alloc(p: *mut u8, n: usize) {
    let _ = MODE.try_with(|m| if let Ok(m) = m.try_borrow() { if let Mode::Ctl(g) = &*m {
        let g = unsafe { &**g };
        if g.exploring { return; }
        if let Some((section, thread)) = rayon::mc::section() { if let Ok(mut r) = g.record.try_lock() { let c = CEv { section, thread, e: Ev { pc: n, addr: p as usize, size: ALLOC, write: false } }; if r.len() < 3_000_000 && r.len() < r.capacity() { r.push(c); } } }
    } });
}
const ALLOC: u32 = u32::MAX;

/// Runs `f` and returns the accesses made by the library on this thread.
pub fn recorded<R>(f: impl FnOnce() -> R) -> (R, Vec<Ev>) {
    set(Mode::Record(vec![]));
    let r = f();
    match set(Mode::Off) { Mode::Record(v) => (r, v), _ => (r, vec![]) }
}

/// Accesses at which running something else could make a difference: all accesses of static memory (up to a limit)
/// and the first `times` and the last execution of every other access or basic block.
pub fn targets(v: &[Ev], statics: usize, times: u32) -> Vec<u64> {
    let mut seen: HashMap<usize, (u32, usize)> = HashMap::new();
    let mut t = std::collections::BTreeSet::new();
    let mut st = 0;
    for (i, e) in v.iter().enumerate() {
        let s = seen.entry(e.pc).or_insert((0, i));
        s.0 += 1; s.1 = i;
        if s.0 <= times { t.insert(i as u64); }
        if e.size > 0 && st < statics && unsafe { mc_is_static(e.addr) } != 0 { st += 1; t.insert(i as u64); }
    }
    for s in seen.values() { t.insert(s.1 as u64); }
    t.into_iter().collect()
}
pub fn static_accesses(v: &[Ev]) -> usize { v.iter().filter(|e| e.size > 0 && unsafe { mc_is_static(e.addr) } != 0).count() }

/// Runs `a`; at its `n`-th access it is suspended while `b` runs from start to end on another thread.
/// If `b` has to wait for `a`, `a` goes on. Third result: whether `b` ran to its end meanwhile (None: never started).
pub fn interrupted<A, B: Send + 'static>(n: u64, a: impl FnOnce() -> A, b: impl FnOnce() -> B + Send + 'static) -> (A, Option<B>, Option<bool>) {
    let cell: Arc<Mutex<Option<(std::thread::JoinHandle<B>, bool)>>> = Arc::default();
    let c2 = cell.clone();
    let ncpu = crate::core::NCPU.with(|n| n.get());
    set(Mode::Armed(n, Some(Box::new(move || {
        let progress = Arc::new(AtomicU64::new(0));
        let p2 = progress.clone();
        let h = std::thread::spawn(move || { crate::core::set_cpus(ncpu); set(Mode::Count(p2)); let r = b(); set(Mode::Off); r });
        let (mut last, mut silent, mut spins) = (0, 0, 0u32);
        while !h.is_finished() {
            spins += 1;
            if spins < 4000 { std::thread::yield_now(); continue; }
            std::thread::sleep(std::time::Duration::from_millis(1));
            let p = progress.load(Relaxed);
            if p == last { silent += 1; } else { silent = 0; last = p; }
            if silent > 60 { break; }
        }
        let done = h.is_finished();
        *c2.lock().unwrap() = Some((h, done));
    }))));
    let r = a();
    set(Mode::Off);
    let b = cell.lock().unwrap().take();
    match b { None => (r, None, None), Some((h, done)) => match h.join() { Ok(b) => (r, Some(b), Some(done)), Err(e) => std::panic::resume_unwind(e) } }
}

impl Eng {
    pub fn recorder() -> Self { let e = Self::default(); e.record.lock().unwrap().reserve(200_000); e }
    /// an engine that makes every access at these places a scheduling point
    pub fn explorer(conflict: HashSet<usize>) -> Self { Self { conflict, exploring: true, ..Self::default() } }
    /// runs `f` (which starts a controlled run) under this engine
    pub fn run<R>(&self, f: impl FnOnce() -> R) -> R {
        rayon::mc::ON_START.get_or_init(|| |tag| if tag != 0 { set(Mode::Ctl(tag as *const Eng)); });
        rayon::mc::ON_SPAWN.get_or_init(|| |tag, t| if tag != 0 { unsafe { &*(tag as *const Eng) }.start(t); });
        rayon::mc::TAG.with(|t| t.set(self as *const Eng as usize));
        set(Mode::Ctl(self));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        set(Mode::Off);
        rayon::mc::TAG.with(|t| t.set(0));
        match r { Ok(r) => r, Err(e) => std::panic::resume_unwind(e) }
    }
    fn started(&self, thread: usize) -> Option<usize> { self.starts.lock().unwrap().get(&thread).copied() }
    /// called when thread `t` of the controlled run is created
    fn start(&self, t: usize) { let n = self.record.lock().unwrap().len(); self.starts.lock().unwrap().insert(t, n); }
    /// places in the code that access memory which another thread of the same parallel section accesses too, one of them writing
    pub fn conflicts(&self) -> (HashSet<usize>, usize) {
        let r = self.record.lock().unwrap();
        // what the starting thread did before it started a thread happens before everything that thread does
        // (section, byte) -> (event, thread, write) of those accesses that can matter: the first few per thread and kind, and the last of thread 0
        let mut m: HashMap<(usize, usize, usize), Vec<(usize, usize, bool)>> = HashMap::new();
        // how often the byte has been allocated anew
        let mut gen: HashMap<usize, usize> = HashMap::new();
        let mut gens: Vec<usize> = vec![];
        for (i, c) in r.iter().enumerate() {
            gens.push(gen.get(&c.e.addr).copied().unwrap_or(0));
            if c.e.size == ALLOC { for b in c.e.addr..c.e.addr + c.e.pc { gen.insert(b, i + 1); } continue; }
            for b in 0..c.e.size as usize {
            let v = m.entry((c.section, c.e.addr + b, gens[i])).or_default();
            match v.iter_mut().find(|x| x.1 == c.thread && x.2 == c.e.write) { Some(x) => x.0 = i, None => v.push((i, c.thread, c.e.write)) }
        } }
        let before = |a: (usize, usize, bool), b: (usize, usize, bool)| a.1 == 0 && b.1 != 0 && r[a.0].e.size > 0 && self.started(b.1).map_or(false, |s| a.0 < s);
        let mut bad: HashSet<(usize, usize, usize)> = HashSet::new();
        for (k, v) in &m { for a in v { for b in v { if a.1 != b.1 && (a.2 || b.2) && !before(*a, *b) && !before(*b, *a) { bad.insert(*k); } } } }
        let mut out = HashSet::new();
        for (i, c) in r.iter().enumerate() { if c.e.size != ALLOC && (0..c.e.size as usize).any(|b| bad.contains(&(c.section, c.e.addr + b, gens[i]))) { out.insert(c.e.pc); } }
        (out, r.len())
    }
}

/// where the program is loaded
pub fn base_addr() -> usize {
    std::fs::read_to_string("/proc/self/maps").ok().and_then(|m| usize::from_str_radix(m.split('-').next().unwrap_or(""), 16).ok()).unwrap_or(0)
}
