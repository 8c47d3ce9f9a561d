//! Controlled scheduler behind the rayon stand-in.
//!
//! Modes (per harness thread, inherited by the workers it starts):
//!  * sequential (default): every parallel section runs on the calling thread;
//!  * controlled: worker threads are real OS threads but exactly one of them runs at a time.  At each
//!    scheduling point the next thread is taken from a prescribed choice list (then default = keep running),
//!    so one choice list is one interleaving and can be replayed;
//!  * free: workers are real OS threads running freely (for race detectors).
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St { Ready, Blocked, Done }

#[derive(Clone, Debug)]
pub struct Point {
    /// number of threads that could have been chosen
    pub enabled: usize,
    /// index taken in the canonical order (running thread first if still enabled, then ascending ids)
    pub chosen: usize,
    /// whether taking anything but 0 is a preemption
    pub running_enabled: bool,
    pub label: &'static str,
}

struct State {
    current: usize,
    st: Vec<St>,
    waiting_for: Vec<Option<usize>>, // group id a blocked thread waits for
    groups: Vec<usize>,              // outstanding tasks per group
    prefix: Vec<usize>,
    trace: Vec<Point>,
    diverged: bool,
    foreign_block: bool,
    progress: u64,
    last: Instant,
}

pub struct Sched { s: Mutex<State>, cv: Condvar, pub workers: usize, pub max_points: usize, pub tag: usize }

#[derive(Clone)]
enum Mode { Seq, Ctl(Arc<Sched>), Free(usize) }

/// called in every worker thread of a controlled run with the tag that was set where the run began
pub static ON_START: std::sync::OnceLock<fn(usize)> = std::sync::OnceLock::new();
/// called where a thread of a controlled run is created, with the tag and its number
pub static ON_SPAWN: std::sync::OnceLock<fn(usize, usize)> = std::sync::OnceLock::new();
/// how long a running thread may be silent before it is taken to wait for something of a descheduled one
pub static STUCK_MS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(3000);

/// Runs `f`, in which this thread holds a lock of the stand-in, without scheduling points.
pub fn masked<R>(f: impl FnOnce() -> R) -> R { let o = MASK.with(|m| m.replace(true)); let r = f(); MASK.with(|m| m.set(o)); r }

thread_local! {
    static MASK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static TAG: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static MODE: RefCell<Mode> = const { RefCell::new(Mode::Seq) };
    static ME: RefCell<usize> = const { RefCell::new(0) };
    static WORKER: RefCell<usize> = const { RefCell::new(0) };
}

pub struct Run { pub trace: Vec<Point>, pub diverged: bool, pub foreign_block: bool }

impl Sched {
    fn lock(&self) -> std::sync::MutexGuard<'_, State> { self.s.lock().unwrap_or_else(|e| e.into_inner()) }

    /// picks who runs next; `me` keeps running if chosen. Called with the lock held by the running thread.
    fn pick(&self, s: &mut State, me: usize, label: &'static str) {
        let mut en: Vec<usize> = Vec::new();
        let running_enabled = s.st[me] == St::Ready;
        if running_enabled { en.push(me); }
        for t in 0..s.st.len() { if t != me && s.st[t] == St::Ready { en.push(t); } }
        if en.is_empty() { return; } // everything done or blocked; the watchdog reports a deadlock
        s.progress += 1;
        s.last = Instant::now();
        let c = if en.len() == 1 { 0 } else {
            let i = s.trace.len();
            let c = if i < s.prefix.len() { s.prefix[i] } else { 0 };
            let c = if c >= en.len() { s.diverged = true; 0 } else { c };
            if i < self.max_points {
                s.trace.push(Point { enabled: en.len(), chosen: c, running_enabled, label });
            }
            c
        };
        s.current = en[c];
        if s.current != me { self.cv.notify_all(); }
    }

    fn wait_turn(&self, mut s: std::sync::MutexGuard<'_, State>, me: usize) {
        while s.current != me {
            let stuck = STUCK_MS.load(std::sync::atomic::Ordering::Relaxed);
            let (g, to) = self.cv.wait_timeout(s, Duration::from_millis(stuck / 6)).unwrap_or_else(|e| e.into_inner());
            s = g;
            if to.timed_out() && s.current != me && s.last.elapsed() > Duration::from_millis(stuck) {
                // The running thread is stuck in something this scheduler does not see (e.g. an OS lock held by
                // a waiting thread): let the lowest ready waiter proceed.
                let cur = s.current;
                let next = (0..s.st.len()).find(|&t| t != cur && s.st[t] == St::Ready);
                if next == Some(me) { s.current = me; s.foreign_block = true; s.last = Instant::now(); }
            }
        }
    }

    fn point(&self, label: &'static str) {
        let me = ME.with(|m| *m.borrow());
        let mut s = self.lock();
        if s.current != me { self.wait_turn(s, me); return; }
        self.pick(&mut s, me, label);
        self.wait_turn(s, me);
    }

    fn add_thread(&self, group: usize) -> usize {
        let mut s = self.lock();
        s.st.push(St::Ready);
        s.waiting_for.push(None);
        s.groups[group] += 1;
        s.st.len() - 1
    }

    fn new_group(&self) -> usize { let mut s = self.lock(); s.groups.push(0); s.groups.len() - 1 }

    fn finish(&self, group: usize) {
        let me = ME.with(|m| *m.borrow());
        let mut s = self.lock();
        s.st[me] = St::Done;
        s.groups[group] -= 1;
        if s.groups[group] == 0 {
            for t in 0..s.st.len() {
                if s.waiting_for[t] == Some(group) { s.waiting_for[t] = None; s.st[t] = St::Ready; }
            }
        }
        if s.current == me { self.pick(&mut s, me, "end"); }
    }

    fn join_group(&self, group: usize) {
        let me = ME.with(|m| *m.borrow());
        let mut s = self.lock();
        if s.current != me { self.wait_turn(s, me); s = self.lock(); }
        if s.groups[group] == 0 { return; }
        s.st[me] = St::Blocked;
        s.waiting_for[me] = Some(group);
        self.pick(&mut s, me, "join");
        self.wait_turn(s, me);
    }
}

/// Runs `f` under the controlled scheduler with `workers` workers per parallel section.
pub fn controlled<R>(workers: usize, prefix: &[usize], max_points: usize, f: impl FnOnce() -> R) -> (R, Run) {
    let sched = Arc::new(Sched {
        s: Mutex::new(State { current: 0, st: vec![St::Ready], waiting_for: vec![None], groups: vec![], prefix: prefix.to_vec(),
            trace: vec![], diverged: false, foreign_block: false, progress: 0, last: Instant::now() }),
        cv: Condvar::new(), workers, max_points, tag: TAG.with(|t| t.get()),
    });
    let old = MODE.with(|m| m.replace(Mode::Ctl(sched.clone())));
    let oldme = ME.with(|m| m.replace(0));
    struct Reset(Option<Mode>, usize);
    impl Drop for Reset { fn drop(&mut self) { let m = self.0.take().unwrap(); MODE.with(|x| { x.replace(m); }); ME.with(|x| { x.replace(self.1); }); } }
    let guard = Reset(Some(old), oldme);
    let r = f();
    drop(guard);
    let mut s = sched.lock();
    let run = Run { trace: std::mem::take(&mut s.trace), diverged: s.diverged, foreign_block: s.foreign_block };
    drop(s);
    (r, run)
}

/// Runs `f` with freely running worker threads.
pub fn free<R>(workers: usize, f: impl FnOnce() -> R) -> R {
    let old = MODE.with(|m| m.replace(Mode::Free(workers)));
    struct Reset(Option<Mode>);
    impl Drop for Reset { fn drop(&mut self) { let m = self.0.take().unwrap(); MODE.with(|x| { x.replace(m); }); } }
    let _g = Reset(Some(old));
    f()
}

/// A scheduling point (no effect unless controlled).
pub fn point(label: &'static str) {
    if MASK.with(|m| m.get()) { return; }
    let m = MODE.with(|m| if let Mode::Ctl(s) = &*m.borrow() { Some(s.clone()) } else { None });
    if let Some(s) = m { s.point(label); }
}

/// (parallel section, thread) of the calling thread in a controlled run
pub fn section() -> Option<(usize, usize)> {
    MODE.with(|m| if let Mode::Ctl(s) = &*m.try_borrow().ok()? { let me = ME.with(|m| m.try_borrow().map(|m| *m).ok())?; Some((s.s.try_lock().ok()?.groups.len(), me)) } else { None })
}
/// (parallel section, thread) of the calling thread, if other threads of the controlled run may be active
pub fn concurrent() -> Option<(usize, usize)> {
    if MASK.with(|m| m.get()) { return None; }
    MODE.with(|m| if let Mode::Ctl(s) = &*m.borrow() {
        let me = ME.with(|m| *m.borrow());
        // (the lock is taken if the scheduler itself is at work)
        let s = s.s.try_lock().ok()?;
        (me != 0 || s.st.iter().skip(1).any(|t| *t != St::Done)).then(|| (s.groups.len(), me))
    } else { None })
}

pub fn worker_count() -> usize { MODE.with(|m| match &*m.borrow() { Mode::Seq => 1, Mode::Ctl(s) => s.workers, Mode::Free(n) => *n }) }
pub fn worker_index() -> usize { WORKER.with(|w| *w.borrow()) }

pub(crate) type Job<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Tasks that may run concurrently with their creator, all finished before `group` returns.
pub(crate) struct Group<'scope> {
    mode: Mode,
    gid: usize,
    next_worker: std::sync::atomic::AtomicUsize,
    handles: Mutex<Vec<std::thread::JoinHandle<()>>>,
    panic: Mutex<Option<Box<dyn std::any::Any + Send>>>,
    pending: Mutex<Vec<Job<'scope>>>,
}

impl<'scope> Group<'scope> {
    pub(crate) fn spawn(&self, job: Job<'scope>) {
        use std::sync::atomic::Ordering::SeqCst;
        match &self.mode {
            Mode::Seq => self.pending.lock().unwrap().push(job),
            Mode::Ctl(s) => {
                let tid = s.add_thread(self.gid);
                if let Some(f) = ON_SPAWN.get() { f(s.tag, tid); }
                let w = self.next_worker.fetch_add(1, SeqCst);
                let s2 = s.clone();
                let gid = self.gid;
                let me = Ptr(self as *const Self as *const Group<'static>);
                // Safety: `group` joins all threads before returning
                let job: Job<'static> = unsafe { std::mem::transmute::<Job<'scope>, Job<'static>>(job) };
                let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
                    let me = me;
                    ME.with(|m| { m.replace(tid); });
                    WORKER.with(|m| { m.replace(w); });
                    MODE.with(|m| { m.replace(Mode::Ctl(s2.clone())); });
                    if let Some(f) = ON_START.get() { f(s2.tag); }
                    let g = s2.lock();
                    s2.wait_turn(g, tid);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                    if let Err(e) = r { unsafe { &*me.0 }.panic.lock().unwrap().get_or_insert(e); }
                    s2.finish(gid);
                }).unwrap();
                self.handles.lock().unwrap().push(h);
                s.point("spawn");
            },
            Mode::Free(n) => {
                let w = self.next_worker.fetch_add(1, SeqCst);
                let n = *n;
                let me = Ptr(self as *const Self as *const Group<'static>);
                let job: Job<'static> = unsafe { std::mem::transmute::<Job<'scope>, Job<'static>>(job) };
                let h = std::thread::spawn(move || {
                    let me = me;
                    WORKER.with(|m| { m.replace(w); });
                    MODE.with(|m| { m.replace(Mode::Free(n)); });
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                    if let Err(e) = r { unsafe { &*me.0 }.panic.lock().unwrap().get_or_insert(e); }
                });
                self.handles.lock().unwrap().push(h);
            },
        }
    }

    fn join(&self) {
        loop {
            let jobs = std::mem::take(&mut *self.pending.lock().unwrap());
            if jobs.is_empty() { break; }
            for j in jobs {
                if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)) { self.panic.lock().unwrap().get_or_insert(e); }
            }
        }
        if let Mode::Ctl(s) = &self.mode { s.join_group(self.gid); }
        loop {
            let hs = std::mem::take(&mut *self.handles.lock().unwrap());
            if hs.is_empty() { break; }
            for h in hs { let _ = h.join(); }
        }
    }
}

struct Ptr(*const Group<'static>);
unsafe impl Send for Ptr {}

pub(crate) fn group<'scope, R>(f: impl FnOnce(&Group<'scope>) -> R) -> R {
    let mode = MODE.with(|m| m.borrow().clone());
    let gid = if let Mode::Ctl(s) = &mode { s.new_group() } else { 0 };
    let g = Group { mode, gid, next_worker: std::sync::atomic::AtomicUsize::new(1), handles: Mutex::new(vec![]), panic: Mutex::new(None), pending: Mutex::new(vec![]) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&g)));
    g.join();
    if let Some(p) = g.panic.lock().unwrap().take() { std::panic::resume_unwind(p); }
    match r { Ok(r) => r, Err(p) => std::panic::resume_unwind(p) }
}

/// Runs independent bodies concurrently (for harnesses that model several application threads).
pub fn run_tasks<'a>(bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    group(|g| { for b in bodies { g.spawn(b); } });
}

/// Runs `body(worker)` on every worker, concurrently.
pub(crate) fn workers(body: &(dyn Fn(usize) + Sync)) {
    let n = worker_count();
    if n <= 1 { body(0); return; }
    group(|g| {
        for w in 1..n { g.spawn(Box::new(move || body(w))); }
        body(0);
    });
}
