//! Deterministic scheduler: real threads, exactly one of which runs at any time.
//!
//! A thread gives up the token only inside `yield_point`, which every seam calls: container
//! hashing, calls into simulator-supplied graphs/readers/writers/iterators, simulated system
//! calls, and operation boundaries.  How many yield points pass until the next scheduling decision
//! and who runs next come from the run's choice stream.

use crate::rt;
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

pub const MAX_T: usize = 8;

struct State {
    cur: usize,
    alive: [bool; MAX_T],
    n: usize,
}
static STATE: Mutex<State> = Mutex::new(State { cur: 0, alive: [false; MAX_T], n: 0 });
static CV: [Condvar; MAX_T + 1] = [const { Condvar::new() }; MAX_T + 1];
static ON: AtomicBool = AtomicBool::new(false);
static GAP: AtomicU64 = AtomicU64::new(0);
static GAP_MAX: AtomicU64 = AtomicU64::new(0);
static CUR: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    /// set while a scheduled thread runs code under test (not the scheduler's own waiting)
    static CLIENT: Cell<bool> = const { Cell::new(false) };
}

pub fn is_client() -> bool {
    ON.load(Ordering::Relaxed) && CLIENT.with(|c| c.get())
}

pub fn me() -> usize {
    ME.with(|m| m.get())
}

pub struct Cancel;

/// Unwind the current computation the way a failing caller callback would.
pub fn cancel() {
    if std::thread::panicking() {
        return;
    }
    rt::count("fault.cancel");
    rt::effect();
    rt::obs(0xCA);
    ev!("caller callback fails here (unwinds)");
    std::panic::resume_unwind(Box::new(Cancel))
}

/// Run `f`, catching cancellations (Ok(Err)) and reporting other panics as text.
pub enum Outcome<T> {
    Done(T),
    Cancelled,
    Panicked(String),
}

struct PanicCell(UnsafeCell<[Option<String>; MAX_T + 1]>);
unsafe impl Sync for PanicCell {}
static LAST_PANIC: PanicCell = PanicCell(UnsafeCell::new([const { None }; MAX_T + 1]));

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { (*LAST_PANIC.0.get())[me()] = Some(format!("{msg} at {loc}")) };
    }));
}

/// Was this panic raised by the harness itself (rather than by the code under test, or by a
/// simulated object the code under test used wrongly)?
pub fn harness_panic(m: &str) -> bool {
    (m.contains(" at src/") || m.contains("sim/src/")) && !m.contains("simulated graph asked about")
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Outcome::Done(v),
        Err(p) => classify(p),
    }
}
fn classify<T>(p: Box<dyn Any + Send>) -> Outcome<T> {
    if p.is::<Cancel>() {
        Outcome::Cancelled
    } else {
        let m = unsafe { (*LAST_PANIC.0.get())[me()].take() }.unwrap_or_else(|| "panic".into());
        Outcome::Panicked(m)
    }
}

/// Run code under test that must not panic.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match catch(f) {
        Outcome::Done(v) => v,
        Outcome::Cancelled => rt::harness_error(format!("{what}: unexpected cancellation")),
        Outcome::Panicked(m) if harness_panic(&m) => rt::harness_error(format!("{what}: harness panicked: {m}")),
        Outcome::Panicked(m) => rt::fail("panic", format!("{what}: panicked: {m}")),
    }
}

#[inline]
pub fn yield_point() {
    if !rt::active() {
        return;
    }
    rt::step();
    if !ON.load(Ordering::Relaxed) {
        return;
    }
    let g = GAP.load(Ordering::Relaxed);
    if g > 0 {
        GAP.store(g - 1, Ordering::Relaxed);
        return;
    }
    decide();
}

/// A yield point at which handing over is as likely as not, whatever the gap.
pub fn op_boundary() {
    rt::step();
    if ON.load(Ordering::Relaxed) && rt::chance(1, 2) {
        decide();
    }
}

pub fn force_yield() {
    rt::step();
    if ON.load(Ordering::Relaxed) {
        switch(true);
    }
}

fn next_gap() {
    let m = GAP_MAX.load(Ordering::Relaxed);
    GAP.store(rt::draw(m + 1), Ordering::Relaxed);
}

#[cold]
fn decide() {
    next_gap();
    switch(false);
}

fn switch(forced: bool) {
    let client = CLIENT.with(|c| c.replace(false));
    switch_inner(forced);
    CLIENT.with(|c| c.set(client));
}
fn switch_inner(forced: bool) {
    let me = me();
    let mut st = STATE.lock().unwrap();
    // candidates in cyclic order starting after me; staying is choice 0 unless forced
    let mut cand: [usize; MAX_T] = [0; MAX_T];
    let mut k = 0;
    if !forced {
        cand[0] = me;
        k = 1;
    }
    for d in 1..st.n {
        let t = (me + d) % st.n;
        if st.alive[t] {
            cand[k] = t;
            k += 1;
        }
    }
    if k == 0 {
        return;
    }
    let t = cand[rt::draw(k as u64) as usize];
    if t == me {
        return;
    }
    rt::count("sched.switch");
    rt::effect();
    rt::obs(0x5C00 + t as u64);
    ev!("switch to t{t}");
    st.cur = t;
    CUR.store(t, Ordering::Relaxed);
    CV[t].notify_one();
    while st.cur != me {
        st = CV[me].wait(st).unwrap();
    }
}

/// Carries a value to another simulated thread whatever it contains.
pub struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    pub fn take(self) -> T {
        self.0
    }
}

/// Run the given client bodies as threads under the scheduler; returns when all have finished.
///
/// The bodies need not be `Send`: one thread runs at a time and every switch passes through a lock,
/// so a graph that keeps a cell for itself is judged by its answers (C24 asks for `Sync` apart).
pub fn run_threads<'a>(tasks: Vec<Box<dyn FnOnce() + 'a>>) {
    let n = tasks.len();
    assert!(n <= MAX_T);
    if n == 0 {
        return;
    }
    GAP_MAX.store(*rt::pick(&[3u64, 0, 12, 60, 400, 3000]), Ordering::Relaxed);
    let first = rt::draw(n as u64) as usize;
    next_gap();
    rt::count_n("sched.threads", n as u64);
    {
        let mut st = STATE.lock().unwrap();
        st.n = n;
        st.alive = [false; MAX_T];
        for i in 0..n {
            st.alive[i] = true;
        }
        st.cur = MAX_T; // nobody until all are up
    }
    let saved = me();
    std::thread::scope(|s| {
        for (i, t) in tasks.into_iter().enumerate() {
            let t = Force(t);
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(s, move || {
                    ME.with(|m| m.set(i));
                    {
                        let mut st = STATE.lock().unwrap();
                        while st.cur != i {
                            st = CV[i].wait(st).unwrap();
                        }
                    }
                    CLIENT.with(|c| c.set(true));
                    let out = catch(t.take());
                    CLIENT.with(|c| c.set(false));
                    match out {
                        Outcome::Done(()) => {}
                        Outcome::Cancelled => rt::harness_error("client cancelled outside an operation".into()),
                        Outcome::Panicked(m) if harness_panic(&m) => rt::harness_error(format!("harness panicked: {m}")),
                        Outcome::Panicked(m) => rt::fail("panic", format!("client thread panicked: {m}")),
                    }
                    let mut st = STATE.lock().unwrap();
                    st.alive[i] = false;
                    ev!("t{i} finished");
                    let alive: Vec<usize> = (0..st.n).filter(|&x| st.alive[x]).collect();
                    if alive.is_empty() {
                        ON.store(false, Ordering::SeqCst);
                        st.cur = MAX_T;
                    } else {
                        let t = alive[rt::draw(alive.len() as u64) as usize];
                        st.cur = t;
                        CV[t].notify_one();
                    }
                })
                .unwrap_or_else(|e| rt::harness_error(format!("spawn: {e}")));
        }
        let mut st = STATE.lock().unwrap();
        ON.store(true, Ordering::SeqCst);
        st.cur = first;
        CV[first].notify_one();
        drop(st);
    });
    ON.store(false, Ordering::SeqCst);
    ME.with(|m| m.set(saved));
}

/// A mutex the scheduler knows about: a client that finds it taken lets the others run.
pub struct SimMutex<T> {
    locked: AtomicBool,
    v: UnsafeCell<T>,
}
unsafe impl<T> Sync for SimMutex<T> {}
unsafe impl<T> Send for SimMutex<T> {}
impl<T> SimMutex<T> {
    pub fn new(v: T) -> Self {
        SimMutex { locked: AtomicBool::new(false), v: UnsafeCell::new(v) }
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        while self.locked.load(Ordering::Relaxed) {
            rt::count("sched.lock_wait");
            force_yield();
        }
        self.locked.store(true, Ordering::Relaxed);
        let r = f(unsafe { &mut *self.v.get() });
        self.locked.store(false, Ordering::Relaxed);
        r
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
