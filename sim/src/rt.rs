//! Run-time of one simulated execution: the choice stream, counters, trace, verdict.
//!
//! One run happens in one forked child process.  Every decision goes through `draw`, which
//! either takes the next number of a recorded choice sequence (replay, minimisation) or asks the
//! run's PRNG, and always records what it returned.  A choice of 0 is always the simplest option,
//! and a sequence that has run out yields zeros, so deleting or zeroing choices simplifies runs.

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub const MAX_CHOICES: usize = 1 << 16;
pub const MAX_COUNTERS: usize = 128;
pub const NAME_LEN: usize = 40;
pub const MSG_LEN: usize = 6000;
/// A run that crosses this many seam crossings is reported as not making progress.
pub const STEP_LIMIT: u64 = 400_000_000;

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

/// Result block shared between a run and its supervisor.
#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub n_choices: u32,
    pub nontrivial: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub n_counters: u32,
    pub steps: u64,
    pub trace_hash: u64,
    pub class: [u8; 64],
    pub msg: [u8; MSG_LEN],
    pub names: [[u8; NAME_LEN]; MAX_COUNTERS],
    pub counts: [u64; MAX_COUNTERS],
    pub choices: [u32; MAX_CHOICES],
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { ((self.next() >> 11) as u128 * n as u128 >> 53) as u64 }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

pub struct Run {
    shared: *mut Shared,
    replay: Option<Vec<u32>>,
    rng: Rng,
    /// Source of the decisions inside a marathon, derived from one recorded choice.
    bulk: Option<Rng>,
    turn: Option<bool>,
    entropy: Rng,
    trace: Option<Vec<String>>,
    effect: bool,
    checked: bool,
    names: Vec<(&'static str, usize)>,
}

struct Cell(UnsafeCell<Option<Run>>);
// Only one thread of a run executes at a time (sched.rs hands a token around).
unsafe impl Sync for Cell {}
static RUN: Cell = Cell(UnsafeCell::new(None));
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static STEPS: AtomicU64 = AtomicU64::new(0);

fn run() -> &'static mut Run {
    unsafe { (*RUN.0.get()).as_mut().expect("no run") }
}

pub fn begin(shared: *mut Shared, seed: u64, replay: Option<Vec<u32>>, trace: bool) {
    unsafe {
        (*shared).status = ST_RUNNING;
        (*shared).n_choices = 0;
        (*shared).nontrivial = 0;
        (*shared).class_len = 0;
        (*shared).msg_len = 0;
        (*shared).n_counters = 0;
        (*shared).steps = 0;
        (*shared).trace_hash = 0xcbf29ce484222325;
        *RUN.0.get() = Some(Run {
            shared,
            replay,
            rng: Rng(seed),
            bulk: None,
            turn: None,
            entropy: Rng(0),
            trace: if trace { Some(vec![]) } else { None },
            effect: false,
            checked: false,
            names: vec![],
        });
    }
    STEPS.store(0, Ordering::Relaxed);
    ACTIVE.store(true, Ordering::SeqCst);
}

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}

/// The only source of decisions: a number in `0..n`.
pub fn draw(n: u64) -> u64 {
    let r = run();
    let s = unsafe { &mut *r.shared };
    let i = s.n_choices as usize;
    if n <= 1 {
        return 0;
    }
    if let Some(b) = &mut r.bulk {
        return b.below(n);
    }
    if i >= MAX_CHOICES {
        return 0;
    }
    let v = match &r.replay {
        Some(c) => {
            let v = c.get(i).copied().unwrap_or(0) as u64;
            v.min(n - 1)
        }
        None => r.rng.below(n),
    };
    s.choices[i] = v as u32;
    s.n_choices += 1;
    v
}

/// True with probability num/den; false is the simple choice.
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}
/// A number in lo..=hi; lo is the simple choice.
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}
pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[draw(v.len() as u64) as usize]
}
/// Index i with probability w[i]/sum(w).
pub fn weighted(w: &[u64]) -> usize {
    let mut x = draw(w.iter().sum());
    for (i, &k) in w.iter().enumerate() {
        if x < k {
            return i;
        }
        x -= k;
    }
    unreachable!()
}
/// A radius: 1..=usual, now and then far beyond.
pub fn radius(usual: u64) -> u32 {
    let r = range(1, usual) as u32;
    if chance(1, 16) {
        r + range(usual, 5 * usual) as u32
    } else {
        r
    }
}
/// A radius, sometimes one beyond every distance or at the end of an integer range.
pub fn far_radius(usual: u64) -> u32 {
    let far = if run().bulk.is_some() { 2 } else { 4 };
    if one_in(40) {
        let r = match draw(far) {
            0 => range(100, 340) as u32,
            1 => *pick(&[254, 255, 256, 257, 127, 128, 129]),
            2 => *pick(&[32767, 32768, 65535, 65536, 70000]),
            _ => *pick(&[u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32]),
        };
        count("gen.far_radius");
        r
    } else {
        radius(usual)
    }
}
/// True once in n draws on average; the simple choice is false.
pub fn one_in(n: u64) -> bool {
    draw(n) == n - 1
}
/// Seed for a bulk random structure; 0 is the simple choice (identity order etc.).
pub fn sub_seed() -> u64 {
    draw(1 << 20)
}

/// Whether it is the turn of the first of several objects, if a marathon decides that.
pub fn turn() -> Option<bool> {
    run().turn
}
/// The very same operation `n` times, on one object once in every period and else on another:
/// what a stamp, counter or pool that serves so many calls leaves behind.
pub fn alternating(n: u64, mut f: impl FnMut()) {
    count("gen.marathon_alternating");
    let period = if n > 1 << 16 { *pick(&[1 << 16, (1 << 16) - 1]) } else { *pick(&[256, 256, 255, 128]) };
    let s = Rng(sub_seed() + 1).next();
    let end = steps() + STEP_LIMIT / 10;
    for i in 0..n {
        if steps() > end {
            break;
        }
        run().turn = Some(i % period == 0);
        run().bulk = Some(Rng(s));
        f();
    }
    run().turn = None;
    run().bulk = None;
}
/// `n` times an operation, with decisions derived from one recorded choice, and a new one every
/// `vary` times on average: counters, stamps and pools meet their end, and histories are long.
pub fn long(n: u64, vary: u64, mut f: impl FnMut()) {
    count("gen.marathon");
    let mut r = Rng(sub_seed() + 1);
    let mut s = r.next();
    let end = steps() + STEP_LIMIT / 25;
    for _ in 0..n {
        if steps() > end {
            break;
        }
        if r.below(vary) == 0 {
            s = r.next();
        }
        run().bulk = Some(Rng(s));
        f();
    }
    run().bulk = None;
}

/// Simulated entropy (std hash seeds); derived from one recorded choice.
pub fn set_entropy(seed: u64) {
    run().entropy = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15));
}
pub fn entropy() -> u64 {
    run().entropy.next()
}

pub fn step() {
    let s = STEPS.fetch_add(1, Ordering::Relaxed);
    if s > STEP_LIMIT {
        STEPS.store(0, Ordering::Relaxed);
        fail("no-progress", format!("no completion within {STEP_LIMIT} simulated steps"));
    }
}
pub fn steps() -> u64 {
    STEPS.load(Ordering::Relaxed)
}

/// Fold an observation into the run's history hash.
pub fn obs(x: u64) {
    let s = unsafe { &mut *run().shared };
    s.trace_hash = (s.trace_hash ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
}
pub fn obs_str(x: &str) {
    let mut h = 0xcbf29ce484222325u64;
    for b in x.as_bytes() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    obs(h);
}
/// A decision of the simulator took effect (fault fired, switch happened, order permuted).
pub fn effect() {
    run().effect = true;
}
/// An oracle was evaluated on something non-empty.
pub fn checked() {
    run().checked = true;
}

pub fn count(name: &'static str) {
    count_n(name, 1)
}
pub fn count_n(name: &'static str, n: u64) {
    let r = run();
    let s = unsafe { &mut *r.shared };
    for (k, i) in &r.names {
        if std::ptr::eq(*k as *const str, name as *const str) || *k == name {
            s.counts[*i] += n;
            return;
        }
    }
    let i = s.n_counters as usize;
    if i >= MAX_COUNTERS {
        return;
    }
    let b = name.as_bytes();
    let l = b.len().min(NAME_LEN - 1);
    s.names[i] = [0; NAME_LEN];
    s.names[i][..l].copy_from_slice(&b[..l]);
    s.counts[i] = n;
    s.n_counters += 1;
    r.names.push((name, i));
}

pub fn tracing() -> bool {
    active() && run().trace.is_some()
}
pub fn log(s: String) {
    if let Some(t) = run().trace.as_mut() {
        t.push(s);
    }
}
pub fn take_trace() -> Vec<String> {
    run().trace.take().unwrap_or_default()
}

#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { if $crate::rt::tracing() { $crate::rt::log(format!("[{:>6} t{}] {}", $crate::rt::steps(), $crate::sched::me(), format!($($a)*))) } };
}

fn put(dst: &mut [u8], s: &str) -> u32 {
    let mut l = s.len().min(dst.len());
    while !s.is_char_boundary(l) {
        l -= 1;
    }
    dst[..l].copy_from_slice(&s.as_bytes()[..l]);
    l as u32
}

fn finish_shared(status: u32, class: &str, msg: &str) -> ! {
    let r = run();
    let s = unsafe { &mut *r.shared };
    s.class_len = put(&mut s.class, class);
    s.msg_len = put(&mut s.msg, msg);
    s.steps = steps();
    s.nontrivial = (r.effect && r.checked) as u32;
    s.status = status;
    if let Some(t) = r.trace.take() {
        crate::dump_trace(&t);
    }
    unsafe { libc::_exit(0) }
}

/// The property does not hold in this run.
pub fn fail(class: &str, msg: String) -> ! {
    if tracing() {
        log(format!("VIOLATION {class}: {msg}"));
    }
    finish_shared(ST_VIOLATION, class, &msg)
}
/// The harness itself is at fault.
pub fn harness_error(msg: String) -> ! {
    finish_shared(ST_HARNESS, "harness", &msg)
}
pub fn finish_ok() -> ! {
    finish_shared(ST_OK, "", "")
}

/// Check an oracle.
pub fn check(ok: Result<(), String>, class: &str) {
    checked();
    if let Err(m) = ok {
        fail(class, m)
    }
}
