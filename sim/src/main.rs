//! Deterministic simulation of graphbench: supervisor.
//!
//! sim check <ID> [--tier quick|thorough] [--seed N]   search; exit 0 held, 1 violation, 2 error
//! sim replay <file>                                   re-execute a recorded violation
//! sim one <ID> <seed> <run> [replay-choices...]       one run with its trace
//! sim digest <ID> <seed> <runs> <workers>             history hash of a batch (determinism test)

#![allow(dropping_copy_types, dead_code)]
#![allow(invalid_runtime_symbol_definitions)]

#[macro_use]
mod rt;
mod sched;
#[macro_use]
mod gen;
mod fsim;
mod oracle;
mod props;

use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    /// how cases are made
    pub rule: &'static str,
    /// which components ran real code
    pub real: &'static str,
}

static mut TRACE_PATH: Option<String> = None;

pub fn dump_trace(t: &[String]) {
    #[allow(static_mut_refs)]
    if let Some(p) = unsafe { TRACE_PATH.as_ref() } {
        let mut out = String::new();
        for l in t {
            out.push_str(l);
            out.push('\n');
        }
        let _ = std::fs::write(p, out);
    }
}

#[derive(Clone, Debug)]
struct Verdict {
    status: u32,
    class: String,
    msg: String,
    choices: Vec<u32>,
    steps: u64,
    hash: u64,
    nontrivial: bool,
}

fn mmap_shared(len: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut u8
}

/// Execute one run in a child process of its own.
fn run_child(sh: *mut rt::Shared, prop: &Prop, seed: u64, replay: Option<Vec<u32>>, trace: Option<&str>) -> Verdict {
    unsafe {
        (*sh).status = rt::ST_RUNNING;
        (*sh).n_choices = 0;
        (*sh).n_counters = 0;
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            child(sh, prop, seed, replay, trace);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = &mut *sh;
        let text = |b: &[u8], n: u32| String::from_utf8_lossy(&b[..n as usize]).into_owned();
        let mut v = Verdict {
            status: s.status,
            class: String::new(),
            msg: String::new(),
            choices: s.choices[..s.n_choices as usize].to_vec(),
            steps: s.steps,
            hash: s.trace_hash,
            nontrivial: s.nontrivial != 0,
        };
        if libc::WIFSIGNALED(st) || s.status == rt::ST_RUNNING {
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
            v.status = rt::ST_VIOLATION;
            match sig {
                libc::SIGXCPU | libc::SIGALRM => {
                    v.class = "hang".into();
                    v.msg = "the run did not terminate (time limit of one run reached)".into();
                }
                libc::SIGKILL => {
                    v.status = rt::ST_HARNESS;
                    v.class = "harness".into();
                    v.msg = "run killed from outside (out of memory?)".into();
                }
                _ => {
                    v.class = "abort".into();
                    v.msg = format!("the process aborted (signal {sig}, wait status {st:#x}): panic inside a destructor, stack overflow, invalid memory access or failed allocation");
                }
            }
        } else {
            v.class = text(&s.class, s.class_len);
            v.msg = text(&s.msg, s.msg_len);
        }
        v
    }
}

unsafe fn child(sh: *mut rt::Shared, prop: &Prop, seed: u64, replay: Option<Vec<u32>>, trace: Option<&str>) -> ! {
    let lim = |r, n: u64, m: u64| {
        let l = libc::rlimit { rlim_cur: n, rlim_max: m };
        libc::setrlimit(r, &l);
    };
    lim(libc::RLIMIT_CPU, 80, 85);
    lim(libc::RLIMIT_AS, 4 << 30, 4 << 30);
    lim(libc::RLIMIT_CORE, 0, 0);
    libc::alarm(160);
    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY, 0);
    if null >= 0 && std::env::var_os("SIM_STDERR").is_none() {
        libc::dup2(null, 2);
    }
    TRACE_PATH = trace.map(|s| s.to_string());
    sched::install_hook();
    let run = prop.run;
    rt::begin(sh, seed, replay, trace.is_some());
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || match sched::catch(run) {
            sched::Outcome::Done(()) => {}
            sched::Outcome::Cancelled => rt::harness_error("cancellation escaped".into()),
            sched::Outcome::Panicked(m) => {
                if sched::harness_panic(&m) {
                    rt::harness_error(format!("harness panicked: {m}"))
                } else {
                    rt::fail("panic", format!("panicked: {m}"))
                }
            }
        })
        .unwrap_or_else(|e| rt::harness_error(format!("no thread for the run: {e}")));
    let _ = h.join();
    rt::finish_ok();
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Rec {
    hash: u64,
    steps: u64,
    choices: u32,
    /// 0 not run, 1 ok, 2 violation, 3 harness error, 4 known finding; +16 nontrivial
    state: u32,
}

/// The verdict of a run that failed once: the first repetition that agrees with it, or the last.
fn repeat(sh: *mut rt::Shared, prop: &Prop, seed: u64, replay: Option<Vec<u32>>, first: &Verdict, times: u32) -> Verdict {
    let mut v = run_child(sh, prop, seed, replay.clone(), None);
    for k in 1..times {
        if v.status == first.status && v.class == first.class {
            break;
        }
        std::thread::sleep(Duration::from_millis(100 * k as u64));
        v = run_child(sh, prop, seed, replay.clone(), None);
    }
    v
}

#[repr(C)]
struct Global {
    lowest_fail: AtomicU64,
    unrepeated: AtomicU64,
    capped: AtomicU64,
    known_hits: AtomicU64,
}

struct Known {
    property: String,
    class: String,
    contains: String,
    what: String,
}

fn load_known(root: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default().lines() {
        // known: property=<id> class=<class> contains=<text> :: <what fails>
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let Some((head, what)) = rest.split_once(" :: ") else { continue };
        let Some((id, r)) = head.split_once(" class=") else { continue };
        let Some((class, contains)) = r.split_once(" contains=") else { continue };
        v.push(Known { property: id.into(), class: class.into(), contains: contains.into(), what: what.into() });
    }
    v
}

fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut h = 0x243F6A8885A308D3u64 ^ seed;
    for b in id.bytes() {
        h = rt::mix(h, b as u64);
    }
    rt::mix(h, i)
}

struct Batch {
    recs: Vec<Rec>,
    counters: BTreeMap<String, u64>,
    lowest: Option<u64>,
    capped: bool,
    known_hits: u64,
    unrepeated: u64,
}

/// Totals of one worker, in shared memory.
#[repr(C)]
struct WorkerOut {
    n: u32,
    names: [[u8; rt::NAME_LEN]; 512],
    counts: [u64; 512],
}

fn run_batch(prop: &Prop, seed: u64, runs: u64, workers: usize, cap: Duration, known: &[Known]) -> Batch {
    let g = unsafe { &*(mmap_shared(std::mem::size_of::<Global>()) as *const Global) };
    g.lowest_fail.store(u64::MAX, Ordering::SeqCst);
    let recs = mmap_shared((runs as usize + 1) * std::mem::size_of::<Rec>()) as *mut Rec;
    let wouts = mmap_shared(workers * std::mem::size_of::<WorkerOut>()) as *mut WorkerOut;
    let start = Instant::now();
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let sh = mmap_shared(std::mem::size_of::<rt::Shared>()) as *mut rt::Shared;
            let wo = unsafe { &mut *wouts.add(w) };
            let mut i = w as u64;
            while i < runs {
                if i > g.lowest_fail.load(Ordering::SeqCst) {
                    break;
                }
                if start.elapsed() > cap {
                    g.capped.store(1, Ordering::SeqCst);
                    break;
                }
                let rs = run_seed(seed, prop.id, i);
                let mut v = run_child(sh, prop, rs, None, None);
                if v.status != rt::ST_OK {
                    // A verdict counts only if it can be had again: a run cut short by the
                    // machine (no memory, no thread, no time) says nothing about the property.
                    let first = v;
                    v = repeat(sh, prop, rs, None, &first, 3);
                    if v.status == rt::ST_OK {
                        g.unrepeated.fetch_add(1, Ordering::SeqCst);
                        eprintln!("note: run {i} was cut short by the machine and repeated ({}: {})", first.class, first.msg.lines().next().unwrap_or(""));
                    }
                }
                let mut state = v.status;
                if v.status == rt::ST_VIOLATION {
                    if known.iter().any(|k| k.property == prop.id && k.class == v.class && v.msg.contains(&k.contains)) {
                        state = 4;
                        g.known_hits.fetch_add(1, Ordering::SeqCst);
                    } else {
                        g.lowest_fail.fetch_min(i, Ordering::SeqCst);
                    }
                } else if v.status == rt::ST_HARNESS {
                    g.lowest_fail.fetch_min(i, Ordering::SeqCst);
                }
                unsafe {
                    *recs.add(i as usize) = Rec {
                        hash: v.hash,
                        steps: v.steps,
                        choices: v.choices.len() as u32,
                        state: state | if v.nontrivial { 16 } else { 0 },
                    };
                    let s = &*sh;
                    for k in 0..s.n_counters as usize {
                        let nm = &s.names[k];
                        let mut j = 0;
                        while j < wo.n as usize && &wo.names[j] != nm {
                            j += 1;
                        }
                        if j == wo.n as usize {
                            if j == 512 {
                                continue;
                            }
                            wo.names[j] = *nm;
                            wo.n += 1;
                        }
                        wo.counts[j] += s.counts[k];
                    }
                }
                i += workers as u64;
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
        if st != 0 {
            eprintln!("worker died: {st:#x}");
            std::process::exit(2);
        }
    }
    let mut counters = BTreeMap::new();
    for w in 0..workers {
        let wo = unsafe { &*wouts.add(w) };
        for j in 0..wo.n as usize {
            let nm = &wo.names[j];
            let l = nm.iter().position(|&b| b == 0).unwrap_or(nm.len());
            *counters.entry(String::from_utf8_lossy(&nm[..l]).into_owned()).or_insert(0) += wo.counts[j];
        }
    }
    let lowest = match g.lowest_fail.load(Ordering::SeqCst) {
        u64::MAX => None,
        x => Some(x),
    };
    Batch {
        recs: unsafe { std::slice::from_raw_parts(recs, runs as usize).to_vec() },
        counters,
        lowest,
        capped: g.capped.load(Ordering::SeqCst) != 0,
        known_hits: g.known_hits.load(Ordering::SeqCst),
        unrepeated: g.unrepeated.load(Ordering::SeqCst),
    }
}

/// The shortest run that fails in the same way among the next few hundred.
fn shortest(prop: &Prop, seed: u64, i: u64, first: &Verdict, workers: u64, known: &[Known]) -> u64 {
    const N: u64 = 400;
    let best = unsafe { &*(mmap_shared(8) as *const AtomicU64) };
    let len = |n: usize| (n as u64).min(1 << 30) << 32;
    best.store(len(first.choices.len()), Ordering::SeqCst);
    let start = Instant::now();
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let sh = mmap_shared(std::mem::size_of::<rt::Shared>()) as *mut rt::Shared;
            let mut k = 1 + w;
            while k <= N && start.elapsed() < Duration::from_secs(15) {
                let v = run_child(sh, prop, run_seed(seed, prop.id, i + k), None, None);
                let listed = known.iter().any(|x| x.property == prop.id && x.class == v.class && v.msg.contains(&x.contains));
                if v.status == rt::ST_VIOLATION && v.class == first.class && !listed {
                    best.fetch_min(len(v.choices.len()) | k, Ordering::SeqCst);
                }
                k += workers;
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
    }
    i + (best.load(Ordering::SeqCst) & 0xffff_ffff)
}

/// Make a failing choice sequence simpler while it fails in the same way.
fn shrink(sh: *mut rt::Shared, prop: &Prop, first: Verdict, budget: Duration) -> (Verdict, u64) {
    let start = Instant::now();
    let mut best = first;
    let mut tried = 0u64;
    let weight = |c: &[u32]| (c.len(), c.iter().map(|&x| (64 - (x as u64).leading_zeros()) as u64).sum::<u64>(), c.iter().map(|&x| x as u64).sum::<u64>());
    macro_rules! attempt {
        ($c:expr) => {{
            tried += 1;
            let v = run_child(sh, prop, 0, Some($c), None);
            let mut vc = v.choices.clone();
            while vc.last() == Some(&0) {
                vc.pop();
            }
            if v.status == rt::ST_VIOLATION && v.class == best.class && weight(&vc) < weight(&best.choices) {
                best = Verdict { choices: vc, ..v };
                true
            } else {
                false
            }
        }};
    }
    let over = |t: &Instant| t.elapsed() > budget;
    loop {
        let before = weight(&best.choices);
        // delete chunks
        let mut size = (best.choices.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.choices.len() && !over(&start) {
                let mut c = best.choices.clone();
                c.drain(i..(i + size).min(c.len()));
                if !attempt!(c) {
                    i += size;
                }
            }
            if size == 1 || over(&start) {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.choices.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.choices.len() && !over(&start) {
                let mut c = best.choices.clone();
                let e = (i + size).min(c.len());
                if c[i..e].iter().any(|&x| x != 0) {
                    c[i..e].fill(0);
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 || over(&start) {
                break;
            }
            size /= 2;
        }
        // reduce single values
        let mut i = 0;
        while i < best.choices.len() && !over(&start) {
            for f in [|x: u32| x / 2, |x: u32| x - 1, |x: u32| x.min(1)] {
                if i >= best.choices.len() || best.choices[i] == 0 {
                    break;
                }
                let y = f(best.choices[i]);
                if y < best.choices[i] {
                    let mut c = best.choices.clone();
                    c[i] = y;
                    attempt!(c);
                }
            }
            i += 1;
        }
        if weight(&best.choices) == before || over(&start) {
            return (best, tried);
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn scratch() -> String {
    std::env::temp_dir().join(format!("gbsim-{}", std::process::id())).to_string_lossy().into_owned()
}

/// Re-execute with tracing on; returns the verdict and the trace lines.
fn traced(sh: *mut rt::Shared, prop: &Prop, seed: u64, replay: Option<Vec<u32>>) -> (Verdict, Vec<String>) {
    let p = scratch();
    let v = run_child(sh, prop, seed, replay, Some(&p));
    let t = std::fs::read_to_string(&p).unwrap_or_default();
    let _ = std::fs::remove_file(&p);
    (v, t.lines().map(|s| s.to_string()).collect())
}

fn condensed(t: &[String], n: usize) -> Vec<String> {
    if t.len() <= n {
        return t.to_vec();
    }
    let mut v = t[..n - n / 3].to_vec();
    v.push(format!("... {} lines omitted ...", t.len() - n));
    v.extend_from_slice(&t[t.len() - n / 3..]);
    v
}

fn check(id: &str, tier: &str, seed: u64, root: &str) -> i32 {
    let Some(prop) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let known = load_known(root);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let (mut runs, cap) = if tier == "thorough" { (prop.thorough, 900u64) } else { (prop.quick, 240u64) };
    if let Some(r) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = r;
    }
    let cap = Duration::from_secs(std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap));
    let b = run_batch(&prop, seed, runs, workers, cap, &known);
    let search = t0.elapsed().as_secs_f64();
    let sh = mmap_shared(std::mem::size_of::<rt::Shared>()) as *mut rt::Shared;

    let executed = b.recs.iter().filter(|r| r.state != 0).count() as u64;
    let mut distinct = HashSet::new();
    let mut all_hist = HashSet::new();
    let mut nontrivial = 0u64;
    let mut steps = 0u64;
    let mut longest = 0u64;
    let mut choices = 0u64;
    for r in b.recs.iter().filter(|r| r.state != 0) {
        steps += r.steps;
        longest = longest.max(r.steps);
        choices += r.choices as u64;
        all_hist.insert(r.hash);
        if r.state & 16 != 0 {
            nontrivial += 1;
            distinct.insert(r.hash);
        }
    }

    for k in known.iter().filter(|k| k.property == id) {
        println!("KNOWN-FINDING: property={id} {}", k.what);
    }

    let mut rc = 0;
    let mut violation = String::new();
    if let Some(mut i) = b.lowest {
        let mut rs = run_seed(seed, id, i);
        let mut v = run_child(sh, &prop, rs, None, None);
        for _ in 0..4 {
            if v.status == rt::ST_VIOLATION {
                break;
            }
            std::thread::sleep(Duration::from_millis(250));
            v = run_child(sh, &prop, rs, None, None);
        }
        if v.status == rt::ST_HARNESS {
            eprintln!("HARNESS-ERROR property={id} run={i}: {}", v.msg);
            rc = 2;
        } else if v.status != rt::ST_VIOLATION {
            eprintln!("HARNESS-ERROR property={id} run={i}: failed in the search but not when repeated");
            rc = 2;
        } else {
            if v.class != "hang" && v.class != "no-progress" && v.choices.len() > 40 {
                let j = shortest(&prop, seed, i, &v, workers as u64, &known);
                if j != i {
                    println!("first violation in run {i} ({} choices); a shorter one follows", v.choices.len());
                    i = j;
                    rs = run_seed(seed, id, i);
                    v = run_child(sh, &prop, rs, None, None);
                }
            }
            let original = v.choices.len();
            let budget = if v.class == "hang" { 0 } else if tier == "thorough" { 60 } else { 25 };
            let (mut best, tried) = if budget == 0 { (v.clone(), 0) } else { shrink(sh, &prop, v.clone(), Duration::from_secs(budget)) };
            let (mut again, mut trace) = traced(sh, &prop, 0, Some(best.choices.clone()));
            for _ in 0..4 {
                if again.status == rt::ST_VIOLATION && again.class == best.class {
                    break;
                }
                // fall back on the run as it was found
                best = v.clone();
                (again, trace) = traced(sh, &prop, 0, Some(best.choices.clone()));
            }
            if again.status != rt::ST_VIOLATION || again.class != best.class {
                eprintln!("HARNESS-ERROR property={id} run={i}: minimised run does not reproduce");
                rc = 2;
            } else {
                let dir = format!("{root}/replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{id}-s{seed}-r{i}.json");
                let mut o = String::new();
                o.push_str(&format!("{{\n \"property\": {},\n \"seed\": {seed},\n \"run\": {i},\n \"run_seed\": {rs},\n \"class\": {},\n \"message\": {},\n", esc(id), esc(&again.class), esc(&again.msg)));
                o.push_str(&format!(" \"history_hash\": \"{:016x}\",\n \"original_choices\": {original},\n \"minimisation_runs\": {tried},\n", again.hash));
                o.push_str(&format!(" \"choices\": [{}],\n", best.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
                o.push_str(" \"trace\": [\n");
                let t = condensed(&trace, 600);
                for (k, l) in t.iter().enumerate() {
                    o.push_str(&format!("  {}{}\n", esc(l), if k + 1 < t.len() { "," } else { "" }));
                }
                o.push_str(" ]\n}\n");
                if std::fs::write(&path, o).is_err() {
                    eprintln!("cannot write {path}");
                }
                println!("{}: {}", again.class, again.msg);
                println!("seed {seed} run {i} (run seed {rs}); {} choices after minimisation ({original} before); replay: ./check.sh replay {path}", best.choices.len());
                println!("VIOLATION property={id} replay={path}");
                violation = format!("{}: {}", again.class, again.msg);
                rc = 1;
            }
        }
    }

    // samples: a few actual runs of this batch, re-executed with the trace on
    let mut samples = vec![];
    let mut want: Vec<u64> = b.recs.iter().enumerate().filter(|(_, r)| r.state & 16 != 0).map(|(i, _)| i as u64).take(2).collect();
    if let Some(x) = b.recs.iter().enumerate().filter(|(_, r)| r.state & 16 != 0).map(|(i, _)| i as u64).nth(nontrivial as usize / 2) {
        want.push(x);
    }
    want.dedup();
    for i in want {
        let (v, t) = traced(sh, &prop, run_seed(seed, id, i), None);
        let lines: Vec<String> = condensed(&t, 40).iter().map(|l| esc(&l.chars().take(300).collect::<String>())).collect();
        samples.push(format!("{{\"run\": {i}, \"run_seed\": {}, \"choices\": {}, \"steps\": {}, \"history_hash\": \"{:016x}\", \"trace\": [{}]}}", run_seed(seed, id, i), v.choices.len(), v.steps, v.hash, lines.join(", ")));
    }

    let wall = t0.elapsed().as_secs_f64();
    let faults: Vec<String> = b.counters.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| format!("{}: {v}", esc(&k[6..]))).collect();
    let probes: Vec<String> = b.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {executed},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_planned\": {runs},\n  \"stopped_by_time_limit\": {},\n  \"nontrivial_runs\": {nontrivial},\n  \"distinct_histories\": {},\n  \"measure_of_distinctness\": {},\n   \"runs_per_hour\": {:.0},\n  \"simulated_steps\": {steps},\n  \"longest_run_steps\": {longest},\n  \"simulated_seconds\": {:.3},\n  \"choices_drawn\": {choices},\n  \"faults_injected\": {{{}}},\n  \"probes\": {{{}}},\n  \"known_finding_hits\": {},\n  \"runs_cut_short_and_repeated\": {},\n  \"real_code\": {},\n  \"stubbed\": {},\n  \"workers\": {workers}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.3},\n \"violations\": {}{}\n}}\n",
        esc(id),
        esc(tier),
        distinct.len(),
        esc(prop.rule),
        samples.join(", "),
        b.capped,
        all_hist.len(),
        esc("64-bit hash over every scheduling switch, every fault with its parameters, the inputs generated and the answers observed; two runs count as the same history only if these agree"),
        executed as f64 / search * 3600.0,
        steps as f64 / 1e6,
        faults.join(", "),
        probes.join(", "),
        b.known_hits,
        b.unrepeated,
        esc(prop.real),
        esc("file system, file descriptors, clock, sleep, lock waiting and getrandom at the libc boundary (in-memory disk, simulated); the fxhash hasher's seed constant; callers' graphs, readers, writers and iterators (the code's own trait seams); thread scheduling (token passing between real threads)"),
        [
            "sequentially consistent interleaving at seam crossings: only one simulated client runs between two yield points",
            "the simulated disk follows POSIX open/read/write/close semantics; data accepted by write survives a crash up to the torn prefix chosen for the call in progress",
            "one simulated step counts as one microsecond of simulated time",
        ]
        .iter()
        .map(|s| esc(s))
        .collect::<Vec<_>>()
        .join(", "),
        if rc == 1 { 1 } else { 0 },
        if violation.is_empty() { String::new() } else { format!(",\n \"violation\": {}", esc(&violation)) },
    );
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if rc == 0 {
        println!(
            "property {id} held: {executed} runs, {} distinct nontrivial histories, {steps} simulated steps (longest run {longest}), {:.1} s{}",
            distinct.len(),
            wall,
            if b.capped { " (stopped by time limit)" } else { "" }
        );
    }
    let _ = std::io::stdout().flush();
    rc
}

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let p = s.find(&format!("\"{k}\":"))? + k.len() + 3;
    Some(s[p..].trim_start())
}

fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let quoted = |k| field(&s, k).and_then(|x| x[1..].split('"').next()).unwrap_or("").to_string();
    let id = quoted("property");
    let class = quoted("class");
    let hash = quoted("history_hash");
    let list = field(&s, "choices").and_then(|x| x[1..].split(']').next()).unwrap_or("");
    let choices: Vec<u32> = list.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let Some(prop) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let sh = mmap_shared(std::mem::size_of::<rt::Shared>()) as *mut rt::Shared;
    let (v, t) = traced(sh, &prop, 0, Some(choices));
    for l in &t {
        println!("{l}");
    }
    if v.status == rt::ST_VIOLATION {
        println!("{}: {}", v.class, v.msg);
        println!("recorded class {class}, same: {}; history hash {:016x}, same: {}", class == v.class, v.hash, hash == format!("{:016x}", v.hash));
        println!("VIOLATION property={id} replay={path}");
        1
    } else if v.status == rt::ST_HARNESS {
        eprintln!("harness error: {}", v.msg);
        2
    } else {
        println!("property {id} holds on this replay");
        0
    }
}

/// Addresses are an input like any other: the same in every execution of this program, so that
/// code that looks at them behaves the same in the search and in a replay.
fn fix_addresses() {
    const NO_RANDOM: libc::c_ulong = 0x0040000;
    unsafe {
        let now = libc::personality(0xffffffff);
        if now < 0 || now as libc::c_ulong & NO_RANDOM != 0 || std::env::var_os("SIM_FIXED").is_some() {
            return;
        }
        if libc::personality(now as libc::c_ulong | NO_RANDOM) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(me) = std::env::current_exe() {
        let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("SIM_FIXED", "1").exec();
    }
}

fn main() {
    fix_addresses();
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = opt("--tier").unwrap_or_else(|| "quick".into());
            let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            check(&a[2], &tier, seed, &root)
        }
        Some("replay") => replay(&a[2]),
        Some("one") => {
            let prop = props::all().into_iter().find(|p| p.id == a[2]).expect("property");
            let seed: u64 = a[3].parse().unwrap();
            let i: u64 = a[4].parse().unwrap();
            let sh = mmap_shared(std::mem::size_of::<rt::Shared>()) as *mut rt::Shared;
            let (v, t) = traced(sh, &prop, run_seed(seed, &a[2], i), None);
            for l in &t {
                println!("{l}");
            }
            println!("status {} class {} msg {} choices {} steps {} hash {:016x}", v.status, v.class, v.msg, v.choices.len(), v.steps, v.hash);
            0
        }
        Some("digest") => {
            let prop = props::all().into_iter().find(|p| p.id == a[2]).expect("property");
            let seed: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            let w: usize = a[5].parse().unwrap();
            let b = run_batch(&prop, seed, n, w, Duration::from_secs(3600), &[]);
            let mut h = 0u64;
            for (i, r) in b.recs.iter().enumerate() {
                if a.get(6).is_some() {
                    println!("{i} {:016x} {} {} {}", r.hash, r.steps, r.choices, r.state);
                }
                h = rt::mix(h ^ r.hash, r.steps ^ ((r.state as u64) << 40) ^ ((r.choices as u64) << 48));
            }
            println!("{} {:016x}", a[2], h);
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|one|digest|list ...");
            2
        }
    };
    std::process::exit(rc);
}
