//! In-memory disk behind the libc boundary.
//!
//! The harness executable defines the libc file functions itself, so the real `std::fs::File`,
//! `BufReader`, `BufWriter` and flate2 code runs unchanged above this seam.  Paths under `/simfs/`
//! and the descriptors opened from them live here; everything else is forwarded to the kernel.

use crate::{rt, sched};
use libc::*;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::ffi::CStr;

pub const ROOT: &str = "/simfs/";
const FD_BASE: c_int = 1_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Read,
    Write,
    Stat,
    Sync,
    Rename,
    Any,
}

#[derive(Clone, Debug)]
pub struct Hard {
    pub op: Op,
    /// only calls of this client (thread); None = all
    pub client: Option<usize>,
    /// fires at the nth matching call (0 = first)
    pub nth: u64,
    pub errno: c_int,
    /// keeps failing afterwards
    pub sticky: bool,
}

/// What the simulated disk does to the program during one phase of a run.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// out of 16
    pub short_w: u64,
    pub short_r: u64,
    pub eintr: u64,
    pub hard: Vec<Hard>,
    /// bytes that may still be written before ENOSPC
    pub capacity: Option<u64>,
    /// the process dies in the nth file system call
    pub crash_at: Option<u64>,
    /// reported sizes are wrong: 0 = honest, 1 = always zero, 2 = half, 3 = double plus one
    pub size_lie: u64,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub data: Vec<u8>,
    pub dir: bool,
}

struct Ofd {
    ino: usize,
    pos: usize,
    append: bool,
    r: bool,
    w: bool,
    eintr_run: u32,
    path: String,
    client: usize,
}

pub struct Fired {
    pub client: usize,
    pub errno: c_int,
    pub op: Op,
}

pub struct Fs {
    pub nodes: Vec<Node>,
    pub names: BTreeMap<String, usize>,
    fds: Vec<Option<Ofd>>,
    pub plan: Plan,
    hard_seen: Vec<u64>,
    pub fired: Vec<Fired>,
    pub frozen: bool,
    pub calls: u64,
    pub written: u64,
}

struct FsCell(UnsafeCell<Option<Fs>>);
unsafe impl Sync for FsCell {}
static FS: FsCell = FsCell(UnsafeCell::new(None));

pub fn fs() -> &'static mut Fs {
    unsafe { (*FS.0.get()).get_or_insert_with(Fs::new) }
}

impl Fs {
    fn new() -> Fs {
        Fs {
            nodes: vec![],
            names: BTreeMap::new(),
            fds: vec![],
            plan: Plan::default(),
            hard_seen: vec![],
            fired: vec![],
            frozen: false,
            calls: 0,
            written: 0,
        }
    }
    pub fn set_plan(&mut self, p: Plan) {
        ev!("disk plan: {p:?}");
        self.hard_seen = vec![0; p.hard.len()];
        self.fired.clear();
        self.plan = p;
        self.calls = 0;
    }
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        self.nodes.push(Node { data, dir: false });
        self.names.insert(path.to_string(), self.nodes.len() - 1);
    }
    pub fn remove(&mut self, path: &str) {
        self.names.remove(path);
    }
    pub fn mkdir(&mut self, path: &str) {
        self.nodes.push(Node { data: vec![], dir: true });
        self.names.insert(path.to_string(), self.nodes.len() - 1);
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.names.get(path).map(|&i| &self.nodes[i].data)
    }
    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|f| f.is_some()).count()
    }
    pub fn open_paths(&self) -> Vec<String> {
        self.fds.iter().flatten().map(|f| f.path.clone()).collect()
    }
    /// Files this client opened and has not closed.
    pub fn open_by(&self, client: usize) -> Vec<String> {
        self.fds.iter().flatten().filter(|f| f.client == client).map(|f| f.path.clone()).collect()
    }
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        self.names.iter().map(|(k, &i)| (k.clone(), self.nodes[i].data.clone())).collect()
    }
    /// The process is gone: descriptors are closed, memory is lost, the disk stays as it is.
    pub fn restart(&mut self) {
        self.fds.clear();
        self.frozen = false;
        self.set_plan(Plan::default());
    }
    pub fn fired_by(&self, client: usize) -> Vec<c_int> {
        self.fired.iter().filter(|f| f.client == client).map(|f| f.errno).collect()
    }

    fn install(&mut self, o: Ofd) -> c_int {
        for (i, f) in self.fds.iter_mut().enumerate() {
            if f.is_none() {
                *f = Some(o);
                return FD_BASE + i as c_int;
            }
        }
        self.fds.push(Some(o));
        FD_BASE + self.fds.len() as c_int - 1
    }

    /// Common entry of a simulated system call.  Returns an injected errno, if any.
    fn enter(&mut self, op: Op) -> Option<c_int> {
        let n = self.calls;
        self.calls += 1;
        if self.frozen {
            return None;
        }
        if self.plan.crash_at == Some(n) && op != Op::Write {
            self.crash();
            return None;
        }
        let me = sched::me();
        for i in 0..self.plan.hard.len() {
            let h = &self.plan.hard[i];
            if (h.op == op || h.op == Op::Any) && h.client.map_or(true, |c| c == me) {
                let k = self.hard_seen[i];
                self.hard_seen[i] += 1;
                if k == h.nth || (h.sticky && k > h.nth) {
                    let e = h.errno;
                    self.note_fault(op, e);
                    return Some(e);
                }
            }
        }
        None
    }
    fn note_fault(&mut self, op: Op, e: c_int) {
        rt::count(match (op, e) {
            (Op::Open, _) => "fault.open_error",
            (Op::Read, _) => "fault.read_error",
            (Op::Write, ENOSPC) => "fault.write_enospc",
            (Op::Write, _) => "fault.write_error",
            (Op::Stat, _) => "fault.stat_error",
            _ => "fault.other_error",
        });
        rt::effect();
        rt::obs(0xE000 + e as u64);
        ev!("  -> injected errno {e}");
        self.fired.push(Fired { client: sched::me(), errno: e, op });
    }
    fn crash(&mut self) {
        rt::count("fault.crash");
        rt::effect();
        rt::obs(0xDEAD);
        ev!("  -> the process dies here");
        self.frozen = true;
    }
    fn eintr(&mut self, i: usize) -> bool {
        if self.plan.eintr == 0 || self.frozen {
            return false;
        }
        let f = self.fds[i].as_mut().unwrap();
        if f.eintr_run < 3 && rt::chance(self.plan.eintr, 16) {
            f.eintr_run += 1;
            rt::count("fault.eintr");
            rt::effect();
            rt::obs(0xE1);
            ev!("  -> EINTR");
            return true;
        }
        f.eintr_run = 0;
        false
    }
}

/// The kernel itself: the harness defines `syscall` too, so it enters the kernel directly.
pub unsafe fn kernel(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as c_int;
        return -1;
    }
    r as c_long
}
macro_rules! sys {
    ($n:expr) => { kernel($n, 0, 0, 0, 0, 0, 0) };
    ($n:expr, $a:expr) => { kernel($n, $a as usize, 0, 0, 0, 0, 0) };
    ($n:expr, $a:expr, $b:expr) => { kernel($n, $a as usize, $b as usize, 0, 0, 0, 0) };
    ($n:expr, $a:expr, $b:expr, $c:expr) => { kernel($n, $a as usize, $b as usize, $c as usize, 0, 0, 0) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr) => { kernel($n, $a as usize, $b as usize, $c as usize, $d as usize, 0, 0) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => { kernel($n, $a as usize, $b as usize, $c as usize, $d as usize, $e as usize, 0) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr, $f:expr) => { kernel($n, $a as usize, $b as usize, $c as usize, $d as usize, $e as usize, $f as usize) };
}

fn shorten(p: u64, n: usize) -> usize {
    if n <= 1 || p == 0 || !rt::chance(p, 16) {
        return n;
    }
    let k = match rt::draw(4) {
        0 => n - 1,
        1 => 1,
        2 => n / 2,
        _ => 1 + rt::draw(n as u64 - 1) as usize,
    };
    k.max(1)
}

unsafe fn set_errno(e: c_int) -> c_int {
    *__errno_location() = e;
    -1
}
unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if p.is_null() || !rt::active() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b.starts_with(ROOT.as_bytes()) {
        Some(String::from_utf8_lossy(b).into_owned())
    } else {
        None
    }
}
fn sim_fd(fd: c_int) -> Option<usize> {
    if fd >= FD_BASE && rt::active() { Some((fd - FD_BASE) as usize) } else { None }
}
/// The open file behind a simulated descriptor.
fn ofd(i: usize) -> Option<&'static mut Ofd> {
    fs().fds.get_mut(i).and_then(|f| f.as_mut())
}

unsafe fn do_open(path: String, flags: c_int) -> c_int {
    sched::yield_point();
    ev!("open {path} flags {flags:#o}");
    let f = fs();
    if let Some(e) = f.enter(Op::Open) {
        return set_errno(e);
    }
    let w = flags & O_ACCMODE != O_RDONLY;
    let r = flags & O_ACCMODE != O_WRONLY;
    if f.frozen {
        // the dead process "continues" without effect
        f.nodes.push(Node { data: vec![], dir: false });
        let ino = f.nodes.len() - 1;
        return f.install(Ofd { ino, pos: 0, append: false, r, w, eintr_run: 0, path, client: sched::me() });
    }
    if f.plan.eintr > 0 && rt::chance(f.plan.eintr, 32) {
        rt::count("fault.eintr");
        ev!("  -> EINTR");
        return set_errno(EINTR);
    }
    let ino = match f.names.get(&path) {
        Some(&i) => {
            if flags & O_EXCL != 0 && flags & O_CREAT != 0 {
                return set_errno(EEXIST);
            }
            if f.nodes[i].dir && w {
                return set_errno(EISDIR);
            }
            if flags & O_TRUNC != 0 && w {
                f.nodes[i].data.clear();
            }
            i
        }
        None => {
            if flags & O_CREAT == 0 {
                return set_errno(ENOENT);
            }
            // parent directory must be the root of the simulated disk or a known directory
            let parent = &path[..path.rfind('/').unwrap() + 1];
            if parent != ROOT && !f.names.get(&parent[..parent.len() - 1]).map_or(false, |&i| f.nodes[i].dir) {
                return set_errno(ENOENT);
            }
            f.put(&path, vec![]);
            f.nodes.len() - 1
        }
    };
    f.install(Ofd { ino, pos: 0, append: flags & O_APPEND != 0, r, w, eintr_run: 0, path, client: sched::me() })
}

unsafe fn do_read(i: usize, buf: *mut u8, n: usize, at: Option<usize>) -> ssize_t {
    sched::yield_point();
    let f = fs();
    if let Some(e) = f.enter(Op::Read) {
        return set_errno(e) as ssize_t;
    }
    if ofd(i).is_none() {
        return set_errno(EBADF) as ssize_t;
    }
    if f.frozen {
        return 0;
    }
    if f.eintr(i) {
        return set_errno(EINTR) as ssize_t;
    }
    let o = ofd(i).unwrap();
    if !o.r {
        return set_errno(EBADF) as ssize_t;
    }
    let node = &fs().nodes[o.ino];
    if node.dir {
        return set_errno(EISDIR) as ssize_t;
    }
    let pos = at.unwrap_or(o.pos);
    let avail = node.data.len().saturating_sub(pos).min(n);
    let k = shorten(fs().plan.short_r, avail);
    if k < avail {
        rt::count("fault.short_read");
        rt::effect();
        rt::obs(0x5E00 ^ k as u64);
    }
    std::ptr::copy_nonoverlapping(node.data.as_ptr().add(pos.min(node.data.len())), buf, k);
    if at.is_none() {
        o.pos += k;
    }
    ev!("read {} ({n} asked) -> {k}", o.path);
    k as ssize_t
}

unsafe fn do_write(i: usize, data: &[u8], at: Option<usize>) -> ssize_t {
    sched::yield_point();
    let f = fs();
    let n = data.len();
    if let Some(e) = f.enter(Op::Write) {
        return set_errno(e) as ssize_t;
    }
    if ofd(i).is_none() {
        return set_errno(EBADF) as ssize_t;
    }
    if f.frozen {
        return n as ssize_t;
    }
    let crashing = f.plan.crash_at == Some(f.calls - 1);
    if !crashing && f.eintr(i) {
        return set_errno(EINTR) as ssize_t;
    }
    let o = ofd(i).unwrap();
    if !o.w {
        return set_errno(EBADF) as ssize_t;
    }
    let mut k = if crashing {
        // torn: any prefix of this write reaches the file
        let k = rt::draw(n as u64 + 1) as usize;
        if k > 0 && k < n {
            rt::count("fault.torn_write");
        }
        k
    } else {
        let k = shorten(f.plan.short_w, n);
        if k < n {
            rt::count("fault.short_write");
            rt::effect();
            rt::obs(0x5F00 ^ k as u64);
        }
        k
    };
    if let Some(c) = f.plan.capacity.as_mut() {
        if n > 0 && *c == 0 {
            f.note_fault(Op::Write, ENOSPC);
            return set_errno(ENOSPC) as ssize_t;
        }
        k = k.min(*c as usize);
        *c -= k as u64;
    }
    let d = &mut fs().nodes[o.ino].data;
    let pos = if o.append { d.len() } else { at.unwrap_or(o.pos) };
    if d.len() < pos + k {
        d.resize(pos + k, 0);
    }
    d[pos..pos + k].copy_from_slice(&data[..k]);
    if at.is_none() {
        o.pos = pos + k;
    }
    fs().written += k as u64;
    ev!("write {} {n} bytes at {pos} -> {k}", o.path);
    if crashing {
        f.crash();
        return n as ssize_t;
    }
    k as ssize_t
}

fn size_of_node(ino: usize) -> u64 {
    let l = fs().nodes[ino].data.len() as u64;
    match fs().plan.size_lie {
        0 => l,
        k => {
            rt::count("fault.wrong_size");
            rt::effect();
            match k {
                1 => 0,
                2 => l / 2,
                _ => l * 2 + 1,
            }
        }
    }
}

unsafe fn fill_stat(ino: usize, st: *mut stat) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat>());
    (*st).st_mode = if fs().nodes[ino].dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
    (*st).st_size = size_of_node(ino) as i64;
    (*st).st_blksize = 4096;
    (*st).st_nlink = 1;
    (*st).st_ino = ino as u64 + 1;
}
unsafe fn fill_statx(ino: usize, st: *mut statx) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<statx>());
    (*st).stx_mask = STATX_BASIC_STATS;
    (*st).stx_mode = (if fs().nodes[ino].dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 }) as u16;
    (*st).stx_size = size_of_node(ino);
    (*st).stx_blksize = 4096;
    (*st).stx_nlink = 1;
    (*st).stx_ino = ino as u64 + 1;
}

unsafe fn stat_target(fd: Option<usize>, path: Option<String>) -> Result<usize, c_int> {
    sched::yield_point();
    if let Some(e) = fs().enter(Op::Stat) {
        return Err(e);
    }
    if let Some(i) = fd {
        return ofd(i).map(|o| o.ino).ok_or(EBADF);
    }
    fs().names.get(&path.unwrap()).copied().ok_or(ENOENT)
}

// ---- the libc boundary ------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match sim_path(path) {
        Some(p) => do_open(p, flags),
        None => sys!(SYS_openat, AT_FDCWD, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match sim_path(path) {
        Some(p) => do_open(p, flags),
        None => sys!(SYS_openat, dir, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match sim_fd(fd) {
        Some(i) => do_read(i, buf as *mut u8, n, None),
        None => sys!(SYS_read, fd, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match sim_fd(fd) {
        Some(i) => do_read(i, buf as *mut u8, n, Some(off as usize)),
        None => sys!(SYS_pread64, fd, buf, n, off) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    match sim_fd(fd) {
        Some(i) => {
            for k in 0..cnt {
                let v = &*iov.offset(k as isize);
                if v.iov_len > 0 {
                    return do_read(i, v.iov_base as *mut u8, v.iov_len, None);
                }
            }
            0
        }
        None => sys!(SYS_readv, fd, iov, cnt) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match sim_fd(fd) {
        Some(i) => do_write(i, std::slice::from_raw_parts(buf as *const u8, n), None),
        None => sys!(SYS_write, fd, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match sim_fd(fd) {
        Some(i) => do_write(i, std::slice::from_raw_parts(buf as *const u8, n), Some(off as usize)),
        None => sys!(SYS_pwrite64, fd, buf, n, off) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    match sim_fd(fd) {
        Some(i) => {
            let mut all = vec![];
            for k in 0..cnt {
                let v = &*iov.offset(k as isize);
                if v.iov_len > 0 {
                    all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
                }
            }
            do_write(i, &all, None)
        }
        None => sys!(SYS_writev, fd, iov, cnt) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(i) => {
            sched::yield_point();
            let f = fs();
            f.calls += 1;
            if !f.frozen && f.plan.crash_at == Some(f.calls - 1) {
                f.crash();
            }
            match f.fds.get_mut(i) {
                Some(s) if s.is_some() => {
                    ev!("close {}", s.as_ref().unwrap().path);
                    *s = None;
                    0
                }
                _ => set_errno(EBADF),
            }
        }
        None => sys!(SYS_close, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    match sim_fd(fd) {
        Some(i) => match ofd(i) {
            Some(o) => {
                let base = match whence {
                    SEEK_SET => 0,
                    SEEK_CUR => o.pos as i64,
                    _ => fs().nodes[o.ino].data.len() as i64,
                };
                if base + off < 0 {
                    return set_errno(EINVAL) as off64_t;
                }
                o.pos = (base + off) as usize;
                o.pos as off64_t
            }
            None => set_errno(EBADF) as off64_t,
        },
        None => sys!(SYS_lseek, fd, off, whence) as off64_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    match sim_fd(fd) {
        Some(i) => {
            sched::yield_point();
            if let Some(e) = fs().enter(Op::Any) {
                return set_errno(e);
            }
            match ofd(i) {
                Some(o) => {
                    if !fs().frozen {
                        fs().nodes[o.ino].data.resize(len as usize, 0);
                    }
                    0
                }
                None => set_errno(EBADF),
            }
        }
        None => sys!(SYS_ftruncate, fd, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn do_sync(i: usize) -> c_int {
    sched::yield_point();
    if let Some(e) = fs().enter(Op::Sync) {
        return set_errno(e);
    }
    if ofd(i).is_some() { 0 } else { set_errno(EBADF) }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(i) => do_sync(i),
        None => sys!(SYS_fsync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(i) => do_sync(i),
        None => sys!(SYS_fdatasync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat) -> c_int {
    match sim_fd(fd) {
        Some(i) => match stat_target(Some(i), None) {
            Ok(ino) => {
                fill_stat(ino, st);
                0
            }
            Err(e) => set_errno(e),
        },
        None => sys!(SYS_fstat, fd, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut stat) -> c_int {
    match sim_path(path) {
        Some(p) => match stat_target(None, Some(p)) {
            Ok(ino) => {
                fill_stat(ino, st);
                0
            }
            Err(e) => set_errno(e),
        },
        None => sys!(SYS_stat, path, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut stat) -> c_int {
    match sim_path(path) {
        Some(_) => stat64(path, st),
        None => sys!(SYS_lstat, path, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, st: *mut statx) -> c_int {
    let t = if let Some(i) = sim_fd(dir) {
        Some(stat_target(Some(i), None))
    } else {
        sim_path(path).map(|p| stat_target(None, Some(p)))
    };
    match t {
        Some(Ok(ino)) => {
            fill_statx(ino, st);
            0
        }
        Some(Err(e)) => set_errno(e),
        None => sys!(SYS_statx, dir, path, flags, mask, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(x), Some(y)) => {
            sched::yield_point();
            ev!("rename {x} {y}");
            let f = fs();
            if let Some(e) = f.enter(Op::Rename) {
                return set_errno(e);
            }
            if f.frozen {
                return 0;
            }
            match f.names.remove(&x) {
                Some(i) => {
                    f.names.insert(y, i);
                    0
                }
                None => set_errno(ENOENT),
            }
        }
        (None, None) => sys!(SYS_rename, a, b) as c_int,
        _ => set_errno(EXDEV),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    match sim_path(a) {
        Some(x) => {
            sched::yield_point();
            ev!("unlink {x}");
            let f = fs();
            if let Some(e) = f.enter(Op::Any) {
                return set_errno(e);
            }
            if f.frozen {
                return 0;
            }
            match f.names.remove(&x) {
                Some(_) => 0,
                None => set_errno(ENOENT),
            }
        }
        None => sys!(SYS_unlink, a) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    match sim_path(a) {
        Some(x) => {
            let x = x.trim_end_matches('/').to_string();
            if fs().names.contains_key(&x) {
                return set_errno(EEXIST);
            }
            fs().mkdir(&x);
            0
        }
        None => sys!(SYS_mkdir, a, mode as c_uint) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(a: *const c_char, mode: c_int) -> c_int {
    match sim_path(a) {
        Some(x) => if fs().names.contains_key(&x) { 0 } else { set_errno(ENOENT) },
        None => sys!(SYS_access, a, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    match sim_fd(fd) {
        Some(_) => 0,
        None => sys!(SYS_fchmod, fd, mode as c_uint) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match sim_fd(fd) {
        Some(i) => match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => match ofd(i) {
                // (duplicates get their own offset; no code here relies on a shared one)
                Some(o) => {
                    let n = Ofd { ino: o.ino, pos: o.pos, append: o.append, r: o.r, w: o.w, eintr_run: 0, path: o.path.clone(), client: o.client };
                    fs().install(n)
                }
                None => set_errno(EBADF),
            },
            F_GETFD => FD_CLOEXEC,
            _ => 0,
        },
        None => sys!(SYS_fcntl, fd, cmd, arg) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    match sim_fd(fd) {
        Some(_) => 0,
        None => sys!(SYS_flock, fd, op) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if sim_fd(a).is_some() || sim_fd(b).is_some() {
        return set_errno(ENOSYS) as ssize_t;
    }
    sys!(SYS_copy_file_range, a, oa, b, ob, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if sim_fd(a).is_some() || sim_fd(b).is_some() {
        return set_errno(ENOSYS) as ssize_t;
    }
    sys!(SYS_sendfile, a, b, off, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    if sim_fd(fd).is_some() {
        return 0;
    }
    sys!(SYS_fadvise64, fd, a, b, c) as c_int
}

/// std's blocking primitives wait here.  A simulated client that would sleep on a lock lets the
/// scheduler run somebody else and then looks again (a spurious wake-up, which futex allows).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == SYS_futex && sched::is_client() {
        let op = (b as c_int) & 0x7f & !FUTEX_CLOCK_REALTIME;
        if op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET {
            rt::count("seam.futex_wait");
            sched::force_yield();
            return set_errno(EAGAIN) as c_long;
        }
    }
    kernel(n, a, b, c, d, e, f)
}
/// Simulated clock: one microsecond per step.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, t: *mut timespec) -> c_int {
    if rt::active() {
        let s = rt::steps();
        (*t).tv_sec = 1_700_000_000 + (s / 1_000_000) as i64;
        (*t).tv_nsec = (s % 1_000_000) as i64 * 1000;
        return 0;
    }
    sys!(SYS_clock_gettime, id, t) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if rt::active() {
        sched::force_yield();
        return 0;
    }
    sys!(SYS_nanosleep, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, fl: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if rt::active() {
        sched::force_yield();
        return 0;
    }
    if sys!(SYS_clock_nanosleep, id, fl, a, b) < 0 { *__errno_location() } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if rt::active() {
        sched::force_yield();
        return 0;
    }
    sys!(SYS_sched_yield) as c_int
}

/// std seeds its hash maps from here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if rt::active() {
        rt::count("seam.getrandom");
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for c in b.chunks_mut(8) {
            let x = rt::entropy().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
        return n as ssize_t;
    }
    sys!(SYS_getrandom, buf, n, flags) as ssize_t
}

/// Draw a healthy-but-awkward disk: short transfers and interrupted calls at run-chosen rates.
pub fn awkward() -> Plan {
    let mut p = Plan::default();
    if rt::chance(3, 4) {
        p.short_w = *rt::pick(&[0u64, 2, 8, 15]);
        p.short_r = *rt::pick(&[0u64, 2, 8, 15]);
        p.eintr = *rt::pick(&[0u64, 1, 5]);
    }
    p
}
