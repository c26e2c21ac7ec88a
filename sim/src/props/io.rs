//! C01-C06: saving and loading.

use crate::fsim::{self, fs, Hard, Op, Plan};
use crate::gen::*;
use crate::oracle::show;
use crate::rt::{self, chance, draw, pick, range, weighted, Rng};
use crate::sched::{self, no_panic, op_boundary, run_threads};
use crate::Prop;
use flate2::read::GzDecoder;
use flate2::write::GzEncoder;
use flate2::{Compression, GzBuilder};
use graphbench::degengraph::DegenGraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{self, BufRead, BufReader, BufWriter, Read, Write};
use std::sync::{Arc, Mutex};

// ---- objects ----------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obj {
    G(RG),
    S(Set),
    Q(Vec<V>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    G,
    S,
    Q,
}

impl Obj {
    pub fn ty(&self) -> Ty {
        match self {
            Obj::G(_) => Ty::G,
            Obj::S(_) => Ty::S,
            Obj::Q(_) => Ty::Q,
        }
    }
    /// the object as it comes back from a file
    pub fn stored(&self) -> Obj {
        match self {
            Obj::G(g) => Obj::G(g.without_isolates()),
            o => o.clone(),
        }
    }
    pub fn desc(&self) -> String {
        match self {
            Obj::G(g) => format!("graph {}", g.show()),
            Obj::S(s) => format!("set of {} {}", s.len(), show(s)),
            Obj::Q(q) => format!("sequence of {} {}", q.len(), show(q)),
        }
    }
    pub fn obs(&self) {
        match self {
            Obj::G(g) => g.obs(),
            Obj::S(s) => obs_set(s),
            Obj::Q(q) => rt::obs(q.iter().fold(1, |h, v| rt::mix(h, *v as u64))),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Obj::G(g) => g.m(),
            Obj::S(s) => s.len(),
            Obj::Q(q) => q.len(),
        }
    }
}

pub fn random_obj(big: bool) -> Obj {
    let n = match if big { weighted(&[10, 6, 5, 3]) } else { weighted(&[10, 5, 0, 0]) } {
        0 => draw(8),
        1 => range(8, 120),
        2 => range(120, 2500), // past one 8 KB buffer
        _ if chance(1, 60) => {
            rt::count("gen.huge");
            if chance(1, 4) {
                range(400_000, 1_000_000) // past 4 MB
            } else {
                range(15000, 150000) // around and past 1 MB
            }
        }
        _ => {
            rt::count("gen.large");
            range(2500, 15000) // past 32 KB and 64 KB
        }
    };
    match draw(3) {
        0 => {
            let o = Opts { loops: true, huge_ids: true, ..Opts::sizes(n.min(40), n.min(40), n.min(40), 0) };
            if n <= 40 {
                Obj::G(graph(o))
            } else {
                let mut r = Rng(rt::sub_seed());
                let idr = *pick(&[0u64, 10_000_000, 1 << 32]).max(&(n * 2));
                // ends of one side from few vertices make hubs
                let idr2 = *pick(&[idr, idr, 1, 3, 20]);
                let mut g = RG::new();
                for _ in 0..n {
                    let (a, b) = (r.below(idr) as V, r.below(idr2) as V);
                    g.add_e(a, b);
                }
                g.obs();
                Obj::G(g)
            }
        }
        k => {
            let mut r = Rng(rt::sub_seed());
            let idr = *pick(&[0u64, 1000, 1 << 32]).max(&(n * 2 + 1));
            let idr = if k == 2 { *pick(&[idr, idr, idr, 1, 3, 20]) } else { idr };
            let mut v: Vec<V> = (0..n).map(|_| r.below(idr) as V).collect();
            match draw(8) {
                // as sequences come: ascending, descending, in blocks
                5 => v.sort_unstable(),
                6 => {
                    v.sort_unstable();
                    v.reverse();
                }
                7 => (1..v.len()).for_each(|i| if r.below(4) != 0 { v[i] = v[i - 1] }),
                _ => {}
            }
            if n > 0 && chance(1, 6) {
                v[0] = V::MAX;
            }
            let o = if k == 1 { Obj::S(v.into_iter().collect()) } else { Obj::Q(v) };
            o.obs();
            o
        }
    }
}

// ---- caller-supplied sinks and sources --------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct SinkPlan {
    pub short: u64,
    pub eintr: u64,
    /// the nth write call fails: kind
    pub fail_at: Option<(u64, io::ErrorKind, bool)>,
    pub zero_at: Option<u64>,
    pub flush_fail: Option<io::ErrorKind>,
    pub crash: bool,
}
#[derive(Default)]
pub struct SinkState {
    pub data: Vec<u8>,
    pub calls: u64,
    pub fired: Vec<io::ErrorKind>,
    pub dropped: bool,
    pub refused: bool,
    run: u32,
}
pub struct SimSink {
    pub plan: SinkPlan,
    pub st: Arc<Mutex<SinkState>>,
}
impl Write for SimSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick();
        let mut s = self.st.lock().unwrap();
        let n = s.calls;
        s.calls += 1;
        if self.plan.eintr > 0 && s.run < 3 && rt::chance(self.plan.eintr, 16) {
            s.run += 1;
            rt::count("fault.sink_eintr");
            rt::effect();
            return Err(io::ErrorKind::Interrupted.into());
        }
        s.run = 0;
        if let Some((k, kind, sticky)) = self.plan.fail_at {
            if n == k || (sticky && n > k) {
                rt::count("fault.sink_error");
                rt::effect();
                rt::obs(0x51);
                ev!("sink write -> {kind:?}");
                s.fired.push(kind);
                s.refused = true;
                return Err(kind.into());
            }
        }
        if let Some(k) = self.plan.zero_at {
            if n >= k && !b.is_empty() {
                rt::count("fault.sink_full");
                rt::effect();
                rt::obs(0x52);
                ev!("sink write -> accepts 0 bytes");
                s.fired.push(io::ErrorKind::WriteZero);
                s.refused = true;
                return Ok(0);
            }
        }
        let mut l = b.len();
        if l > 1 && self.plan.short > 0 && rt::chance(self.plan.short, 16) {
            l = 1 + rt::draw(l as u64 - 1) as usize;
            rt::count("fault.sink_short_write");
            rt::effect();
            rt::obs(l as u64);
        }
        s.data.extend_from_slice(&b[..l]);
        Ok(l)
    }
    fn flush(&mut self) -> io::Result<()> {
        tick();
        if let Some(kind) = self.plan.flush_fail {
            rt::count("fault.sink_flush_error");
            rt::effect();
            ev!("sink flush -> {kind:?}");
            let mut s = self.st.lock().unwrap();
            s.fired.push(kind);
            s.refused = true;
            return Err(kind.into());
        }
        Ok(())
    }
}
impl Drop for SimSink {
    fn drop(&mut self) {
        self.st.lock().unwrap().dropped = true;
    }
}

#[derive(Clone, Debug, Default)]
pub struct SrcPlan {
    /// largest chunk handed out at once (0: everything)
    pub chunk: u64,
    pub eintr: u64,
    /// the nth refill fails with this kind, and so do all that follow if the last is set
    pub fail_at: Option<(u64, io::ErrorKind, bool)>,
    pub cut: Option<usize>,
}
/// BufRead of the caller: hands out the bytes in chunks of the simulator's choosing.
pub struct SimSource {
    data: Vec<u8>,
    pos: usize,
    avail: usize,
    plan: SrcPlan,
    calls: u64,
    run: u32,
    pub st: Arc<Mutex<(bool, bool)>>, // fired, dropped
}
impl SimSource {
    pub fn new(data: Vec<u8>, plan: SrcPlan) -> (SimSource, Arc<Mutex<(bool, bool)>>) {
        let st = Arc::new(Mutex::new((false, false)));
        (SimSource { data, pos: 0, avail: 0, plan, calls: 0, run: 0, st: st.clone() }, st)
    }
    fn refill(&mut self) -> io::Result<()> {
        tick();
        let n = self.calls;
        self.calls += 1;
        if self.plan.eintr > 0 && self.run < 3 && rt::chance(self.plan.eintr, 16) {
            self.run += 1;
            self.calls -= 1;
            rt::count("fault.source_eintr");
            rt::effect();
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.run = 0;
        if let Some((k, kind, sticky)) = self.plan.fail_at {
            if n == k || (sticky && n > k) {
                rt::count("fault.source_error");
                rt::effect();
                ev!("source read -> {kind:?}");
                self.st.lock().unwrap().0 = true;
                return Err(kind.into());
            }
        }
        let left = self.data.len() - self.pos;
        self.avail = if self.plan.chunk == 0 { left } else { left.min(1 + rt::draw(self.plan.chunk) as usize) };
        if self.avail < left {
            rt::count("fault.source_chunk");
            rt::effect();
            rt::obs(self.avail as u64);
        }
        Ok(())
    }
}
impl Read for SimSource {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = {
            let a = self.fill_buf()?;
            let n = a.len().min(b.len());
            b[..n].copy_from_slice(&a[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for SimSource {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.avail == 0 {
            self.refill()?;
        }
        Ok(&self.data[self.pos..self.pos + self.avail])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.avail -= n;
    }
}
impl Drop for SimSource {
    fn drop(&mut self) {
        self.st.lock().unwrap().1 = true;
    }
}

// ---- saving and loading through the library ---------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    Txt,
    Gz,
}

/// An object in the representation it is saved from.
pub enum Saver {
    E(EditGraph),
    Sim(SimGraph),
    Ord(OrdGraph),
    Deg(DegenGraph),
    Di(graphbench::editdigraph::EditDigraph),
    Set(VertexSet),
    Seq(Vec<V>),
}
impl Saver {
    pub fn new(o: &Obj) -> Saver {
        match o {
            Obj::S(s) => Saver::Set(to_vset(s)),
            Obj::Q(q) => Saver::Seq(q.clone()),
            Obj::G(g) => match draw(6) {
                1 => Saver::Sim(SimGraph::new(g)),
                2 if !g.has_loop() => Saver::Ord(OrdGraph::with_ordering(&edit_graph(g), order(g).iter())),
                3 if !g.has_loop() => Saver::Deg(DegenGraph::with_ordering(&edit_graph(g), order(g).iter())),
                4 => Saver::Di(edit_digraph(&RD::from_graph(g, rt::sub_seed()))),
                _ => Saver::E(edit_graph(g)),
            },
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Saver::E(_) => "EditGraph",
            Saver::Sim(_) => "SimGraph",
            Saver::Ord(_) => "OrdGraph",
            Saver::Deg(_) => "DegenGraph",
            Saver::Di(_) => "EditDigraph",
            Saver::Set(_) => "VertexSet",
            Saver::Seq(_) => "Vec",
        }
    }
    pub fn save(&self, path: &str, f: Fmt) -> io::Result<()> {
        ev!("save {} to {path} as {f:?}", self.kind());
        macro_rules! go {
            ($x:expr) => {
                match f {
                    Fmt::Txt => $x.write_txt(path),
                    Fmt::Gz => $x.write_gzipped(path),
                }
            };
        }
        let r = match self {
            Saver::E(x) => go!(x),
            Saver::Sim(x) => go!(x),
            Saver::Ord(x) => go!(x),
            Saver::Deg(x) => go!(x),
            Saver::Di(x) => go!(x),
            Saver::Set(x) => go!(x),
            Saver::Seq(x) => go!(x),
        };
        ev!("save to {path} returned {r:?}");
        rt::obs(r.is_ok() as u64);
        r
    }
    pub fn save_buf(&self, w: Box<dyn Write>) -> io::Result<()> {
        let r = match self {
            Saver::E(x) => x.write_buf(w),
            Saver::Sim(x) => x.write_buf(w),
            Saver::Ord(x) => x.write_buf(w),
            Saver::Deg(x) => x.write_buf(w),
            Saver::Di(x) => x.write_buf(w),
            Saver::Set(x) => x.write_buf(w),
            Saver::Seq(x) => x.write_buf(w),
        };
        ev!("write_buf from {} returned {r:?}", self.kind());
        rt::obs(r.is_ok() as u64);
        r
    }
}

pub fn load_path(ty: Ty, path: &str, entry: u64) -> io::Result<Obj> {
    // entry: 0 text, 1 gzip, 2 by extension
    macro_rules! go {
        ($t:ty) => {
            match entry {
                0 => <$t>::from_txt(path),
                1 => <$t>::from_gzipped(path),
                _ => <$t>::from_file(path),
            }
        };
    }
    ev!("load {path} as {ty:?}, entry {}", ["from_txt", "from_gzipped", "from_file"][entry as usize]);
    let r = match ty {
        Ty::G => go!(EditGraph).and_then(|g| graph_obj(&g)),
        Ty::S => go!(VertexSet).map(|s| Obj::S(vset(&s))),
        Ty::Q => go!(Vec<Vertex>).map(Obj::Q),
    };
    ev!("load {path} returned {}", match &r { Ok(o) => o.desc(), Err(e) => format!("error {e}") });
    rt::obs(r.is_ok() as u64);
    r
}
fn graph_obj(g: &EditGraph) -> io::Result<Obj> {
    match read_graph(g) {
        Ok(r) => {
            if r.n() != g.num_vertices() || r.m() != g.num_edges() {
                rt::fail("inconsistent-graph", format!("loaded graph reports {} vertices {} edges but presents {} and {}", g.num_vertices(), g.num_edges(), r.n(), r.m()));
            }
            Ok(Obj::G(r))
        }
        Err(m) => rt::fail("inconsistent-graph", format!("loaded graph: {m}")),
    }
}
pub fn load_buf(ty: Ty, b: Box<dyn BufRead>) -> io::Result<Obj> {
    let r = match ty {
        Ty::G => EditGraph::from_buf(b).and_then(|g| graph_obj(&g)),
        Ty::S => VertexSet::from_buf(b).map(|s| Obj::S(vset(&s))),
        Ty::Q => Vec::<Vertex>::from_buf(b).map(Obj::Q),
    };
    ev!("from_buf returned {}", match &r { Ok(o) => o.desc(), Err(e) => format!("error {e}") });
    rt::obs(r.is_ok() as u64);
    r
}
fn entry_for(f: Fmt) -> u64 {
    if chance(1, 2) { 2 } else if f == Fmt::Txt { 0 } else { 1 }
}
/// Load a file through any of the entry points that fit its format.
pub fn load_any(ty: Ty, path: &str, f: Fmt) -> io::Result<Obj> {
    if chance(1, 3) {
        let file = File::open(path)?;
        let cap = *pick(&[8192usize, 1, 7, 300]);
        ev!("load {path} as {ty:?} from_buf, buffer {cap}");
        if f == Fmt::Txt {
            load_buf(ty, Box::new(BufReader::with_capacity(cap, file)))
        } else {
            load_buf(ty, Box::new(BufReader::with_capacity(cap, GzDecoder::new(file))))
        }
    } else {
        let known = path.ends_with(".txt") || path.ends_with(".gz");
        load_path(ty, path, if known { entry_for(f) } else if f == Fmt::Txt { 0 } else { 1 })
    }
}

// ---- specification of the file format ---------------------------------------------------------

/// The object a byte string denotes, or None if it is not valid.
pub fn spec_parse(ty: Ty, data: &[u8]) -> Option<Obj> {
    let mut g = RG::new();
    let mut q = vec![];
    let mut lines: Vec<&[u8]> = data.split(|&b| b == b'\n').collect();
    if lines.last() == Some(&&b""[..]) {
        lines.pop();
    }
    for l in lines {
        if std::str::from_utf8(l).is_err() {
            return None;
        }
        let tok: Vec<&[u8]> = l.split(|b| b" \t\r".contains(b)).filter(|t| !t.is_empty()).collect();
        let mut ids = vec![];
        for t in &tok {
            ids.push(spec_id(t)?);
        }
        match ty {
            Ty::G => {
                if ids.len() != 2 {
                    return None;
                }
                g.add_e(ids[0], ids[1]);
            }
            _ => {
                if ids.len() != 1 {
                    return None;
                }
                q.push(ids[0]);
            }
        }
    }
    Some(match ty {
        Ty::G => Obj::G(g),
        Ty::S => Obj::S(q.into_iter().collect()),
        Ty::Q => Obj::Q(q),
    })
}
fn spec_id(t: &[u8]) -> Option<V> {
    let mut x = 0u64;
    for &b in t {
        if !b.is_ascii_digit() {
            return None;
        }
        x = x * 10 + (b - b'0') as u64;
        if x > V::MAX as u64 {
            return None;
        }
    }
    Some(x as V)
}
/// Complete decompression of a gzip file with nothing behind it.
fn gunzip(data: &[u8]) -> Option<Vec<u8>> {
    let mut d = flate2::bufread::GzDecoder::new(data);
    let mut v = vec![];
    d.read_to_end(&mut v).ok()?;
    if !d.into_inner().is_empty() {
        return None;
    }
    Some(v)
}
pub fn content_of(ty: Ty, f: Fmt, data: &[u8]) -> Option<Obj> {
    match f {
        Fmt::Txt => spec_parse(ty, data),
        Fmt::Gz => spec_parse(ty, &gunzip(data)?),
    }
}

fn describe(r: &Option<Obj>) -> String {
    match r {
        Some(o) => o.desc(),
        None => "nothing valid".into(),
    }
}

fn path_for(i: usize, f: Fmt) -> String {
    let names = ["a", "graph.v1", "x.txt", "d/ata", "z.gz"];
    let e = if f == Fmt::Txt { "txt" } else { "txt.gz" };
    format!("/simfs/{}{i}.{e}", names[draw(names.len() as u64) as usize])
}
/// As `path_for`, or a name like that of another file: the same but for the extension, which may be
/// any (then only explicit loads apply).
fn save_path(i: usize, f: Fmt) -> String {
    if !chance(1, 3) {
        return path_for(i, f);
    }
    let stem = *pick(&["s", "d/s", "s.v1", ".s", "S"]);
    let exts: &[&str] = match (i % 2, f) {
        (0, Fmt::Txt) => &["txt", "edges", "tmp"],
        (0, Fmt::Gz) => &["txt.gz", "gz"],
        (_, Fmt::Txt) => &["csv", "dat", "1"],
        (_, Fmt::Gz) => &["dat.gz", "txt.GZ", "edges.gz"],
    };
    format!("/simfs/{stem}{}.{}", i / 2, pick(exts))
}
/// Files of other programs with names close to those of the files saved to.
fn close_names(paths: &[String], by: &mut BTreeMap<String, Vec<u8>>) {
    by.retain(|n, _| !paths.contains(n));
    for path in paths {
        if !chance(1, 3) {
            continue;
        }
        let stem = path.rsplit_once('.').map_or(&path[..], |x| x.0);
        let (dir, name) = path.rsplit_once('/').unwrap();
        for n in [format!("{path}.tmp"), format!("{stem}.tmp"), format!("{path}~"), format!("{path}.bak"), format!("{stem}.bak"), format!("{path}.part"), format!("{path}.new"), format!("{dir}/.{name}.swp"), format!("{dir}/.{name}.tmp"), stem.to_string()] {
            if !paths.contains(&n) && !by.contains_key(&n) && !n.ends_with("/d") && !n.ends_with('/') {
                let c = b"5 6\n7 8\n".to_vec();
                fs().put(&n, c.clone());
                by.insert(n, c);
            }
        }
    }
}
fn bystanders() -> BTreeMap<String, Vec<u8>> {
    fs().mkdir("/simfs/d");
    let mut m = BTreeMap::new();
    for (n, c) in [("/simfs/other.txt", "1 2\n"), ("/simfs/d/keep.txt.gz", "not gzip"), ("/simfs/a", "x")] {
        fs().put(n, c.as_bytes().to_vec());
        m.insert(n.to_string(), c.as_bytes().to_vec());
    }
    m
}
fn check_bystanders(m: &BTreeMap<String, Vec<u8>>, mine: &[String]) {
    let snap = fs().snapshot();
    for (k, v) in m {
        if snap.get(k) != Some(v) {
            rt::fail("other-file-changed", format!("{k} changed: {:?}", snap.get(k).map(|x| String::from_utf8_lossy(x).into_owned())));
        }
    }
    for k in snap.keys() {
        if !m.contains_key(k) && !mine.contains(k) && k != "/simfs/d" {
            rt::fail("other-file-changed", format!("file {k} appeared"));
        }
    }
}
pub fn check_closed(when: &str) {
    let o = fs().open_paths();
    if !o.is_empty() {
        rt::fail("handle-leak", format!("{when}: still open: {o:?}"));
    }
}
/// Old content of a target: absent, short, or longer than what will be written.
fn old_content(path: &str) {
    match draw(4) {
        0 => {}
        1 => fs().put(path, b"7 8\n".to_vec()),
        2 => fs().put(path, vec![b'9'; 200_000]),
        _ => fs().put(path, b"1 2\n3 4\n".repeat(2000)),
    }
}

fn expect_same(what: &str, want: &Obj, got: &Option<Obj>) {
    if got.as_ref() != Some(want) {
        rt::fail("wrong-content", format!("{what}: {} instead of {}", describe(got), want.desc()));
    }
}

// ---- C01 --------------------------------------------------------------------------------------

fn c01() {
    setup();
    let mut by = bystanders();
    let n = weighted(&[3, 2, 1]) + 1;
    let mut jobs = vec![];
    let mut paths = vec![];
    for i in 0..n {
        let f = *pick(&[Fmt::Txt, Fmt::Gz]);
        let p = save_path(i, f);
        old_content(&p);
        let rounds = 1 + weighted(&[4, 1]);
        let objs: Vec<(Obj, Saver)> = (0..rounds)
            .map(|_| {
                let o = random_obj(n < 3);
                let s = Saver::new(&o);
                (o, s)
            })
            .collect();
        paths.push(p.clone());
        jobs.push((p, f, objs, draw(4)));
    }
    close_names(&paths, &mut by);
    let plan = fsim::awkward();
    fs().set_plan(plan);
    let finals: Mutex<Vec<(String, Fmt, Obj)>> = Mutex::new(vec![]);
    let fin = &finals;
    run_threads(
        jobs.into_iter()
            .map(|(p, f, objs, mode)| {
                Box::new(move || {
                    for (o, s) in objs {
                        op_boundary();
                        let want = o.stored();
                        ev!("{} is {}", s.kind(), o.desc());
                        if mode == 3 {
                            buf_save(&s, &want);
                            continue;
                        }
                        let me = sched::me();
                        let r = no_panic("save", || s.save(&p, f));
                        let _ = me;
                        match r {
                            Ok(()) => {
                                rt::checked();
                                rt::count("check.saved");
                                let data = fs().get(&p).cloned();
                                let data = match data {
                                    Some(d) => d,
                                    None => rt::fail("wrong-content", format!("save to {p} succeeded but there is no such file")),
                                };
                                expect_same(&format!("file {p} after a successful save"), &want, &content_of(want.ty(), f, &data));
                                op_boundary();
                                let l = no_panic("load", || load_any(want.ty(), &p, f));
                                match l {
                                    Ok(l) => expect_same(&format!("loading {p} after a successful save"), &want, &Some(l)),
                                    Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                                    Err(e) => rt::fail("load-failed", format!("loading {p} after a successful save: {e}; saved {}", want.desc())),
                                }
                                let mut g = fin.lock().unwrap();
                                g.retain(|x| x.0 != p);
                                g.push((p.clone(), f, want));
                            }
                            Err(e) if e.kind() == io::ErrorKind::Interrupted && fs().plan.eintr > 0 => {
                                rt::count("check.save_interrupted");
                                fin.lock().unwrap().retain(|x| x.0 != p);
                            }
                            Err(e) => rt::fail("save-failed", format!("save to {p} on a working disk: {e}")),
                        }
                    }
                }) as Box<dyn FnOnce()>
            })
            .collect(),
    );
    fs().set_plan(Plan::default());
    check_closed("after all saves");
    check_bystanders(&by, &paths);
    for (p, f, o) in finals.into_inner().unwrap() {
        let d = fs().get(&p).cloned().unwrap_or_default();
        expect_same(&format!("file {p} at the end"), &o, &content_of(o.ty(), f, &d));
    }
}

/// Save into a healthy but awkward caller-supplied sink.
fn buf_save(s: &Saver, want: &Obj) {
    let plan = SinkPlan { short: *pick(&[0u64, 4, 14]), eintr: *pick(&[0u64, 0, 3]), ..Default::default() };
    let st = Arc::new(Mutex::new(SinkState::default()));
    let sink = SimSink { plan: plan.clone(), st: st.clone() };
    let w: Box<dyn Write> = match draw(3) {
        0 => Box::new(sink),
        1 => Box::new(BufWriter::with_capacity(*pick(&[8192usize, 10, 1]), sink)),
        _ => Box::new(io::LineWriter::new(sink)),
    };
    let r = no_panic("write_buf", || s.save_buf(w));
    let g = st.lock().unwrap();
    match r {
        Ok(()) => {
            rt::checked();
            rt::count("check.saved_buf");
            expect_same("sink after a successful write_buf", want, &spec_parse(want.ty(), &g.data));
        }
        Err(e) if e.kind() == io::ErrorKind::Interrupted && plan.eintr > 0 => {}
        Err(e) => rt::fail("save-failed", format!("write_buf to a working sink: {e}")),
    }
}

// ---- C02 --------------------------------------------------------------------------------------

/// What a disk can answer to a write.
fn write_errno() -> i32 {
    *pick(&[
        libc::EIO,
        libc::ENOSPC,
        libc::EDQUOT,
        libc::EFBIG,
        libc::EPIPE,
        libc::EAGAIN,
        libc::ETIMEDOUT,
        libc::ENOMEM,
        libc::ESTALE,
        libc::EINVAL,
        libc::EROFS,
        libc::ECONNRESET,
        libc::EPERM,
        libc::EBADF,
    ])
}

/// What a caller's reader or writer can fail with, `Interrupted` (which asks for a retry) aside.
fn any_kind() -> io::ErrorKind {
    use io::ErrorKind::*;
    *pick(&[
        Other,
        StorageFull,
        BrokenPipe,
        PermissionDenied,
        WriteZero,
        TimedOut,
        WouldBlock,
        UnexpectedEof,
        InvalidData,
        InvalidInput,
        ConnectionReset,
        ConnectionAborted,
        NotConnected,
        NotFound,
        AlreadyExists,
        OutOfMemory,
        Unsupported,
    ])
}

fn err_matches(e: &io::Error, fired: &[i32], also: &[io::ErrorKind]) -> bool {
    if also.contains(&e.kind()) {
        return true;
    }
    fired.iter().any(|&x| e.raw_os_error() == Some(x) || io::Error::from_raw_os_error(x).kind() == e.kind())
}

fn c02() {
    setup();
    let mut by = bystanders();
    let n = weighted(&[4, 2, 1]) + 1;
    let mut plan = if chance(1, 2) { fsim::awkward() } else { Plan::default() };
    let mut jobs = vec![];
    let mut paths = vec![];
    for i in 0..n {
        let f = *pick(&[Fmt::Txt, Fmt::Gz]);
        let o = random_obj(true);
        let s = Saver::new(&o);
        let mut p = save_path(i, f);
        let mode = draw(8);
        let mut expect_open_error = false;
        match mode {
            0 => {} // no fault of its own (a neighbour may fill the disk)
            1 | 2 => plan.hard.push(Hard {
                op: Op::Write,
                client: Some(i),
                nth: *pick(&[0u64, 1, 2, 3, 5, 9]),
                errno: write_errno(),
                sticky: mode == 1,
            }),
            3 => plan.hard.push(Hard { op: Op::Open, client: Some(i), nth: 0, errno: *pick(&[libc::EACCES, libc::EMFILE, libc::EROFS, libc::ENOSPC, libc::ENFILE, libc::EPERM, libc::ELOOP, libc::ENAMETOOLONG, libc::ETXTBSY, libc::EAGAIN, libc::ENOMEM]), sticky: false }),
            4 => {
                p = if chance(1, 2) { "/simfs/d".into() } else { format!("/simfs/none/{i}.txt") };
                expect_open_error = true;
            }
            _ => {}
        }
        if !expect_open_error {
            old_content(&p);
            paths.push(p.clone());
        }
        jobs.push((i, p, f, o, s, mode, expect_open_error));
    }
    close_names(&paths, &mut by);
    if chance(1, 2) {
        let total: u64 = *pick(&[0u64, 1, 5, 17, 18, 40, 100, 1000, 8000, 8192, 8193, 9000, 33000, 60000]);
        plan.capacity = Some(total);
    }
    fs().set_plan(plan.clone());
    let retry: Mutex<Vec<(String, Fmt, Obj, Saver, bool)>> = Mutex::new(vec![]);
    let rq = &retry;
    run_threads(
        jobs.into_iter()
            .map(|(i, p, f, o, s, mode, open_err)| {
                Box::new(move || {
                    op_boundary();
                    let want = o.stored();
                    ev!("{} is {}", s.kind(), o.desc());
                    if mode >= 6 {
                        faulty_sink(&s, &want);
                        afterwards(i, n == 1);
                        return;
                    }
                    let before = fs().get(&p).cloned();
                    let r = no_panic("save", || s.save(&p, f));
                    rt::checked();
                    let fired = fs().fired_by(i);
                    match &r {
                        Ok(()) => {
                            let d = fs().get(&p).cloned();
                            if open_err {
                                rt::fail("false-success", format!("save to {p}, which cannot be opened, reported success"));
                            }
                            let got = d.and_then(|d| content_of(want.ty(), f, &d));
                            if got.as_ref() != Some(&want) {
                                rt::fail("false-success", format!("save to {p} reported success (errors injected: {fired:?}) but the file holds {} instead of {}", describe(&got), want.desc()));
                            }
                        }
                        Err(e) => {
                            rt::count("check.save_error");
                            let mut also = vec![];
                            if fs().plan.eintr > 0 {
                                also.push(io::ErrorKind::Interrupted);
                            }
                            let mut codes = fired.clone();
                            if open_err {
                                codes.extend([libc::EISDIR, libc::ENOENT]);
                            }
                            if !err_matches(e, &codes, &also) {
                                rt::fail("wrong-error", format!("save to {p} failed with {e:?}; the storage reported {codes:?}"));
                            }
                            if fired.iter().any(|_| mode == 3) {
                                // nothing was opened: the old content is still there
                                let now = fs().get(&p).cloned();
                                if now != before {
                                    rt::fail("wrong-content", format!("{p} could not be opened, yet its content changed"));
                                }
                            }
                        }
                    }
                    let mine: Vec<String> = fs().open_by(crate::sched::me());
                    if !mine.is_empty() {
                        rt::fail("handle-leak", format!("after the save returned {r:?}: still open: {mine:?}"));
                    }
                    rq.lock().unwrap().push((p, f, o, s, open_err));
                    afterwards(i, n == 1);
                }) as Box<dyn FnOnce()>
            })
            .collect(),
    );
    check_closed("after all saves");
    check_bystanders(&by, &paths);
    // the storage works again
    fs().set_plan(Plan::default());
    for (p, f, o, s, open_err) in retry.into_inner().unwrap() {
        if open_err {
            continue;
        }
        let want = o.stored();
        if let Err(e) = no_panic("save", || s.save(&p, f)) {
            rt::fail("retry-failed", format!("save to {p} after the storage recovered: {e}"));
        }
        let d = fs().get(&p).cloned().unwrap_or_default();
        expect_same(&format!("file {p} after the repeated save"), &want, &content_of(want.ty(), f, &d));
        match no_panic("load", || load_any(want.ty(), &p, f)) {
            Ok(l) => expect_same("load after the repeated save", &want, &Some(l)),
            Err(e) => rt::fail("load-failed", format!("loading {p} after the repeated save: {e}")),
        }
    }
    check_bystanders(&by, &paths);
    check_closed("at the end");
}

/// What the same thread saves next, of another object, is complete and nothing else.
fn afterwards(i: usize, alone: bool) {
    if chance(1, 3) {
        return;
    }
    let o = random_obj(false);
    let want = o.stored();
    let s = Saver::new(&o);
    ev!("afterwards {} is {}", s.kind(), o.desc());
    if alone && chance(1, 2) {
        fs().set_plan(Plan::default());
        let f = *pick(&[Fmt::Txt, Fmt::Gz]);
        let p = format!("/simfs/after{i}.{}", if f == Fmt::Txt { "txt" } else { "txt.gz" });
        if let Err(e) = no_panic("save", || s.save(&p, f)) {
            rt::fail("retry-failed", format!("save of another object to {p} after the storage recovered: {e}"));
        }
        let d = fs().get(&p).cloned().unwrap_or_default();
        expect_same(&format!("file {p} saved after the failure"), &want, &content_of(want.ty(), f, &d));
        fs().remove(&p);
    } else {
        let st = Arc::new(Mutex::new(SinkState::default()));
        let w = Box::new(SimSink { plan: SinkPlan::default(), st: st.clone() });
        if let Err(e) = no_panic("write_buf", || s.save_buf(w)) {
            rt::fail("retry-failed", format!("write_buf of another object to a working sink: {e}"));
        }
        let g = st.lock().unwrap();
        expect_same("sink written after the failure", &want, &spec_parse(want.ty(), &g.data));
    }
}

fn faulty_sink(s: &Saver, want: &Obj) {
    let mut plan = SinkPlan { short: *pick(&[0u64, 4, 14]), ..Default::default() };
    let k = *pick(&[0u64, 1, 2, 3, 7]);
    let kind = any_kind();
    match draw(5) {
        0 => plan.fail_at = Some((k, kind, true)),
        1 => plan.fail_at = Some((k, kind, false)),
        2 => plan.zero_at = Some(k),
        3 => plan.flush_fail = Some(kind),
        _ => plan.eintr = 4,
    }
    ev!("sink plan {plan:?}");
    let st = Arc::new(Mutex::new(SinkState::default()));
    let sink = SimSink { plan: plan.clone(), st: st.clone() };
    let w: Box<dyn Write> = match draw(3) {
        0 => Box::new(sink),
        1 => Box::new(BufWriter::with_capacity(*pick(&[8192usize, 10, 1]), sink)),
        _ => Box::new(GzEncoderSink { gz: Some(GzEncoder::new(sink, Compression::default())) }),
    };
    let r = no_panic("write_buf", || s.save_buf(w));
    rt::checked();
    let g = st.lock().unwrap();
    match &r {
        Ok(()) => {
            let got = spec_parse(want.ty(), &g.data).or_else(|| content_of(want.ty(), Fmt::Gz, &g.data));
            if got.as_ref() != Some(want) {
                rt::fail("false-success", format!("write_buf reported success (errors injected: {:?}) but the sink holds {} instead of {}", g.fired, describe(&got), want.desc()));
            }
            if plan.flush_fail.is_some() && !g.fired.is_empty() {
                rt::fail("false-success", format!("write_buf reported success although flushing the sink failed with {:?}", g.fired));
            }
        }
        Err(e) => {
            rt::count("check.save_error");
            let ok = g.fired.contains(&e.kind()) || (plan.eintr > 0 && e.kind() == io::ErrorKind::Interrupted);
            if !ok {
                rt::fail("wrong-error", format!("write_buf failed with {e:?}; the sink reported {:?}", g.fired));
            }
        }
    }
    if !g.dropped {
        rt::fail("handle-leak", format!("after write_buf returned {r:?} the sink is still held"));
    }
}

/// A caller's compressing sink that finishes its stream when flushed (as a well-behaved one can).
struct GzEncoderSink {
    gz: Option<GzEncoder<SimSink>>,
}
impl Write for GzEncoderSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match &mut self.gz {
            Some(g) => g.write(b),
            None => Err(io::ErrorKind::BrokenPipe.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match &mut self.gz {
            Some(g) => {
                g.try_finish()?;
                g.get_mut().flush()
            }
            None => Ok(()),
        }
    }
}

// ---- generators of file contents --------------------------------------------------------------

fn eol(r: u64) -> &'static str {
    match r {
        0 => "\n",
        _ => "\r\n",
    }
}

/// Valid text of an object in a drawn formatting.
fn valid_text(ty: Ty, big: bool) -> Vec<u8> {
    let o = loop {
        let o = random_obj(big);
        if o.ty() == ty {
            break o;
        }
        // steer the draw: build directly
        break match (ty, o) {
            (Ty::G, Obj::S(s)) => Obj::G(RG::from_edges(&s.iter().map(|x| (*x, x / 2)).collect::<Vec<_>>())),
            (Ty::G, Obj::Q(q)) => Obj::G(RG::from_edges(&q.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>())),
            (Ty::S, Obj::G(g)) => Obj::S(g.verts().into_iter().collect()),
            (Ty::S, Obj::Q(q)) => Obj::S(q.into_iter().collect()),
            (Ty::Q, Obj::G(g)) => Obj::Q(g.verts()),
            (Ty::Q, Obj::S(s)) => Obj::Q(s.into_iter().collect()),
            (_, o) => o,
        };
    };
    let style = draw(6);
    let crlf = draw(2);
    let mut r = Rng(rt::sub_seed());
    let mut out: Vec<u8> = vec![];
    let mut rows: Vec<Vec<V>> = match &o {
        Obj::G(g) => g.edges().into_iter().map(|(u, v)| if r.below(2) == 0 { vec![u, v] } else { vec![v, u] }).collect(),
        Obj::S(s) => s.iter().map(|x| vec![*x]).collect(),
        Obj::Q(q) => q.iter().map(|x| vec![*x]).collect(),
    };
    if ty != Ty::Q && style > 1 {
        // duplicates, either orientation
        for _ in 0..rows.len() / 3 {
            let mut d = rows[r.below(rows.len() as u64) as usize].clone();
            if r.below(2) == 0 {
                d.reverse();
            }
            rows.push(d);
        }
        r.shuffle(&mut rows);
    }
    let n = rows.len();
    for (i, row) in rows.into_iter().enumerate() {
        let pad = |r: &mut Rng, out: &mut Vec<u8>, min: u64| {
            let k = if style < 3 { min } else { min + r.below(3) };
            for _ in 0..k {
                out.push(if style > 2 && r.below(3) == 0 { b'\t' } else { b' ' });
            }
        };
        pad(&mut r, &mut out, 0);
        for (k, x) in row.iter().enumerate() {
            if k > 0 {
                pad(&mut r, &mut out, 1);
            }
            if style == 5 && r.below(4) == 0 {
                out.extend_from_slice(b"00");
            }
            out.extend_from_slice(x.to_string().as_bytes());
        }
        pad(&mut r, &mut out, 0);
        if i + 1 < n || chance(3, 4) {
            out.extend_from_slice(eol(if crlf == 1 && (style < 4 || r.below(2) == 0) { 1 } else { 0 }).as_bytes());
        }
    }
    out
}

/// Damage one place of a text so that it is no longer valid (usually).
fn spoil_text(ty: Ty, mut t: Vec<u8>) -> Vec<u8> {
    let bad: &[&[u8]] = match ty {
        Ty::G => &[b"5", b"1 2 3", b"", b"  ", b"a b", b"1 -2", b"1 4294967296", b"99999999999999999999 1", b"1 2.0", b"0x1 2", b"1,2", b"1 \xff\xfe", b"\xc3\x28 1", b"1 2 \0", b"1 2 # c", b"1 2 3 4", b"1;2 3", b"1 2e1"],
        _ => &[b"", b" ", b"1 2", b"x", b"-1", b"4294967296", b"1.5", b"\xff", b"\xe2\x82", b"7 # c", b"0x10", b"1_0", b"18446744073709551616"],
    };
    let line = *pick(bad);
    let starts: Vec<usize> = std::iter::once(0).chain(t.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1)).collect();
    let at = match draw(3) {
        0 => 0,
        1 => *starts.last().unwrap(),
        _ => starts[draw(starts.len() as u64) as usize],
    };
    if at == t.len() && at > 0 && t[at - 1] != b'\n' {
        t.push(b'\n');
    }
    let at = at.min(t.len());
    let mut ins = line.to_vec();
    if at < t.len() || chance(1, 2) || line.is_empty() {
        ins.push(b'\n');
    }
    t.splice(at..at, ins);
    t
}

fn compress(data: &[u8]) -> Vec<u8> {
    let level = *pick(&[6u32, 0, 1, 9, 3]);
    let mut b = GzBuilder::new();
    if chance(1, 3) {
        b = b.filename("graph.txt").mtime(12345);
    }
    if chance(1, 6) {
        b = b.comment("made by a test").extra(vec![1, 2, 3, 4, 5]);
    }
    let mut e = b.write(vec![], Compression::new(level));
    // several flush points, as a streaming producer would make
    let parts = *pick(&[1usize, 1, 2, 5]);
    for c in data.chunks((data.len() / parts).max(1)) {
        e.write_all(c).unwrap();
        if parts > 1 {
            e.flush().unwrap();
        }
    }
    e.finish().unwrap()
}

fn random_ty() -> Ty {
    *pick(&[Ty::G, Ty::S, Ty::Q])
}

/// One load of `bytes` (plain text) or its compressed form through a drawn entry point.
fn one_load(ty: Ty, text: &[u8], tp: &str, zp: &str, z: &[u8]) -> (String, io::Result<Obj>) {
    let plan = SrcPlan { chunk: *pick(&[0u64, 1, 5, 100, 5000]), eintr: *pick(&[0u64, 0, 4]), ..Default::default() };
    match draw(8) {
        0 => ("from_txt".into(), load_path(ty, tp, 0)),
        1 => ("from_gzipped".into(), load_path(ty, zp, 1)),
        2 => ("from_file .txt".into(), load_path(ty, tp, 2)),
        3 => ("from_file .gz".into(), load_path(ty, zp, 2)),
        4 => {
            let (s, _) = SimSource::new(text.to_vec(), plan.clone());
            (format!("from_buf {plan:?}"), load_buf(ty, Box::new(s)))
        }
        5 => {
            let (s, _) = SimSource::new(z.to_vec(), plan.clone());
            (format!("from_buf gzip {plan:?}"), load_buf(ty, Box::new(BufReader::new(GzDecoder::new(s)))))
        }
        6 => ("from_buf file".into(), load_any(ty, tp, Fmt::Txt)),
        _ => ("from_buf gzip file".into(), load_any(ty, zp, Fmt::Gz)),
    }
}

fn c03() {
    setup();
    fs().mkdir("/simfs/d");
    let files = 1 + weighted(&[3, 2, 1]);
    let mut set = vec![];
    for i in 0..files {
        let ty = random_ty();
        let mut t = valid_text(ty, true);
        if chance(1, 3) {
            t = spoil_text(ty, t);
        }
        let want = spec_parse(ty, &t);
        let z = compress(&t);
        let tp = path_for(2 * i, Fmt::Txt);
        let zp = path_for(2 * i + 1, Fmt::Gz);
        fs().put(&tp, t.clone());
        fs().put(&zp, z.clone());
        rt::obs(t.iter().fold(9, |h, b| rt::mix(h, *b as u64)) ^ want.is_some() as u64);
        set.push((ty, t, z, tp, zp, want));
    }
    let mut plan = fsim::awkward();
    plan.size_lie = *pick(&[0u64, 0, 1, 2, 3]);
    fs().set_plan(plan);
    let before = fs().snapshot();
    let set = &set;
    let clients = 1 + weighted(&[2, 2, 1]);
    let loads = 1 + draw(3);
    run_threads(
        (0..clients)
            .map(|_| {
                Box::new(move || {
                    for _ in 0..loads {
                        op_boundary();
                        let (ty, t, z, tp, zp, want) = &set[draw(set.len() as u64) as usize];
                        let (how, r) = no_panic("load", || one_load(*ty, t, tp, zp, z));
                        rt::checked();
                        rt::count(if want.is_some() { "check.valid_load" } else { "check.invalid_load" });
                        match (r, want) {
                            (Ok(o), Some(w)) => {
                                o.obs();
                                if o != *w {
                                    rt::fail("wrong-load", format!("{how} of {:?}...: {} instead of {}", String::from_utf8_lossy(&t[..t.len().min(120)]), o.desc(), w.desc()));
                                }
                            }
                            (Err(_), None) => {}
                            (Ok(o), None) => rt::fail("invalid-accepted", format!("{how} accepted an invalid file {} as {}", show(&String::from_utf8_lossy(t)), o.desc())),
                            (Err(e), Some(w)) => rt::fail("valid-rejected", format!("{how} rejected a valid file {}: {e}; expected {}", show(&String::from_utf8_lossy(t)), w.desc())),
                        }
                    }
                }) as Box<dyn FnOnce()>
            })
            .collect(),
    );
    check_closed("after all loads");
    if fs().snapshot() != before {
        rt::fail("other-file-changed", "loading changed a file".into());
    }
}

// ---- C04 --------------------------------------------------------------------------------------

fn c04() {
    setup();
    fs().mkdir("/simfs/d");
    let clients = 1 + weighted(&[3, 2, 1]);
    let mut plan = if chance(1, 2) { fsim::awkward() } else { Plan::default() };
    let mut jobs = vec![];
    for i in 0..clients {
        let ty = random_ty();
        let mut t = valid_text(ty, true);
        let mut gz = chance(1, 2);
        let mut must_fail = false;
        let mode = draw(9);
        let mut entry = draw(4);
        let mut path;
        let mut src_fail = None;
        match mode {
            0 => plan.hard.push(Hard { op: Op::Open, client: Some(i), nth: 0, errno: *pick(&[libc::EACCES, libc::EMFILE, libc::ENOENT, libc::EIO, libc::ENFILE, libc::EPERM, libc::ELOOP, libc::ENOMEM, libc::ETIMEDOUT, libc::EAGAIN]), sticky: true }),
            1 | 2 => {
                let errno = *pick(&[libc::EIO, libc::ESTALE, libc::ENOMEM, libc::EISDIR, libc::EAGAIN, libc::ETIMEDOUT, libc::EPIPE, libc::ECONNRESET, libc::EINVAL, libc::EBADF, libc::EPERM]);
                // (a gzip reader asks again while it reads the header when told to try later)
                let sticky = chance(1, 2) || errno == libc::EAGAIN;
                plan.hard.push(Hard { op: Op::Read, client: Some(i), nth: *pick(&[0u64, 1, 2, 3, 4, 8]), errno, sticky });
                let kind = any_kind();
                src_fail = Some((*pick(&[0u64, 1, 2, 5, 20, 60]), kind, chance(1, 2) || kind == io::ErrorKind::WouldBlock));
            }
            3 | 4 => gz = true,
            5 | 6 => t = spoil_text(ty, t),
            7 => must_fail = true,
            _ => {
                // bytes that are not text
                let mut r = Rng(rt::sub_seed());
                let k = 1 + draw(3000);
                t = (0..k).map(|_| r.below(256) as u8).collect();
                t.insert(0, b'!');
            }
        }
        let mut data = if gz { compress(&t) } else { t.clone() };
        let mut want = spec_parse(ty, &t);
        path = path_for(i, if gz { Fmt::Gz } else { Fmt::Txt });
        if mode == 3 || mode == 4 {
            // ends inside the compressed stream
            let l = data.len();
            let cut = match draw(5) {
                0 => l - 1 - draw(8.min(l as u64)) as usize,
                1 => draw(12.min(l as u64)) as usize,
                _ => draw(l as u64) as usize,
            };
            data.truncate(cut);
            want = None;
            rt::count("fault.truncated_gzip");
            rt::effect();
            rt::obs(cut as u64);
        }
        if mode == 7 {
            match draw(4) {
                0 => path = "/simfs/missing.txt".into(),
                1 => {
                    path = "/simfs/d".into();
                    entry = draw(2)
                }
                2 => {
                    path = format!("/simfs/wrong{i}.csv");
                    entry = 2;
                }
                _ => {
                    path = format!("/simfs/noext{i}");
                    entry = 2;
                }
            }
            want = None;
        }
        if !(mode == 7 && (path.contains("missing") || path == "/simfs/d")) {
            fs().put(&path, data.clone());
        }
        rt::obs(mode);
        jobs.push((i, ty, path, gz, entry, want, data, must_fail, src_fail));
    }
    fs().set_plan(plan);
    let before = fs().snapshot();
    run_threads(
        jobs.into_iter()
            .map(|(i, ty, path, gz, entry, want, data, must_fail, src_fail)| {
                Box::new(move || {
                    op_boundary();
                    let mut extra_fired = false;
                    let mut closed = true;
                    let what;
                    let r = if entry == 3 && path != "/simfs/d" && !path.contains("missing") {
                        // through a caller-supplied reader
                        what = "from_buf";
                        let plan = SrcPlan { chunk: *pick(&[0u64, 1, 50, 4000]), eintr: *pick(&[0u64, 0, 4]), fail_at: src_fail, ..Default::default() };
                        let (s, st) = SimSource::new(data, plan);
                        let r = no_panic("from_buf", || {
                            if gz {
                                load_buf(ty, Box::new(BufReader::new(GzDecoder::new(s))))
                            } else {
                                load_buf(ty, Box::new(s))
                            }
                        });
                        (extra_fired, closed) = *st.lock().unwrap();
                        r
                    } else {
                        what = "load";
                        let e = if entry >= 2 { 2 } else if gz { 1 } else { 0 };
                        let e = if path == "/simfs/d" { entry.min(1) } else { e };
                        no_panic("load", || load_path(ty, &path, e))
                    };
                    rt::checked();
                    let fired: Vec<_> = fs().fired.iter().filter(|f| f.client == i && (f.op == Op::Read || f.op == Op::Open)).map(|f| f.errno).collect();
                    match &r {
                        Ok(o) => {
                            if !fired.is_empty() || extra_fired {
                                rt::fail("error-swallowed", format!("{what} of {path} returned {} although the source failed ({fired:?})", o.desc()));
                            }
                            match &want {
                                None => rt::fail("invalid-accepted", format!("{what} of {path} returned {} from an unreadable or invalid source", o.desc())),
                                Some(w) if w != o => rt::fail("wrong-load", format!("{what} of {path} returned {} instead of {}", o.desc(), w.desc())),
                                _ => {}
                            }
                        }
                        Err(e) => {
                            rt::count("check.load_error");
                            if want.is_some() && fired.is_empty() && !extra_fired && !must_fail {
                                rt::fail("valid-rejected", format!("{what} of {path} failed without a cause: {e}"));
                            }
                        }
                    }
                    if !closed || !fs().open_by(crate::sched::me()).is_empty() {
                        rt::fail("handle-leak", format!("{what} of {path} returned but the source is still open"));
                    }
                    load_afterwards(if chance(1, 2) { ty } else { random_ty() });
                }) as Box<dyn FnOnce()>
            })
            .collect(),
    );
    check_closed("after all loads");
    if fs().snapshot() != before {
        rt::fail("other-file-changed", "loading changed a file".into());
    }
}

/// What the same thread loads next, from a source in order, is that and nothing else.
fn load_afterwards(ty: Ty) {
    if chance(1, 3) {
        return;
    }
    let t = valid_text(ty, false);
    let want = spec_parse(ty, &t);
    let gz = chance(1, 3);
    let (s, _) = SimSource::new(if gz { compress(&t) } else { t }, SrcPlan::default());
    let r = no_panic("from_buf", || if gz { load_buf(ty, Box::new(BufReader::new(GzDecoder::new(s)))) } else { load_buf(ty, Box::new(s)) });
    rt::checked();
    match r {
        Ok(o) => expect_same("load of another source after the failure", &want.unwrap(), &Some(o)),
        Err(e) => rt::fail("valid-rejected", format!("load of another source after the failure: {e}")),
    }
}

// ---- C05 --------------------------------------------------------------------------------------

fn corrupt(mut d: Vec<u8>, other: &[u8]) -> Vec<u8> {
    let k = 1 + weighted(&[5, 2, 1]);
    for _ in 0..k {
        if d.is_empty() {
            break;
        }
        let n = d.len() as u64;
        let block = *pick(&[16u64, 1, 64, 512, 4096]);
        let at = (draw(n / block + 1) * block).min(n - 1) as usize;
        let end = (at + block as usize).min(d.len());
        match draw(9) {
            0 => {
                let i = draw(n) as usize;
                d[i] ^= 1 << draw(8);
                rt::count("fault.bit_flip");
            }
            1 => {
                let i = draw(n.min(24)) as usize;
                let i = if chance(1, 2) { i } else { d.len() - 1 - i };
                d[i] = draw(256) as u8;
                rt::count("fault.byte_changed");
            }
            2 => {
                d.truncate(draw(n) as usize);
                rt::count("fault.truncated");
            }
            3 => {
                d[at..end].fill(0);
                rt::count("fault.zeroed_block");
            }
            4 => {
                d.drain(at..end);
                rt::count("fault.lost_block");
            }
            5 => {
                let b = d[at..end].to_vec();
                d.splice(end..end, b);
                rt::count("fault.duplicated_block");
            }
            6 => {
                let at2 = (draw(n / block + 1) * block).min(n - 1) as usize;
                let l = (end - at).min(d.len() - at2);
                for i in 0..l {
                    d.swap(at + i, at2 + i);
                }
                rt::count("fault.reordered_blocks");
            }
            7 => {
                // torn overwrite: the tail is still that of an older file
                if at < other.len() {
                    let keep = d.clone();
                    d.truncate(at);
                    d.extend_from_slice(&other[at..]);
                    if d.len() > 10 && other.len() > 10 && d[10..] == other[10..] {
                        // all that matters comes from the older file: an intact file, not a damaged one
                        d = keep;
                        d.pop();
                    }
                }
                rt::count("fault.torn_with_old_tail");
            }
            _ => {
                let mut r = Rng(rt::sub_seed());
                for b in &mut d[at..end] {
                    *b = r.below(256) as u8;
                }
                rt::count("fault.garbage_block");
            }
        }
        rt::effect();
        rt::obs(d.iter().fold(7, |h, b| rt::mix(h, *b as u64)));
    }
    d
}

fn c05() {
    setup();
    fs().mkdir("/simfs/d");
    let o = random_obj(true);
    let s = Saver::new(&o);
    let path = path_for(0, Fmt::Gz);
    fs().set_plan(fsim::awkward());
    ev!("{} is {}", s.kind(), o.desc());
    let older = {
        let old = Saver::new(&random_obj(false));
        let _ = no_panic("save", || old.save("/simfs/older.gz", Fmt::Gz));
        fs().get("/simfs/older.gz").cloned().unwrap_or_default()
    };
    let r = no_panic("save", || s.save(&path, Fmt::Gz));
    let want = o.stored();
    match r {
        Ok(()) => {}
        Err(e) if e.kind() == io::ErrorKind::Interrupted => return,
        Err(e) => rt::fail("save-failed", format!("save on a working disk: {e}")),
    }
    let good = fs().get(&path).cloned().unwrap_or_default();
    let victims = 1 + draw(4) as usize;
    let mut paths = vec![];
    for i in 0..victims {
        let d = corrupt(good.clone(), &older);
        let p = format!("/simfs/c{i}.txt.gz");
        ev!("{p}: {} bytes, intact file {} bytes", d.len(), good.len());
        fs().put(&p, d);
        paths.push(p);
    }
    let (want, paths) = (&want, &paths);
    let clients = 1 + weighted(&[3, 1]);
    run_threads(
        (0..clients)
            .map(|c| {
                Box::new(move || {
                    for p in paths.iter().skip(c).step_by(clients) {
                        op_boundary();
                        let r = no_panic("load", || load_any(want.ty(), p, Fmt::Gz));
                        rt::checked();
                        match r {
                            Ok(l) if l == *want => rt::count("check.loaded_original"),
                            Ok(l) => rt::fail("damaged-accepted", format!("damaged file {p} loaded as {} instead of {}", l.desc(), want.desc())),
                            Err(_) => rt::count("check.damage_reported"),
                        }
                    }
                }) as Box<dyn FnOnce()>
            })
            .collect(),
    );
    check_closed("after all loads");
}

// ---- C06 --------------------------------------------------------------------------------------

/// Is `d` what an interrupted text save of `want` may leave: complete lines of the object and
/// possibly the beginning of one more?
fn is_prefix(want: &Obj, d: &[u8]) -> Result<(), String> {
    let cut = d.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let (full, last) = d.split_at(cut);
    let Some(got) = spec_parse(want.ty(), full) else { return Err(format!("{} is not a sequence of lines", show(&String::from_utf8_lossy(full)))) };
    let last = String::from_utf8_lossy(last).into_owned();
    match (want, &got) {
        (Obj::G(w), Obj::G(g)) => {
            for (u, v) in g.edges() {
                if !w.has_e(u, v) {
                    return Err(format!("line {u} {v} is not an edge of the new graph"));
                }
            }
            if !last.is_empty() && !w.edges().iter().any(|(u, v)| format!("{u} {v}\n").starts_with(&last) || format!("{v} {u}\n").starts_with(&last)) {
                return Err(format!("last piece {last:?} does not begin an edge of the new graph"));
            }
        }
        (Obj::S(w), Obj::S(g)) => {
            if !g.is_subset(w) {
                return Err(format!("{} is not part of the new set", show(g)));
            }
            if !last.is_empty() && !w.iter().any(|u| format!("{u}\n").starts_with(&last)) {
                return Err(format!("last piece {last:?} does not begin a member of the new set"));
            }
        }
        (Obj::Q(w), Obj::Q(g)) => {
            if g[..] != w[..g.len().min(w.len())] || g.len() > w.len() {
                return Err(format!("{} is not the beginning of the new sequence", show(g)));
            }
            if !last.is_empty() && !w.get(g.len()).map_or(false, |u| format!("{u}\n").starts_with(&last)) {
                return Err(format!("last piece {last:?} does not continue the new sequence"));
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn c06() {
    setup();
    let mut by = bystanders();
    let n = 1 + weighted(&[4, 1]);
    let mut jobs = vec![];
    let mut meta = vec![];
    for i in 0..n {
        let f = *pick(&[Fmt::Txt, Fmt::Gz]);
        let p = save_path(i, f);
        let o = random_obj(true);
        let old: Option<Obj> = match draw(3) {
            0 => None,
            _ => {
                let old = random_obj(false);
                let s = Saver::new(&old);
                fs().set_plan(Plan::default());
                if let Err(e) = no_panic("save", || s.save(&p, f)) {
                    rt::fail("save-failed", format!("save on a working disk: {e}"));
                }
                Some(old.stored())
            }
        };
        let s = Saver::new(&o);
        let before = fs().get(&p).cloned();
        meta.push((p.clone(), f, o.stored(), old, before, s));
        jobs.push(i);
    }
    close_names(&meta.iter().map(|m: &(String, Fmt, Obj, Option<Obj>, Option<Vec<u8>>, Saver)| m.0.clone()).collect::<Vec<_>>(), &mut by);
    let mut plan = if chance(1, 2) { fsim::awkward() } else { Plan::default() };
    plan.crash_at = Some(match draw(4) {
        0 => draw(4),
        1 => draw(8),
        _ => draw(60),
    });
    fs().set_plan(plan);
    {
        let meta = &meta;
        run_threads(
            jobs.into_iter()
                .map(|i| {
                    Box::new(move || {
                        let (p, f, o, _, _, s) = &meta[i];
                        op_boundary();
                        ev!("{} is {}", s.kind(), o.desc());
                        let r = no_panic("save", || s.save(p, *f));
                        // after the crash the process is a ghost: its results are meaningless
                        if !fs().frozen && r.is_ok() {
                            rt::count("check.saved_before_crash");
                        }
                    }) as Box<dyn FnOnce()>
                })
                .collect(),
        );
    }
    let crashed = fs().frozen;
    ev!("crashed: {crashed}; restart");
    fs().restart();
    let mine: Vec<String> = meta.iter().map(|m| m.0.clone()).collect();
    check_bystanders(&by, &mine);
    for (p, f, new, old, before, _) in &meta {
        rt::checked();
        let d = fs().get(p).cloned();
        rt::obs(d.as_ref().map_or(0, |d| d.len() as u64 + 1));
        let intact = d == *before;
        if !crashed {
            // finished (or gave up on EINTR); completeness is C01
        } else if !intact {
            let d = d.clone().unwrap_or_default();
            match f {
                Fmt::Txt => {
                    if let Err(m) = is_prefix(new, &d) {
                        rt::fail("bad-remains", format!("{p} after the crash: {m}; new content: {}", new.desc()));
                    }
                }
                Fmt::Gz => {
                    // what can be decompressed is a prefix of the new content
                    let mut plain = vec![];
                    let _ = GzDecoder::new(&d[..]).read_to_end(&mut plain);
                    if let Err(m) = is_prefix(new, &plain) {
                        rt::fail("bad-remains", format!("{p} after the crash, decompressed: {m}; new content: {}", new.desc()));
                    }
                }
            }
        }
        let exists = d.is_some();
        let r = no_panic("load of what a crash left", || load_path(new.ty(), p, if *f == Fmt::Txt { 0 } else { 1 }));
        match r {
            Ok(l) => {
                rt::count("check.loaded_after_crash");
                if !exists {
                    rt::fail("wrong-load", format!("{p} does not exist but loads as {}", l.desc()));
                }
                if *f == Fmt::Gz && l != *new && !(intact && before.as_ref().map_or(false, |b| content_of(new.ty(), *f, b).as_ref() == Some(&l))) {
                    rt::fail("silent-partial", format!("{p} after the crash loads as {}: neither the old object {} nor the new one {}", l.desc(), describe(old), new.desc()));
                }
            }
            Err(_) => {
                rt::count("check.load_error_after_crash");
                if intact && old.is_some() && old.as_ref().map(|o| o.ty()) == Some(new.ty()) {
                    rt::fail("load-failed", format!("{p} still holds its old content but does not load"));
                }
            }
        }
    }
    // the process is started again and repeats the save
    for (p, f, new, _, _, s) in &meta {
        if let Err(e) = no_panic("save", || s.save(p, *f)) {
            rt::fail("retry-failed", format!("save to {p} after the restart: {e}"));
        }
        let d = fs().get(p).cloned().unwrap_or_default();
        expect_same(&format!("{p} after the repeated save"), new, &content_of(new.ty(), *f, &d));
        match no_panic("load", || load_any(new.ty(), p, *f)) {
            Ok(l) => expect_same(&format!("load of {p} after the repeated save"), new, &Some(l)),
            Err(e) => rt::fail("load-failed", format!("{p} after the repeated save: {e}")),
        }
    }
    check_closed("at the end");
    check_bystanders(&by, &mine);
}

const REAL: &str = "graphbench::io (write_txt, write_gzipped, write_buf, from_txt, from_gzipped, from_file, from_buf), all graph containers and iterators it uses, std::fs::File, BufReader, BufWriter, flate2";

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", run: c01, quick: 28000, thorough: 400000, real: REAL,
            rule: "random graphs (EditGraph, OrdGraph, DegenGraph, EditDigraph, simulator graph), sets and sequences of 0 to 15000 items saved by 1-3 concurrent clients to text, gzip or a caller's sink on a disk that splits and interrupts writes, over absent, shorter and longer old content. Non-trivial: at least one fault or scheduling switch took effect and at least one completed save was compared." },
        Prop { id: "C02", run: c02, quick: 28000, thorough: 400000, real: REAL,
            rule: "as C01 with open errors, 14 kinds of error at the nth write (once or from then on), full disks of drawn capacity, sinks that fail, accept nothing or fail to flush; retried after the storage recovers. Non-trivial: a fault or switch took effect and a save outcome was compared." },
        Prop { id: "C03", run: c03, quick: 20000, thorough: 400000, real: REAL,
            rule: "valid and invalid files in drawn formattings, text and gzip (any level, header fields, flush points), loaded by 1-3 clients through every entry point with split, interrupted and delayed reads and wrong reported sizes; expected outcome from an independent parser. Non-trivial: a fault or switch took effect and a load was compared." },
        Prop { id: "C04", run: c04, quick: 32000, thorough: 400000, real: REAL,
            rule: "sources that cannot be opened, fail at the nth read (once or from then on, 11 kinds of system error, 17 of a caller's reader), end inside the compressed stream, hold invalid lines or arbitrary bytes, have an unsupported name or are directories. Non-trivial: a fault or switch took effect and an outcome was compared." },
        Prop { id: "C05", run: c05, quick: 28000, thorough: 400000, real: REAL,
            rule: "gzip files written by the library, then damaged by 1-3 of: bit flip, changed byte in header or trailer, truncation, zeroed, lost, duplicated, swapped or garbage blocks, tail of an older file; 1-4 damaged copies per run. Every damaged load is compared. Non-trivial: damage was applied and a load compared." },
        Prop { id: "C06", run: c06, quick: 28000, thorough: 400000, real: REAL,
            rule: "1-2 clients saving over old or absent content, the process dying in the nth system call with any prefix of that write reaching the disk; restart; inspection, load, repeated save. Non-trivial: the crash (or another fault or switch) took effect and the remains were compared." },
    ]
}
