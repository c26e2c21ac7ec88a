//! Reference graphs, generators, and simulator-controlled implementations of the graph traits.

use crate::rt::{self, chance, draw, one_in, pick, range, Rng};
use crate::sched::{self, MAX_T};
use graphbench::degengraph::DegenGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

pub type V = u32;
pub type Set = BTreeSet<V>;

/// Abstract undirected graph (loops allowed).
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RG {
    pub adj: BTreeMap<V, Set>,
}

impl RG {
    pub fn new() -> RG {
        RG::default()
    }
    pub fn add_v(&mut self, v: V) -> bool {
        if self.adj.contains_key(&v) {
            return false;
        }
        self.adj.insert(v, Set::new());
        true
    }
    pub fn add_e(&mut self, u: V, v: V) -> bool {
        self.add_v(u);
        self.add_v(v);
        let new = self.adj.get_mut(&u).unwrap().insert(v);
        self.adj.get_mut(&v).unwrap().insert(u);
        new
    }
    pub fn rem_e(&mut self, u: V, v: V) -> bool {
        if !self.has_e(u, v) {
            return false;
        }
        self.adj.get_mut(&u).unwrap().remove(&v);
        self.adj.get_mut(&v).unwrap().remove(&u);
        true
    }
    pub fn rem_v(&mut self, u: V) -> bool {
        let Some(n) = self.adj.remove(&u) else { return false };
        for v in n {
            if v != u {
                self.adj.get_mut(&v).unwrap().remove(&u);
            }
        }
        true
    }
    pub fn has_v(&self, u: V) -> bool {
        self.adj.contains_key(&u)
    }
    pub fn has_e(&self, u: V, v: V) -> bool {
        self.adj.get(&u).map_or(false, |n| n.contains(&v))
    }
    pub fn n(&self) -> usize {
        self.adj.len()
    }
    pub fn m(&self) -> usize {
        self.edges().len()
    }
    pub fn verts(&self) -> Vec<V> {
        self.adj.keys().copied().collect()
    }
    /// each edge once, smaller endpoint first
    pub fn edges(&self) -> Vec<(V, V)> {
        let mut r = vec![];
        for (&u, n) in &self.adj {
            for &v in n.range(u..) {
                r.push((u, v));
            }
        }
        r
    }
    /// number of edge ends at u (a loop has two)
    pub fn degree(&self, u: V) -> u32 {
        match self.adj.get(&u) {
            None => 0,
            Some(n) => n.len() as u32 + n.contains(&u) as u32,
        }
    }
    /// shortest distances from the sources using only vertices accepted by `ok`
    pub fn bfs(&self, from: &[V], ok: impl Fn(V) -> bool) -> BTreeMap<V, u32> {
        self.bfs_to(u32::MAX, from, ok)
    }
    pub fn bfs_to(&self, max: u32, from: &[V], ok: impl Fn(V) -> bool) -> BTreeMap<V, u32> {
        let mut d = BTreeMap::new();
        let mut q = VecDeque::new();
        for &s in from {
            if d.insert(s, 0).is_none() {
                q.push_back(s);
            }
        }
        while let Some(u) = q.pop_front() {
            let du = d[&u];
            if du >= max {
                break;
            }
            for &v in &self.adj[&u] {
                if ok(v) && !d.contains_key(&v) {
                    d.insert(v, du + 1);
                    q.push_back(v);
                }
            }
        }
        d
    }
    pub fn has_loop(&self) -> bool {
        self.adj.iter().any(|(u, n)| n.contains(u))
    }
    pub fn without_isolates(&self) -> RG {
        RG { adj: self.adj.iter().filter(|(_, n)| !n.is_empty()).map(|(k, v)| (*k, v.clone())).collect() }
    }
    pub fn induced(&self, s: &Set) -> RG {
        RG {
            adj: self
                .adj
                .iter()
                .filter(|(k, _)| s.contains(k))
                .map(|(k, n)| (*k, n.intersection(s).copied().collect()))
                .collect(),
        }
    }
    pub fn from_edges(e: &[(V, V)]) -> RG {
        let mut g = RG::new();
        for &(u, v) in e {
            g.add_e(u, v);
        }
        g
    }
    pub fn obs(&self) {
        let mut h = 0x1234u64;
        for (u, n) in &self.adj {
            h = rt::mix(h, *u as u64 + 1);
            for v in n {
                h = rt::mix(h, *v as u64 + (1 << 33));
            }
        }
        rt::obs(h);
    }
    pub fn show(&self) -> String {
        let iso: Vec<V> = self.adj.iter().filter(|(_, n)| n.is_empty()).map(|(v, _)| *v).collect();
        let e = self.edges();
        let mut s = format!("n={} m={}", self.n(), e.len());
        if e.len() <= 60 {
            s.push_str(" edges ");
            s.push_str(&e.iter().map(|(u, v)| format!("{u}-{v}")).collect::<Vec<_>>().join(","));
        }
        if !iso.is_empty() && iso.len() <= 40 {
            s.push_str(&format!(" isolated {iso:?}"));
        }
        s
    }
}

/// Abstract directed graph.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RD {
    pub out: BTreeMap<V, Set>,
}
impl RD {
    pub fn add_v(&mut self, v: V) -> bool {
        if self.out.contains_key(&v) {
            return false;
        }
        self.out.insert(v, Set::new());
        true
    }
    pub fn add_a(&mut self, u: V, v: V) -> bool {
        self.add_v(u);
        self.add_v(v);
        self.out.get_mut(&u).unwrap().insert(v)
    }
    pub fn rem_a(&mut self, u: V, v: V) -> bool {
        self.out.get_mut(&u).map_or(false, |n| n.remove(&v))
    }
    pub fn rem_v(&mut self, u: V) -> bool {
        if self.out.remove(&u).is_none() {
            return false;
        }
        for n in self.out.values_mut() {
            n.remove(&u);
        }
        true
    }
    pub fn has(&self, u: V, v: V) -> bool {
        self.out.get(&u).map_or(false, |n| n.contains(&v))
    }
    pub fn arcs(&self) -> Vec<(V, V)> {
        self.out.iter().flat_map(|(u, n)| n.iter().map(|v| (*u, *v))).collect()
    }
    /// all in-neighbourhoods
    pub fn inns(&self) -> BTreeMap<V, Set> {
        let mut r: BTreeMap<V, Set> = self.out.keys().map(|v| (*v, Set::new())).collect();
        self.out.iter().for_each(|(u, n)| n.iter().for_each(|v| drop(r.get_mut(v).unwrap().insert(*u))));
        r
    }
    pub fn inn(&self, u: V) -> Set {
        self.out.iter().filter(|(_, n)| n.contains(&u)).map(|(v, _)| *v).collect()
    }
    pub fn verts(&self) -> Vec<V> {
        self.out.keys().copied().collect()
    }
    pub fn from_graph(g: &RG, seed: u64) -> RD {
        // orient every edge by the seed: one way, the other or both
        let mut d = RD::default();
        let mut r = Rng(seed);
        for v in g.verts() {
            d.add_v(v);
        }
        for (u, v) in g.edges() {
            let k = if seed == 0 { 0 } else { r.below(5) };
            if k != 1 && k != 2 {
                d.add_a(u, v);
            }
            if k == 1 || k == 2 || k == 4 {
                d.add_a(v, u);
            }
        }
        d
    }
    pub fn obs(&self) {
        let mut h = 0x77u64;
        for (u, n) in &self.out {
            h = rt::mix(h, *u as u64 + 1);
            for v in n {
                h = rt::mix(h, *v as u64 + (1 << 33));
            }
        }
        rt::obs(h);
    }
}

// ---- run set-up -------------------------------------------------------------------------------

/// Hash seeds, entropy and hash yield points of this run.
pub fn setup() {
    let s = if chance(2, 3) { 1 + draw(1 << 20) } else { 0 };
    let full = if s == 0 { 0 } else { rt::mix(s, 0x5eed) };
    fxhash::sim::SEED.store(full, Ordering::SeqCst);
    if s != 0 {
        rt::count("fault.hash_seed");
    }
    rt::set_entropy(draw(1 << 20));
    HINT.store(draw(4) as i64, Ordering::Relaxed);
    fxhash::sim::HOOK.store(sched::yield_point as fn() as usize, Ordering::SeqCst);
    rt::obs(s);
}
pub fn hash_seeded() -> bool {
    fxhash::sim::SEED.load(Ordering::Relaxed) != 0
}

// ---- generators -------------------------------------------------------------------------------

#[derive(Clone, Copy, Default)]
pub struct Opts {
    pub loops: bool,
    /// largest vertex count in small/medium/large draws
    pub small: u64,
    pub medium: u64,
    pub large: u64,
    /// largest vertex count of the rare very large graphs
    pub huge: u64,
    /// probability in 64ths of a large graph
    pub p_large: u64,
    /// labels close to the end of the id range (no arithmetic on ids follows)
    pub huge_ids: bool,
    /// 0..n-1 labels only
    pub dense_ids: bool,
    pub no_isolates: bool,
    /// one in so many graphs has more than 256 vertices and a simple structure (0: none)
    pub vast: u64,
    /// one in so many graphs has more than 65536 vertices (0: none)
    pub giant: u64,
    /// giant graphs have small degrees only
    pub no_hubs: bool,
}

/// How often properties meet a giant graph.
pub const GIANT: u64 = 3000;

impl Opts {
    pub fn small(n: u64) -> Opts {
        Opts { small: n, medium: n, large: n, ..Default::default() }
    }
    pub fn sizes(s: u64, m: u64, l: u64, p_large: u64) -> Opts {
        Opts { small: s, medium: m, large: l, huge: l * 4, p_large, ..Default::default() }
    }
}

fn structure(n: usize, r: &mut Rng, family: u64) -> Vec<(usize, usize)> {
    let mut e = vec![];
    match family {
        0 | 1 | 2 => {
            // gnp with expected average degree drawn
            let p = match family {
                0 => *pick(&[30u64, 10, 50, 75, 20]),
                1 => (100 * (1 + draw(4)) / (n as u64).max(1)).min(100),
                _ => *pick(&[90u64, 97, 60]),
            };
            for i in 0..n {
                for j in i + 1..n {
                    if r.below(100) < p {
                        e.push((i, j));
                    }
                }
            }
        }
        3 => {
            // random tree, sometimes with a few extra edges
            for i in 1..n {
                e.push((r.below(i as u64) as usize, i));
            }
            for _ in 0..draw(4) {
                if n > 1 {
                    e.push((r.below(n as u64) as usize, r.below(n as u64) as usize));
                }
            }
        }
        4 => {
            for i in 1..n {
                e.push((i - 1, i));
            }
            if n > 2 && chance(1, 2) {
                e.push((0, n - 1));
            }
        }
        5 => {
            // bipartite
            let a = 1 + r.below((n as u64).max(2) - 1) as usize;
            let p = *pick(&[40u64, 15, 80, 100]);
            for i in 0..a.min(n) {
                for j in a..n {
                    if r.below(100) < p {
                        e.push((i, j));
                    }
                }
            }
        }
        6 => {
            // hubs
            let h = (1 + draw(3)) as usize;
            for i in 0..n {
                for k in 0..h.min(n) {
                    if i != k && r.below(100) < 85 {
                        e.push((k.min(i), k.max(i)));
                    }
                }
            }
            for _ in 0..n / 2 {
                if n > 1 {
                    e.push((r.below(n as u64) as usize, r.below(n as u64) as usize));
                }
            }
        }
        7 => {
            // grid, sometimes with diagonals
            let w = (1..=n).find(|w| w * w >= n).unwrap_or(1);
            let diag = chance(1, 3);
            for i in 0..n {
                if (i + 1) % w != 0 && i + 1 < n {
                    e.push((i, i + 1));
                }
                if i + w < n {
                    e.push((i, i + w));
                }
                if diag && (i + 1) % w != 0 && i + w + 1 < n {
                    e.push((i, i + w + 1));
                }
            }
        }
        8 => {
            // complete multipartite
            let k = 2 + r.below(3) as usize;
            for i in 0..n {
                for j in i + 1..n {
                    if i % k != j % k {
                        e.push((i, j));
                    }
                }
            }
        }
        9 => {
            // disjoint blocks (cliques, cycles, stars)
            let mut i = 0;
            while i < n {
                let s = (1 + r.below(6) as usize).min(n - i);
                let kind = r.below(3);
                for a in 0..s {
                    for b in a + 1..s {
                        let take = match kind {
                            0 => true,
                            1 => b == a + 1 || (a == 0 && b == s - 1),
                            _ => a == 0,
                        };
                        if take {
                            e.push((i + a, i + b));
                        }
                    }
                }
                i += s;
            }
        }
        10 => {
            // chain of overlapping cliques
            let k = 2 + r.below(4) as usize;
            for i in 0..n {
                for j in i + 1..(i + k).min(n) {
                    e.push((i, j));
                }
            }
        }
        12 => {
            // points and lines of an affine plane: dense without short cycles
            let p = [2usize, 3, 5, 7, 11, 13].into_iter().take_while(|p| 2 * p * p <= n.max(8)).last().unwrap_or(2);
            for m in 0..p {
                for b in 0..p {
                    for x in 0..p {
                        let (line, point) = (m * p + b, p * p + x * p + (m * x + b) % p);
                        if line < n && point < n {
                            e.push((line, point));
                        }
                    }
                }
            }
        }
        13 => {
            // half graph
            for i in 0..n / 2 {
                for j in i..n / 2 {
                    e.push((i, n / 2 + j));
                }
            }
        }
        14 => {
            // spider or caterpillar: long legs
            let legs = 1 + r.below(5) as usize;
            for i in 1..n {
                e.push((if i <= legs { 0 } else { i - legs }, i));
            }
        }
        15 => {
            // union of random matchings: nearly regular
            let mut p: Vec<usize> = (0..n).collect();
            for _ in 0..2 + r.below(3) {
                r.shuffle(&mut p);
                for c in p.chunks(2) {
                    if c.len() == 2 {
                        e.push((c[0], c[1]));
                    }
                }
            }
        }
        _ => {
            // odd cycle attached to a path (lollipop / two cycles sharing a stem)
            let c = (3 + 2 * r.below(3) as usize).min(n.max(1));
            for i in 1..c {
                e.push((i - 1, i));
            }
            if c > 2 {
                e.push((0, c - 1));
            }
            for i in c..n {
                e.push((i - 1, i));
            }
            if n > c + 3 && chance(1, 2) {
                e.push((c, n - 1));
            }
        }
    }
    e
}

fn labels(n: usize, r: &mut Rng, o: &Opts) -> Vec<V> {
    let mut l: Vec<V> = match if o.dense_ids { draw(2) } else { draw(if o.huge_ids { 6 } else { 5 }) } {
        0 => return (0..n as V).collect(),
        1 => (0..n as V).collect(),
        2 => {
            let s = 1 + draw(9) as V;
            (0..n as V).map(|i| i * s + 3).collect()
        }
        3 => {
            // sparse
            let mut s = Set::new();
            while s.len() < n {
                s.insert(r.below(n as u64 * 40 + 10) as V);
            }
            s.into_iter().collect()
        }
        4 => {
            let mut s = Set::new();
            while s.len() < n {
                s.insert(r.below(1 << 28) as V);
            }
            s.into_iter().collect()
        }
        _ => {
            let mut s = Set::new();
            s.insert(V::MAX);
            while s.len() < n {
                s.insert(V::MAX - r.below(n as u64 * 3 + 5) as V);
            }
            s.into_iter().take(n).collect()
        }
    };
    r.shuffle(&mut l);
    l
}

/// Two sets of edges on the same new vertices with the same number of edges, the same degrees,
/// and for every vertex the same sum and exclusive-or of its neighbours' ids.
pub fn twins(has: impl Fn(V) -> bool) -> (Vec<(V, V)>, Vec<(V, V)>) {
    rt::count("gen.twins");
    let k = *pick(&[4u32, 4, 8, 2]);
    let free = |from: V| (0..).map(|i| from + i * k).find(|b| (0..k).all(|i| !has(b + i))).unwrap();
    let (a, b) = (free(0), free(1 << 12));
    let (mut x, mut y) = (vec![], vec![]);
    for i in 0..k {
        for j in 0..k {
            // the Thue-Morse sequence
            if (i.count_ones() + j.count_ones()) % 2 == 0 { &mut x } else { &mut y }.push((a + i, b + j));
        }
    }
    if chance(1, 2) {
        std::mem::swap(&mut x, &mut y);
    }
    (x, y)
}

/// More than 256 vertices, degrees or distances, in a structure which keeps the answers small.
fn vast(o: &Opts) -> RG {
    rt::count("gen.vast");
    let n = range(258, 340) as usize;
    let kind = draw(8);
    let mut r = Rng(rt::sub_seed());
    let mut e = vec![];
    match kind {
        0 => (1..n).for_each(|i| e.push((0, i))),
        1 => (1..n).for_each(|i| e.push((i - 1, i))),
        2 => (0..n).for_each(|i| e.push((i, (i + 1) % n))),
        3 => (2..n).for_each(|i| e.extend([(0, i), (1, i)])),
        4 => (1..n).for_each(|i| e.push((r.below(i as u64) as usize, i))),
        // a hub with a long tail
        5 => (1..n).for_each(|i| e.push((if i < n - 20 { 0 } else { i - 1 }, i))),
        // a hub over a path
        6 => (1..n).for_each(|i| {
            e.push((0, i));
            if i > 1 {
                e.push((i - 1, i));
            }
        }),
        _ => (0..n / 2).for_each(|i| e.push((i, n / 2 + i))),
    }
    let l = labels(n, &mut r, o);
    let mut g = RG::new();
    l.iter().for_each(|v| drop(g.add_v(*v)));
    e.into_iter().for_each(|(a, b)| drop(g.add_e(l[a], l[b])));
    if o.no_isolates {
        g = g.without_isolates();
    }
    g.obs();
    g
}

/// More than 65536 vertices, in one or many pieces of simple structure without short odd cycles
/// (or with few): answers stay linear in size.
fn giant(o: &Opts) -> RG {
    rt::count("gen.giant");
    let n = range(65538, 70000) as usize;
    let kind = if o.no_hubs { *pick(&[1u64, 5, 2, 4, 6, 8]) } else { draw(9) };
    let mut r = Rng(rt::sub_seed());
    let mut e: Vec<(usize, usize)> = vec![];
    match kind {
        0 => (1..n).for_each(|i| e.push((0, i))),
        1 => (1..n).for_each(|i| e.push((i - 1, i))),
        // one long cycle, odd or even
        2 => (0..n).for_each(|i| e.push((i, (i + 1) % n))),
        // two hubs
        3 => (2..n).for_each(|i| e.extend([(0, i), (1, i)])),
        // recursive tree
        4 => (1..n).for_each(|i| e.push((r.below(i as u64) as usize, i))),
        // forest of small pieces: paths, stars, triangles
        5 => {
            let mut i = 0;
            while i < n {
                let k = 1 + r.below(6) as usize;
                let shape = r.below(4);
                for j in i + 1..(i + k).min(n) {
                    e.push(match shape {
                        0 => (i, j),
                        1 | 2 => (j - 1, j),
                        _ => (i + r.below((j - i) as u64) as usize, j),
                    });
                }
                if shape == 2 && k == 3 && i + 2 < n {
                    e.push((i, i + 2));
                }
                i += k;
            }
        }
        // nearly no edges
        6 => (0..r.below(40)).for_each(|_| e.push((r.below(n as u64) as usize, r.below(n as u64) as usize))),
        // one large piece with a long tail, the rest isolated
        7 => {
            let k = n / 2 + r.below(n as u64 / 2) as usize;
            (1..k).for_each(|i| e.push((if i % 2 == 0 { 0 } else { i - 1 }, i)));
        }
        _ => (0..n / 2).for_each(|i| e.push((i, n / 2 + i))),
    }
    let l = labels(n, &mut r, o);
    let mut g = RG::new();
    l.iter().for_each(|v| drop(g.add_v(*v)));
    e.into_iter().filter(|(a, b)| a != b).for_each(|(a, b)| drop(g.add_e(l[a], l[b])));
    if o.no_isolates {
        g = g.without_isolates();
    }
    g.obs();
    g
}

/// A random graph.
pub fn graph(o: Opts) -> RG {
    let g = draw_graph(o);
    LARGEST.fetch_max(g.n() as u64, Ordering::Relaxed);
    g
}
/// Vertices of the largest graph drawn in this run.
static LARGEST: AtomicU64 = AtomicU64::new(0);

fn draw_graph(o: Opts) -> RG {
    if o.giant > 0 && rt::one_in(o.giant) {
        return giant(&o);
    }
    if o.vast > 0 && rt::one_in(o.vast) {
        return vast(&o);
    }
    let n = if o.p_large > 0 && chance(o.p_large, 64) {
        rt::count("gen.large");
        if o.huge > o.large && chance(1, 8) {
            rt::count("gen.huge");
            range(o.large, o.huge)
        } else {
            range(o.medium, o.large)
        }
    } else if o.medium > o.small && chance(1, 4) {
        range(o.small, o.medium)
    } else {
        draw(o.small + 1)
    } as usize;
    let mut g = RG::new();
    let family = if n > 60 || n as u64 > o.large { *pick(&[1u64, 3, 4, 6, 7, 9, 10, 5, 12, 14, 15, 11]) } else { draw(16) };
    let small_pairs = n <= 7 && chance(1, 3);
    let seed = rt::sub_seed();
    let mut r = Rng(seed);
    let e = if small_pairs {
        let mut e = vec![];
        for i in 0..n {
            for j in i + 1..n {
                if chance(1, 2) {
                    e.push((i, j));
                }
            }
        }
        e
    } else if n > 60 && family == 1 {
        // sparse gnm, without the quadratic loop
        let m = n * (1 + draw(3) as usize);
        (0..m).map(|_| (r.below(n as u64) as usize, r.below(n as u64) as usize)).collect()
    } else {
        structure(n, &mut r, family)
    };
    let l = labels(n, &mut r, &o);
    for &v in &l {
        g.add_v(v);
    }
    for (a, b) in e {
        if a != b {
            g.add_e(l[a], l[b]);
        }
    }
    // second component, isolated vertices, loops
    if n > 0 && o.loops && chance(1, 3) {
        for _ in 0..=draw(2) {
            let v = l[r.below(n as u64) as usize];
            g.add_e(v, v);
        }
    }
    if o.no_isolates {
        g = g.without_isolates();
    }
    g.obs();
    g
}

pub fn shuffled<T: Clone>(v: &[T], seed: u64) -> Vec<T> {
    let mut v = v.to_vec();
    if seed != 0 {
        Rng(rt::mix(seed, 77)).shuffle(&mut v);
    }
    v
}

/// A drawn order of the vertices: sorted, or any permutation.
pub fn order(g: &RG) -> Vec<V> {
    let s = if chance(3, 4) { 1 + rt::sub_seed() } else { 0 };
    let mut v = shuffled(&g.verts(), s);
    match if v.len() > 3 { draw(12) } else { 0 } {
        9 => v.sort_by_key(|u| g.degree(*u)),
        10 => v.sort_by_key(|u| std::cmp::Reverse(g.degree(*u))),
        11 => {
            // breadth first
            let d = g.bfs(&v[..1], |_| true);
            v.sort_by_key(|u| d.get(u).copied().unwrap_or(u32::MAX));
            if s % 2 == 1 {
                v.reverse();
            }
        }
        _ => {}
    }
    rt::obs(s);
    if v.len() > 1 && s != 0 {
        rt::effect();
    }
    v
}

/// Build an EditGraph with this content through a noisy history.
pub fn edit_graph(g: &RG) -> EditGraph {
    if hash_seeded() && g.n() > 1 {
        rt::effect();
    }
    let seed = if chance(2, 3) { 1 + rt::sub_seed() } else { 0 };
    let cap = *pick(&[0usize, 1, 64, 3000]);
    let mut r = Rng(seed);
    let mut e: EditGraph = if cap == 0 { EditGraph::new() } else { EditGraph::with_capacity(cap) };
    let vs = shuffled(&g.verts(), seed);
    let es = shuffled(&g.edges(), seed);
    if seed == 0 {
        e.add_vertices(vs.iter());
        e.add_edges(es.iter());
        return e;
    }
    let noisy = chance(1, 2);
    let verts_first = chance(1, 2);
    if verts_first {
        for v in &vs {
            e.add_vertex(v);
        }
    }
    for (u, v) in &es {
        if noisy && r.below(4) == 0 && vs.len() > 1 {
            let a = vs[r.below(vs.len() as u64) as usize];
            let b = vs[r.below(vs.len() as u64) as usize];
            if !g.has_e(a, b) {
                e.add_edge(&a, &b);
                e.remove_edge(&b, &a);
            }
        }
        if r.below(2) == 0 {
            e.add_edge(u, v);
        } else {
            e.add_edge(v, u);
        }
    }
    for v in &vs {
        e.add_vertex(v);
    }
    if noisy {
        // a vertex that comes and goes
        let mut x = 5;
        while g.has_v(x) {
            x += 7;
        }
        for v in vs.iter().take(3) {
            e.add_edge(&x, v);
        }
        e.remove_vertex(&x);
    }
    e
}

pub fn edit_digraph(d: &RD) -> EditDigraph {
    if hash_seeded() && d.out.len() > 1 {
        rt::effect();
    }
    let seed = if chance(2, 3) { 1 + rt::sub_seed() } else { 0 };
    let mut e: EditDigraph = if chance(1, 2) { EditDigraph::new() } else { EditDigraph::with_capacity(*pick(&[1usize, 100])) };
    for v in shuffled(&d.verts(), seed) {
        e.add_vertex(&v);
    }
    for (u, v) in shuffled(&d.arcs(), seed) {
        e.add_arc(&u, &v);
    }
    e
}

// ---- simulator-controlled graphs --------------------------------------------------------------

/// Countdown to a failure inside a caller-supplied callback, one per simulated client.
pub static FUSE: [AtomicI64; MAX_T + 1] = [const { AtomicI64::new(-1) }; MAX_T + 1];

pub fn arm(n: i64) {
    FUSE[sched::me()].store(n, Ordering::Relaxed);
}
pub fn disarm() {
    FUSE[sched::me()].store(-1, Ordering::Relaxed);
}

/// Every call into a caller-supplied object passes here.
pub fn tick() {
    sched::yield_point();
    let f = &FUSE[sched::me()];
    let x = f.load(Ordering::Relaxed);
    if x < 0 {
        return;
    }
    if x == 0 {
        f.store(-1, Ordering::Relaxed);
        sched::cancel();
    } else {
        f.store(x - 1, Ordering::Relaxed);
    }
}

struct Ticked<I>(I);
impl<I: Iterator> Iterator for Ticked<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.0.next()
    }
}

/// A graph that presents its content in an order the simulator chose, and whose every method is a
/// scheduling point and a possible point of failure.
pub struct SimGraph {
    pub verts: Vec<V>,
    nb: BTreeMap<V, Vec<V>>,
    rg: RG,
    m: usize,
}

impl SimGraph {
    pub fn new(g: &RG) -> SimGraph {
        let seed = if chance(3, 4) { 1 + rt::sub_seed() } else { 0 };
        SimGraph::with_seed(g, seed)
    }
    pub fn with_seed(g: &RG, seed: u64) -> SimGraph {
        rt::obs(seed);
        if seed != 0 && g.n() > 1 {
            rt::effect();
            rt::count("fault.presentation_order");
        }
        let verts = shuffled(&g.verts(), seed);
        SimGraph::with_order(g, verts, seed)
    }
    fn with_order(g: &RG, verts: Vec<V>, seed: u64) -> SimGraph {
        let nb = g
            .adj
            .iter()
            .map(|(u, n)| (*u, shuffled(&n.iter().copied().collect::<Vec<_>>(), if seed == 0 { 0 } else { seed + *u as u64 + 1 })))
            .collect();
        SimGraph { verts, nb, rg: g.clone(), m: g.m() }
    }
    pub fn model(&self) -> &RG {
        &self.rg
    }
}

impl Graph for SimGraph {
    fn num_vertices(&self) -> usize {
        tick();
        self.verts.len()
    }
    fn num_edges(&self) -> usize {
        tick();
        self.m
    }
    fn contains(&self, u: &Vertex) -> bool {
        tick();
        self.nb.contains_key(u)
    }
    fn adjacent(&self, u: &Vertex, v: &Vertex) -> bool {
        tick();
        self.rg.has_e(*u, *v)
    }
    fn degree(&self, u: &Vertex) -> u32 {
        tick();
        self.rg.degree(*u)
    }
    fn vertices<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> {
        tick();
        Box::new(Ticked(self.verts.iter()))
    }
    fn neighbours<'a>(&'a self, u: &Vertex) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> {
        tick();
        Box::new(Ticked(self.nb.get(u).unwrap_or_else(|| panic!("simulated graph asked about absent vertex {u}")).iter()))
    }
}

/// An ordered graph of the simulator: neighbours in an arbitrary order, vertices by position.
pub struct SimOrd {
    g: SimGraph,
    idx: BTreeMap<V, usize>,
}
impl SimOrd {
    pub fn new(g: &RG, order: &[V]) -> SimOrd {
        let seed = if chance(3, 4) { 1 + rt::sub_seed() } else { 0 };
        if seed != 0 && g.n() > 1 {
            rt::effect();
            rt::count("fault.presentation_order");
        }
        SimOrd { g: SimGraph::with_order(g, order.to_vec(), seed), idx: order.iter().enumerate().map(|(i, v)| (*v, i)).collect() }
    }
}
impl Graph for SimOrd {
    fn num_vertices(&self) -> usize {
        self.g.num_vertices()
    }
    fn num_edges(&self) -> usize {
        self.g.num_edges()
    }
    fn contains(&self, u: &Vertex) -> bool {
        self.g.contains(u)
    }
    fn adjacent(&self, u: &Vertex, v: &Vertex) -> bool {
        self.g.adjacent(u, v)
    }
    fn degree(&self, u: &Vertex) -> u32 {
        self.g.degree(u)
    }
    fn vertices<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> {
        self.g.vertices()
    }
    fn neighbours<'a>(&'a self, u: &Vertex) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> {
        self.g.neighbours(u)
    }
}
impl LinearGraph for SimOrd {
    fn index_of(&self, u: &Vertex) -> usize {
        tick();
        *self.idx.get(u).unwrap_or_else(|| panic!("simulated graph asked about absent vertex {u}"))
    }
    fn left_neighbours(&self, u: &Vertex) -> Vec<Vertex> {
        tick();
        let i = *self.idx.get(u).unwrap_or_else(|| panic!("simulated graph asked about absent vertex {u}"));
        let mut l: Vec<V> = self.g.rg.adj[u].iter().copied().filter(|v| self.idx[v] < i).collect();
        l.sort_by_key(|v| self.idx[v]);
        l
    }
    fn right_degree(&self, u: &Vertex) -> u32 {
        tick();
        let Some(&i) = self.idx.get(u) else { return 0 };
        self.g.rg.adj[u].iter().filter(|v| self.idx[v] > i).count() as u32
    }
}

/// What caller-supplied sequences of this run say about their length.
pub static HINT: AtomicI64 = AtomicI64::new(0);

/// Caller iterator over owned items; every step is a scheduling point and a possible failure.
pub struct SimIter<T> {
    items: std::vec::IntoIter<T>,
}
pub fn items<T>(v: Vec<T>) -> SimIter<T> {
    SimIter { items: v.into_iter() }
}
impl<T> Iterator for SimIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick();
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // callers may know everything or nothing about the length in advance
        let n = self.items.len();
        match HINT.load(Ordering::Relaxed) {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n / 2, None),
            _ => (0, Some(2 * n + 3)),
        }
    }
}

/// Graph handed to generic algorithms: real containers or simulator-controlled presentation.
pub enum AnyGraph {
    E(EditGraph),
    S(SimGraph),
    O(OrdGraph),
    D(DegenGraph),
}

impl AnyGraph {
    pub fn new(g: &RG) -> AnyGraph {
        match draw(6) {
            0 | 1 => AnyGraph::E(edit_graph(g)),
            2 | 3 => AnyGraph::S(SimGraph::new(g)),
            4 if !g.has_loop() => AnyGraph::O(OrdGraph::with_ordering(&SimGraph::new(g), order(g).iter())),
            5 if !g.has_loop() => AnyGraph::D(DegenGraph::with_ordering(&SimGraph::new(g), order(g).iter())),
            _ => AnyGraph::E(edit_graph(g)),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            AnyGraph::E(_) => "EditGraph",
            AnyGraph::S(_) => "SimGraph",
            AnyGraph::O(_) => "OrdGraph",
            AnyGraph::D(_) => "DegenGraph",
        }
    }
}

#[macro_export]
macro_rules! any {
    ($g:expr, $x:ident => $body:expr) => {
        match $g {
            $crate::gen::AnyGraph::E($x) => $body,
            $crate::gen::AnyGraph::S($x) => $body,
            $crate::gen::AnyGraph::O($x) => $body,
            $crate::gen::AnyGraph::D($x) => $body,
        }
    };
}

/// Ordered graph of any representation.
pub enum AnyOrd {
    O(OrdGraph),
    D(DegenGraph),
    S(SimOrd),
}
impl AnyOrd {
    /// `swaps`: reach the ordering through a history of swaps (OrdGraph only).
    pub fn new(g: &RG, ord: &[V]) -> AnyOrd {
        let src = SimGraph::new(g);
        let k = draw(5);
        match k {
            0 => AnyOrd::O(OrdGraph::with_ordering(&src, ord.iter())),
            1 => AnyOrd::D(DegenGraph::with_ordering(&src, ord.iter())),
            2 => AnyOrd::S(SimOrd::new(g, ord)),
            _ => {
                let o = swapped(g, ord, &src);
                if k == 3 {
                    AnyOrd::O(o)
                } else {
                    AnyOrd::D(o.to_degeneracy_graph())
                }
            }
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            AnyOrd::O(_) => "OrdGraph",
            AnyOrd::D(_) => "DegenGraph",
            AnyOrd::S(_) => "SimOrd",
        }
    }
}

/// An OrdGraph that starts with another order and arrives at `ord` by swaps.
pub fn swapped(g: &RG, ord: &[V], src: &impl Graph) -> OrdGraph {
    let mut cur = order(g);
    let mut o = OrdGraph::with_ordering(src, cur.iter());
    for _ in 0..draw(4) {
        if cur.len() > 1 {
            let (i, j) = (draw(cur.len() as u64) as usize, draw(cur.len() as u64) as usize);
            o.swap(&cur[i], &cur[j]);
            cur.swap(i, j);
        }
    }
    let mut at: BTreeMap<V, usize> = cur.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    for i in 0..cur.len() {
        if cur[i] != ord[i] {
            let j = at[&ord[i]];
            at.insert(cur[i], j);
            if (i + j) % 2 == 0 {
                o.swap(&cur[i], &cur[j]);
            } else {
                o.swap(&cur[j], &cur[i]);
            }
            cur.swap(i, j);
        }
    }
    o
}

#[macro_export]
macro_rules! any_ord {
    ($g:expr, $x:ident => $body:expr) => {
        match $g {
            $crate::gen::AnyOrd::O($x) => $body,
            $crate::gen::AnyOrd::D($x) => $body,
            $crate::gen::AnyOrd::S($x) => $body,
        }
    };
}

/// What a caller sees of a graph, read through the trait.
pub fn read_graph<G: Graph>(g: &G) -> Result<RG, String> {
    let mut r = RG::new();
    for v in g.vertices() {
        if !r.add_v(*v) {
            return Err(format!("vertex {v} presented twice"));
        }
    }
    for v in r.verts() {
        let mut s = Set::new();
        for u in g.neighbours(&v) {
            if !s.insert(*u) {
                return Err(format!("neighbour {u} of {v} presented twice"));
            }
        }
        for u in &s {
            if !r.has_v(*u) {
                return Err(format!("neighbour {u} of {v} is not a vertex"));
            }
        }
        *r.adj.get_mut(&v).unwrap() = s;
    }
    for (u, n) in &r.adj {
        for v in n {
            if !r.adj[v].contains(u) {
                return Err(format!("{v} is a neighbour of {u} but not the other way round"));
            }
        }
    }
    Ok(r)
}

pub fn vset(s: &VertexSet) -> Set {
    s.iter().copied().collect()
}
pub fn vmap<T: Copy>(m: &VertexMap<T>) -> BTreeMap<V, T> {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}
pub fn to_vset(s: &Set) -> VertexSet {
    s.iter().copied().collect()
}
pub fn obs_set(s: &Set) {
    let mut h = 3u64;
    for v in s {
        h = rt::mix(h, *v as u64);
    }
    rt::obs(h);
}
/// A drawn subset of the vertices.
pub fn subset(g: &RG, max: u64) -> Set {
    let vs = g.verts();
    if vs.is_empty() {
        return Set::new();
    }
    let k = match draw(4) {
        0 => draw(3.min(vs.len() as u64) + 1),
        1 => vs.len() as u64,
        _ => draw(vs.len() as u64 + 1),
    }
    .min(max);
    let s = rt::sub_seed();
    shuffled(&vs, s).into_iter().take(k as usize).collect()
}

// ---- clients ----------------------------------------------------------------------------------

pub type Task<'a> = Box<dyn FnOnce() + 'a>;

/// `k` clients performing up to `ops` operations each under the scheduler.
pub fn clients(k: u64, ops: u64, f: impl Fn()) {
    let f = &f;
    let n = LARGEST.load(Ordering::Relaxed);
    if n <= 9 && one_in(150) {
        let n = if n <= 4 && one_in(24) { 66_000 } else { range(257, 700) };
        sched::run_threads(vec![Box::new(move || rt::long(n, 24, f)) as Task]);
        return;
    }
    if ALTERNATE.swap(false, Ordering::Relaxed) {
        let n = if n <= 4 && one_in(8) { 66_000 } else { range(300, 700) };
        sched::run_threads(vec![Box::new(move || rt::alternating(n, f)) as Task]);
        return;
    }
    sched::run_threads(
        (0..k)
            .map(|_| {
                Box::new(move || {
                    for _ in 0..1 + draw(ops) {
                        sched::op_boundary();
                        f();
                    }
                }) as Task
            })
            .collect(),
    );
}

/// What one client does: a few drawn operations; a lone client's history is rarely hundreds long.
pub fn history(alone: bool, ops: u64, vary: u64, mut f: impl FnMut()) {
    if alone && one_in(60) {
        return rt::long(range(257, 1200), vary, f);
    }
    for _ in 0..1 + draw(ops) {
        sched::op_boundary();
        f();
    }
}

/// Run `f` with a failure of the caller's objects after a drawn number of calls into them.
pub fn cancelled(what: &str, f: impl FnOnce()) -> bool {
    arm(draw(*pick(&[6u64, 30, 200, 2000])) as i64);
    let r = sched::catch(f);
    disarm();
    match r {
        sched::Outcome::Done(()) => false,
        sched::Outcome::Cancelled => true,
        sched::Outcome::Panicked(m) if sched::harness_panic(&m) => rt::harness_error(format!("{what}: {m}")),
        sched::Outcome::Panicked(m) => rt::fail("panic", format!("{what}: panicked: {m}")),
    }
}

/// `f` with its result checked by the caller; sometimes an attempt that is cut short goes first.
pub fn attempt<T>(what: &str, f: impl Fn() -> T) -> T {
    if chance(1, 6) {
        ev!("{what}, caller's objects fail on the way");
        cancelled(what, || drop(f()));
    }
    ev!("{what}");
    sched::no_panic(what, f)
}

/// The same vertices and as many edges, differently connected: what a cache keyed by sizes confuses.
pub fn sibling(g: &RG) -> RG {
    let vs = g.verts();
    let p = shuffled(&vs, 1 + rt::sub_seed());
    let to: BTreeMap<V, V> = vs.iter().copied().zip(p).collect();
    let mut h = RG::new();
    vs.iter().for_each(|v| drop(h.add_v(*v)));
    g.edges().iter().for_each(|(u, v)| drop(h.add_e(to[u], to[v])));
    // move a few edges
    if vs.len() > 2 {
        for _ in 0..draw(3) {
            let e = h.edges();
            if e.is_empty() {
                break;
            }
            let (a, b) = *pick(&e);
            let (x, y) = (*pick(&vs), *pick(&vs));
            if x != y && !h.has_e(x, y) {
                h.rem_e(a, b);
                h.add_e(x, y);
            }
        }
    }
    h.obs();
    rt::count("gen.sibling");
    h
}

/// One graph, or two of the same size that clients use side by side.
static ALTERNATE: AtomicBool = AtomicBool::new(false);
/// Whether a marathon between this graph and a part of it follows.
pub fn alternate(g: &RG) -> bool {
    g.n() > 1 && g.n() <= 9 && one_in(60)
}

/// An induced subgraph that lacks some vertices.
pub fn part(g: &RG) -> RG {
    let vs = shuffled(&g.verts(), 1 + rt::sub_seed());
    let k = draw(vs.len() as u64) as usize;
    let h = g.induced(&vs[..k].iter().copied().collect());
    h.obs();
    h
}

/// One of the objects that clients ask about; in some marathons the first comes up every so often.
pub fn turn<T>(ws: &[T]) -> &T {
    match rt::turn() {
        Some(first) if ws.len() > 1 => &ws[!first as usize],
        _ => pick(ws),
    }
}

pub fn worlds(g: RG) -> Vec<RG> {
    if alternate(&g) {
        ALTERNATE.store(true, Ordering::Relaxed);
        let h = part(&g);
        vec![g, h]
    } else if chance(1, 4) {
        let h = sibling(&g);
        vec![g, h]
    } else {
        vec![g]
    }
}
