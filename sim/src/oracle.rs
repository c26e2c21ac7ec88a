//! Executable definitions the results of the real code are compared with.

use crate::gen::*;
use graphbench::algorithms::BipartiteWitness;
use graphbench::graph::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Res = Result<(), String>;
pub type Maps = BTreeMap<V, BTreeMap<V, u32>>;

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

/// Sets larger than this are abbreviated in messages.
pub fn show<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 400 {
        let mut l = 400;
        while !s.is_char_boundary(l) {
            l -= 1;
        }
        format!("{}...", &s[..l])
    } else {
        s
    }
}

pub fn components(g: &RG) -> BTreeSet<Set> {
    let mut seen = Set::new();
    let mut r = BTreeSet::new();
    for v in g.verts() {
        if !seen.contains(&v) {
            let c: Set = g.bfs(&[v], |_| true).into_keys().collect();
            seen.extend(c.iter());
            r.insert(c);
        }
    }
    r
}

pub fn check_components(g: &RG, got: &[VertexSet]) -> Res {
    let want = components(g);
    let sets: BTreeSet<Set> = got.iter().map(vset).collect();
    ensure!(sets.len() == got.len() && sets == want, "components {} instead of {} for {}", show(&got.iter().map(vset).collect::<Vec<_>>()), show(&want), g.show());
    Ok(())
}

pub fn is_bipartite(g: &RG) -> bool {
    let mut col: BTreeMap<V, bool> = BTreeMap::new();
    for v in g.verts() {
        if col.contains_key(&v) {
            continue;
        }
        for (u, d) in g.bfs(&[v], |_| true) {
            col.insert(u, d % 2 == 0);
        }
    }
    g.edges().iter().all(|(u, v)| col[u] != col[v])
}

pub fn check_bipartite(g: &RG, w: &BipartiteWitness) -> Res {
    let truth = is_bipartite(g);
    match w {
        BipartiteWitness::Bipartition(l, r) => {
            ensure!(truth, "bipartition reported for a graph with an odd cycle: {}", g.show());
            let (l, r) = (vset(l), vset(r));
            ensure!(l.is_disjoint(&r), "sides overlap: {} {}", show(&l), show(&r));
            let all: Set = l.union(&r).copied().collect();
            ensure!(all == g.verts().into_iter().collect(), "sides {} {} do not cover exactly the vertices of {}", show(&l), show(&r), g.show());
            for (u, v) in g.edges() {
                ensure!(l.contains(&u) != l.contains(&v), "edge {u}-{v} inside one side; {}", g.show());
            }
        }
        BipartiteWitness::OddCycle(c) => {
            ensure!(!truth, "odd cycle {c:?} reported for a bipartite graph {}", g.show());
            ensure!(c.len() % 2 == 1, "cycle {c:?} has even length; {}", g.show());
            let s: Set = c.iter().copied().collect();
            ensure!(s.len() == c.len(), "cycle {c:?} repeats a vertex; {}", g.show());
            for i in 0..c.len() {
                let (a, b) = (c[i], c[(i + 1) % c.len()]);
                ensure!(g.has_e(a, b), "cycle {c:?}: {a} and {b} are not adjacent; {}", g.show());
            }
        }
    }
    Ok(())
}

/// Exact degeneracy and core numbers of a loop-free graph by repeated minimum-degree removal.
pub fn cores(g: &RG) -> (u32, BTreeMap<V, u32>) {
    let mut deg: BTreeMap<V, u32> = g.adj.iter().map(|(v, n)| (*v, n.len() as u32)).collect();
    let mut q: BTreeSet<(u32, V)> = deg.iter().map(|(v, d)| (*d, *v)).collect();
    let mut core = BTreeMap::new();
    let mut k = 0;
    while let Some((d, v)) = q.pop_first() {
        k = k.max(d);
        core.insert(v, k);
        deg.remove(&v);
        for u in &g.adj[&v] {
            if let Some(x) = deg.get_mut(u) {
                q.remove(&(*x, *u));
                *x -= 1;
                q.insert((*x, *u));
            }
        }
    }
    (k, core)
}

pub fn check_degeneracy(g: &RG, got: &(u32, u32, Vec<Vertex>, VertexMap<u32>)) -> Res {
    let (lower, upper, ord, core) = got;
    let (k, exact) = cores(g);
    ensure!(*lower <= k, "lower bound {lower} exceeds the degeneracy {k} of {}", g.show());
    ensure!(*upper >= k, "upper bound {upper} below the degeneracy {k} of {}", g.show());
    let s: Set = ord.iter().copied().collect();
    ensure!(s.len() == ord.len() && s == g.verts().into_iter().collect(), "ordering {} is not a permutation of the vertices of {}", show(ord), g.show());
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    for v in ord {
        let l = g.adj[v].iter().filter(|u| pos[u] < pos[v]).count() as u32;
        ensure!(l <= *upper, "{v} has {l} earlier neighbours, upper bound {upper}; {}", g.show());
    }
    let core = vmap(core);
    ensure!(core.len() == exact.len(), "core numbers for {} vertices instead of {}", core.len(), exact.len());
    let maxdeg = g.adj.values().map(|n| n.len()).max().unwrap_or(0);
    for (v, c) in &exact {
        let Some(x) = core.get(v) else { return Err(format!("no core number for {v}; {}", g.show())) };
        if maxdeg <= 128 {
            ensure!(x == c, "core number {x} of {v} instead of {c}; {}", g.show());
        } else {
            ensure!(x >= c, "core number {x} of {v} below the true {c}; {}", g.show());
        }
    }
    if maxdeg <= 128 {
        ensure!(*lower == k && *upper == k, "bounds {lower},{upper} instead of {k}; {}", g.show());
    }
    Ok(())
}

/// An ordered graph built by degeneracy: no left degree above the degeneracy (loop-free, degrees up to 128).
pub fn check_degen_order(what: &str, g: &RG, ord: &[V]) -> Res {
    let s: Set = ord.iter().copied().collect();
    ensure!(s.len() == ord.len() && s == g.verts().into_iter().collect(), "{what}: {} is not a permutation of the vertices of {}", show(&ord), g.show());
    if g.adj.values().any(|n| n.len() > 128) {
        return Ok(());
    }
    let (k, _) = cores(g);
    if let Some((v, l)) = left_degrees(g, ord).into_iter().find(|(_, l)| *l as u32 > k) {
        return Err(format!("{what}: {v} has {l} left neighbours, degeneracy {k}; order {} of {}", show(&ord), g.show()));
    }
    Ok(())
}

/// Weakly reachable: v from u over a path of length <= r whose leftmost vertex is v (v left of u).
pub fn wreach(g: &RG, ord: &[V], r: u32) -> Maps {
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut res: Maps = ord.iter().map(|v| (*v, BTreeMap::new())).collect();
    for v in ord {
        for (u, d) in g.bfs_to(r, &[*v], |x| pos[&x] >= pos[v]) {
            if u != *v && d <= r {
                res.get_mut(&u).unwrap().insert(*v, d);
            }
        }
    }
    res
}

/// Strongly reachable: v from u over a path of length <= r on which v is the only vertex left of u.
pub fn sreach(g: &RG, ord: &[V], r: u32) -> Maps {
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut res: Maps = ord.iter().map(|v| (*v, BTreeMap::new())).collect();
    for u in ord {
        // distances through vertices not left of u, then one last step to the left
        let inside = g.bfs_to(r - 1, &[*u], |x| pos[&x] >= pos[u]);
        let m = res.get_mut(u).unwrap();
        for (x, d) in &inside {
            for v in &g.adj[x] {
                if pos[v] < pos[u] && d + 1 <= r {
                    let e = m.entry(*v).or_insert(d + 1);
                    *e = (*e).min(d + 1);
                }
            }
        }
    }
    res
}

pub fn maps_of(m: &VertexMap<VertexMap<u32>>) -> Maps {
    m.iter().map(|(k, v)| (*k, vmap(v))).collect()
}

pub fn check_maps(what: &str, g: &RG, ord: &[V], want: &Maps, got: &Maps) -> Res {
    if want == got {
        return Ok(());
    }
    for (v, w) in want {
        match got.get(v) {
            None => return Err(format!("{what}: no entry for {v}; order {} of {}", show(&ord), g.show())),
            Some(x) if x != w => return Err(format!("{what} of {v}: {} instead of {}; order {} of {}", show(x), show(w), show(&ord), g.show())),
            _ => {}
        }
    }
    Err(format!("{what}: entries for vertices that do not exist; {}", g.show()))
}

/// Number of inclusion-maximal cliques (isolated vertices count one).
pub fn max_cliques(g: &RG) -> u64 {
    fn rec(g: &RG, p: &Set, x: &Set) -> u64 {
        if p.is_empty() {
            return x.is_empty() as u64;
        }
        let pivot = *p.iter().chain(x.iter()).max_by_key(|u| g.adj[u].intersection(p).count()).unwrap();
        let mut p = p.clone();
        let mut x = x.clone();
        let mut t = 0;
        for v in p.difference(&g.adj[&pivot]).copied().collect::<Vec<_>>() {
            let n = &g.adj[&v];
            t += rec(g, &p.intersection(n).copied().collect(), &x.intersection(n).copied().collect());
            p.remove(&v);
            x.insert(v);
        }
        t
    }
    if g.n() == 0 {
        return 0;
    }
    if g.n() > 400 {
        // vertex by vertex: each clique is counted at its first vertex
        let mut ord = g.verts();
        ord.sort_by_key(|v| g.adj[v].len());
        let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        return ord
            .iter()
            .map(|v| {
                let (p, x) = g.adj[v].iter().partition(|w| pos[*w] > pos[v]);
                rec(g, &p, &x)
            })
            .sum();
    }
    rec(g, &g.verts().into_iter().collect(), &Set::new())
}

/// Second, independent count for small graphs: test every vertex subset.
pub fn max_cliques_subsets(g: &RG) -> u64 {
    let v = g.verts();
    let n = v.len();
    assert!(n <= 16);
    let nb: Vec<u32> = v.iter().map(|u| (0..n).filter(|&j| g.has_e(*u, v[j])).fold(0, |a, j| a | 1 << j)).collect();
    let mut t = 0;
    for s in 1u32..1 << n {
        let mut common = (1u32 << n) - 1;
        let mut clique = true;
        for i in 0..n {
            if s >> i & 1 == 1 {
                if s & !(1 << i) & !nb[i] != 0 {
                    clique = false;
                    break;
                }
                common &= nb[i];
            }
        }
        if clique && common & !s == 0 {
            t += 1;
        }
    }
    t
}

pub fn dist(g: &RG, u: V, v: V) -> Option<u32> {
    g.bfs(&[u], |_| true).get(&v).copied()
}

pub fn check_domset(
    g: &RG,
    r: u32,
    target: &Set,
    witness: bool,
    got: &(VertexSet, VertexMap<u32>, Option<VertexColouring<u32>>),
) -> Res {
    let (d, dd, col) = got;
    let d = vset(d);
    let dd = vmap(dd);
    for x in &d {
        ensure!(g.has_v(*x), "dominating set contains {x}, not a vertex of {}", g.show());
    }
    let from: Vec<V> = d.iter().copied().collect();
    let true_d = g.bfs(&from, |_| true);
    for t in target {
        let Some(&td) = true_d.get(t) else {
            return Err(format!("target {t} is not reachable from the {r}-dominating set {}; {}", show(&d), g.show()));
        };
        ensure!(td <= r, "target {t} is at distance {td} from the {r}-dominating set {}; {}", show(&d), g.show());
        let Some(&rd) = dd.get(t) else { return Err(format!("no distance reported for target {t}")) };
        ensure!(rd <= r, "reported distance {rd} of target {t} exceeds the radius {r}; {}", g.show());
        ensure!(rd >= td, "reported distance {rd} of target {t} is below its true distance {td} to {}; {}", show(&d), g.show());
    }
    ensure!(witness == col.is_some(), "witness requested: {witness}, returned: {}", col.is_some());
    if let Some(c) = col {
        let c: BTreeMap<V, u32> = c.iter().map(|(a, b)| (*a, *b)).collect();
        if !target.is_empty() {
            ensure!(!c.is_empty(), "empty witness for a non-empty target");
        }
        for x in c.keys() {
            ensure!(d.contains(x) && target.contains(x), "witness contains {x}, which is not a target in the dominating set; {}", g.show());
        }
        let k: Vec<V> = c.keys().copied().collect();
        for (i, x) in k.iter().enumerate() {
            let dx = g.bfs(&[*x], |_| true);
            for y in &k[i + 1..] {
                if c[x] == c[y] {
                    if let Some(z) = dx.get(y) {
                        ensure!(*z as u64 > 2 * r as u64, "witness: {x} and {y} share colour {} at distance {z} <= {}; {}", c[x], 2 * r as u64, g.show());
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn left_degrees(g: &RG, ord: &[V]) -> BTreeMap<V, usize> {
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    ord.iter().map(|v| (*v, g.adj[v].iter().filter(|u| pos[u] < pos[v]).count())).collect()
}

pub fn check_greedy(g: &RG, ord: &[V], got: &VertexColouring<u32>) -> Res {
    let c: BTreeMap<V, u32> = got.iter().map(|(a, b)| (*a, *b)).collect();
    for v in g.verts() {
        ensure!(c.contains_key(&v), "vertex {v} has no colour; order {} of {}", show(&ord), g.show());
    }
    ensure!(c.len() == g.n(), "{} coloured, {} vertices", c.len(), g.n());
    for (u, v) in g.edges() {
        ensure!(c[&u] != c[&v], "adjacent {u} and {v} share colour {}; order {} of {}", c[&u], show(&ord), g.show());
    }
    let used: BTreeSet<u32> = c.values().copied().collect();
    let bound = left_degrees(g, ord).values().max().map_or(0, |x| x + 1);
    ensure!(used.len() <= bound, "{} colours, largest left degree {}; order {} of {}", used.len(), bound - 1, show(&ord), g.show());
    Ok(())
}

pub fn check_scattered(g: &RG, distance: u32, target: &Set, got: &[VertexSet]) -> Res {
    let mut seen = Set::new();
    for c in got {
        let c = vset(c);
        ensure!(!c.is_empty(), "empty class among {}", show(&got.iter().map(vset).collect::<Vec<_>>()));
        for x in &c {
            ensure!(target.contains(x), "{x} is coloured but not a target");
            ensure!(seen.insert(*x), "{x} is in two classes; target {} distance {distance} of {}", show(target), g.show());
        }
        let k: Vec<V> = c.iter().copied().collect();
        for (i, x) in k.iter().enumerate() {
            let dx = g.bfs(&[*x], |_| true);
            for y in &k[i + 1..] {
                if let Some(z) = dx.get(y) {
                    ensure!(*z >= distance, "{x} and {y} share a class at distance {z} < {distance}; target {} of {}", show(target), g.show());
                }
            }
        }
    }
    ensure!(seen == *target, "classes cover {} instead of the target {}; {}", show(&seen), show(target), g.show());
    Ok(())
}

/// Trace table: subset of `inner` (in the given order) -> number of outside vertices with that trace.
pub fn traces(g: &RG, inner: &[V]) -> BTreeMap<Vec<V>, usize> {
    let s: Set = inner.iter().copied().collect();
    let mut t = BTreeMap::new();
    for v in g.verts() {
        if !s.contains(&v) {
            let k: Vec<V> = inner.iter().copied().filter(|u| g.has_e(*u, v)).collect();
            *t.entry(k).or_insert(0) += 1;
        }
    }
    t
}

/// Every query of the undirected interface against the model.
/// `loops_twice`: a loop contributes two to the degree.
pub fn check_graph<G: Graph>(what: &str, g: &G, m: &RG) -> Res {
    ensure!(g.num_vertices() == m.n(), "{what}: num_vertices {} instead of {}; {}", g.num_vertices(), m.n(), m.show());
    ensure!(g.len() == m.n() && g.is_empty() == (m.n() == 0), "{what}: len {} is_empty {}; {}", g.len(), g.is_empty(), m.show());
    ensure!(g.num_edges() == m.m(), "{what}: num_edges {} instead of {}; {}", g.num_edges(), m.m(), m.show());
    let r = read_graph(g).map_err(|e| format!("{what}: {e}; expected {}", m.show()))?;
    ensure!(r == *m, "{what}: presents {} instead of {}", r.show(), m.show());
    for v in m.verts() {
        ensure!(g.contains(&v), "{what}: contains({v}) is false; {}", m.show());
        let d = g.degree(&v);
        ensure!(d == m.degree(v), "{what}: degree({v}) = {d} instead of {}; {}", m.degree(v), m.show());
    }
    let degs = vmap(&g.degrees());
    ensure!(degs.len() == m.n() && degs.iter().all(|(v, d)| m.has_v(*v) && *d == m.degree(*v)), "{what}: degrees() = {}; {}", show(&degs), m.show());
    let mut seen = 0;
    for (u, v) in m.edges() {
        ensure!(g.adjacent(&u, &v) && g.adjacent(&v, &u), "{what}: edge {u}-{v} is reported as not adjacent; {}", m.show());
        seen += 1;
        if seen > 400 {
            break;
        }
    }
    let vs = m.verts();
    if vs.len() <= 14 {
        for &u in &vs {
            for &v in &vs {
                ensure!(g.adjacent(&u, &v) == m.has_e(u, v), "{what}: adjacent({u},{v}) is {} ; {}", !m.has_e(u, v), m.show());
            }
        }
    } else {
        for _ in 0..30 {
            let (u, v) = (*crate::rt::pick(&vs), *crate::rt::pick(&vs));
            ensure!(g.adjacent(&u, &v) == m.has_e(u, v), "{what}: adjacent({u},{v}) is {}; {}", !m.has_e(u, v), m.show());
        }
    }
    // a vertex that is not there
    let mut x = crate::rt::draw(50) as V;
    while m.has_v(x) {
        x += 1;
    }
    ensure!(!g.contains(&x) && g.degree(&x) == 0, "{what}: absent vertex {x} is reported present; {}", m.show());
    for v in vs.iter().take(6) {
        ensure!(!g.adjacent(&x, v) && !g.adjacent(v, &x), "{what}: absent vertex {x} is reported adjacent to {v}; {}", m.show());
    }
    Ok(())
}

pub fn closed(m: &RG, s: &Set) -> Set {
    let mut r = s.clone();
    for v in s {
        r.extend(m.adj[v].iter());
    }
    r
}

/// Neighbourhood queries against the model.
pub fn check_neighbourhoods<G: Graph>(what: &str, g: &G, m: &RG, s: &Set, r: usize) -> Res {
    let c = closed(m, s);
    let open: Set = c.difference(s).copied().collect();
    let got = vset(&g.neighbourhood(s.iter()));
    ensure!(got == open, "{what}: neighbourhood of {} is {} instead of {}; {}", show(s), show(&got), show(&open), m.show());
    let got = vset(&g.closed_neighbourhood(s.iter().copied()));
    ensure!(got == c, "{what}: closed neighbourhood of {} is {} instead of {}; {}", show(s), show(&got), show(&c), m.show());
    let from: Vec<V> = s.iter().copied().collect();
    let ball: Set = m.bfs(&from, |_| true).into_iter().filter(|(_, d)| *d as usize <= r).map(|(v, _)| v).collect();
    let got = vset(&g.r_neighbourhood(s.iter(), r));
    ensure!(got == ball, "{what}: {r}-neighbourhood of {} is {} instead of {}; {}", show(s), show(&got), show(&ball), m.show());
    if let Some(v) = s.iter().next() {
        let ball: Set = m.bfs(&[*v], |_| true).into_iter().filter(|(_, d)| *d as usize <= r).map(|(v, _)| v).collect();
        let got = vset(&g.r_neighbours(v, r));
        ensure!(got == ball, "{what}: {r}-neighbours of {v} are {} instead of {}; {}", show(&got), show(&ball), m.show());
    }
    Ok(())
}
