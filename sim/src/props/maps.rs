//! C26: subgraph comparison, vertex maps and colourings, vertex-or-edge objects.

use crate::gen::*;
use crate::oracle::*;
use crate::rt::{self, chance, draw, one_in, pick, range, weighted, Rng};
use crate::sched::{self, no_panic, op_boundary, SimMutex};
use crate::Prop;
use graphbench::compare::*;
use graphbench::degengraph::DegenGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet};

fn ok(r: Res) {
    rt::check(r, "wrong-answer")
}

type M = BTreeMap<V, u32>;

struct Slot {
    c: VertexColouring<u32>,
    m: M,
}

// ---- subgraph comparison ----------------------------------------------------------------------

/// A graph near `m`: part of it, an extension, something that only looks similar, or the same.
fn near(m: &RG) -> RG {
    let mut d = m.clone();
    let vs = m.verts();
    for _ in 0..weighted(&[3, 6, 2, 1]) {
        let e = d.edges();
        match draw(6) {
            0 if !e.is_empty() => {
                let (u, v) = *pick(&e);
                d.rem_e(u, v);
            }
            1 if vs.len() > 1 => {
                let (u, v) = (*pick(&vs), *pick(&vs));
                if u != v && d.has_v(u) && d.has_v(v) {
                    d.add_e(u, v);
                }
            }
            2 if !vs.is_empty() => {
                // losing an isolated vertex changes no edge
                let iso: Vec<V> = d.verts().into_iter().filter(|v| d.adj[v].is_empty()).collect();
                let v = if !iso.is_empty() && chance(1, 2) { *pick(&iso) } else { *pick(&vs) };
                d.rem_v(v);
            }
            3 => {
                let mut x = draw(40) as V;
                while d.has_v(x) {
                    x += 1;
                }
                d.add_v(x);
                if !vs.is_empty() && chance(1, 2) {
                    let v = *pick(&vs);
                    if v != x && d.has_v(v) {
                        d.add_e(x, v);
                    }
                }
            }
            4 => {
                let s = subset(&d, 1000);
                d = d.induced(&s);
            }
            _ => d = sibling(&d),
        }
    }
    d.obs();
    d
}

fn relation(a: &RG, b: &RG) -> SubgraphRel {
    let inside = |a: &RG, b: &RG| a.adj.iter().all(|(v, n)| b.adj.get(v).map_or(false, |x| n.is_subset(x)));
    match (inside(a, b), inside(b, a)) {
        (true, true) => SubgraphRel::Eq,
        (true, false) => SubgraphRel::Sub,
        (false, true) => SubgraphRel::Sup,
        _ => SubgraphRel::Incomp,
    }
}

fn compare(a: &RG, b: &RG) {
    // one object with itself
    let same = chance(1, 16);
    let b = if same { a } else { b };
    let want = relation(a, b);
    let got = match draw(4) {
        0 => {
            let (x, y) = (edit_graph(a), edit_graph(b));
            attempt("compare_subgraph", || x.compare_subgraph(if same { &x } else { &y }))
        }
        1 => {
            let (x, y) = (SimGraph::new(a), SimGraph::new(b));
            attempt("compare_subgraph", || x.compare_subgraph(if same { &x } else { &y }))
        }
        2 => {
            let (x, y) = no_panic("with_ordering", || (OrdGraph::with_ordering(&SimGraph::new(a), order(a).iter()), OrdGraph::with_ordering(&SimGraph::new(b), order(b).iter())));
            attempt("compare_subgraph", || x.compare_subgraph(if same { &x } else { &y }))
        }
        _ => {
            let (x, y) = no_panic("with_ordering", || (DegenGraph::with_ordering(&SimGraph::new(a), order(a).iter()), DegenGraph::with_ordering(&SimGraph::new(b), order(b).iter())));
            attempt("compare_subgraph", || x.compare_subgraph(if same { &x } else { &y }))
        }
    };
    rt::count(match want {
        SubgraphRel::Eq => "outcome.equal",
        SubgraphRel::Sub => "outcome.sub",
        SubgraphRel::Sup => "outcome.super",
        SubgraphRel::Incomp => "outcome.incomparable",
    });
    ok(if got == want { Ok(()) } else { Err(format!("comparison is {got:?} instead of {want:?}: {} with {}", a.show(), b.show())) });
}

// ---- vertex-or-edge objects -------------------------------------------------------------------

fn ends(x: VertexOrEdge) -> Set {
    match x {
        VertexOrEdge::V(v) => [v].into_iter().collect(),
        VertexOrEdge::E((u, v)) => [u, v].into_iter().collect(),
    }
}
fn showx(x: &VertexOrEdge) -> String {
    match x {
        VertexOrEdge::V(v) => format!("vertex {v}"),
        VertexOrEdge::E(e) => format!("edge {e:?}"),
    }
}

fn mixed(m: &RG) {
    let g = AnyGraph::new(m);
    let all: MixedSet = attempt("vertices_and_edges", || any!(&g, x => x.vertices_and_edges().collect()));
    let mut l: Vec<VertexOrEdge> = all.into_iter().collect();
    if l.len() != m.n() + m.m() {
        ok(Err(format!("{} vertices and edges instead of {}; {}", l.len(), m.n() + m.m(), m.show())));
    }
    if l.is_empty() {
        return;
    }
    if l.len() > 16 {
        l = (0..16).map(|_| *pick(&l)).collect();
    }
    for x in &l {
        let (v, e) = match x {
            VertexOrEdge::V(v) => (Some(*v), None),
            VertexOrEdge::E(e) => (None, Some(*e)),
        };
        let good = x.as_vertex() == v && x.as_edge() == e && x.is_vertex() == v.is_some() && x.is_edge() == e.is_some();
        ok(if good { Ok(()) } else { Err(format!("{} is taken for something else", showx(x))) });
    }
    // either orientation names the same edge
    let turned = |y: &VertexOrEdge| match y {
        VertexOrEdge::E((u, v)) if chance(1, 3) => VertexOrEdge::E((*v, *u)),
        y => *y,
    };
    let l: Vec<_> = l.iter().map(turned).collect();
    for x in &l {
        for y in &l {
            let y = turned(y);
            let want: Set = ends(*x).intersection(&ends(y)).copied().collect();
            let got = x.intersection(y);
            let good = match got {
                None => want.is_empty(),
                Some(z) => ends(z) == want && z.is_edge() == (want.len() == 2),
            };
            if !good || x.intersects(y) == want.is_empty() {
                ok(Err(format!("intersection of {} and {} is {} ({})", showx(x), showx(&y), got.map_or("nothing".into(), |z| showx(&z)), x.intersects(y))));
            }
        }
    }
    rt::checked();
}

// ---- maps and colourings ----------------------------------------------------------------------

fn groups<T: Ord + Copy>(m: &BTreeMap<V, T>) -> BTreeMap<T, Set> {
    let mut r: BTreeMap<T, Set> = BTreeMap::new();
    m.iter().for_each(|(v, c)| drop(r.entry(*c).or_default().insert(*v)));
    r
}

fn check_groups<T: Ord + Copy + std::hash::Hash + std::fmt::Debug>(what: &str, m: &BTreeMap<V, T>, got: &impl VertexMapOperations<T>) -> Res {
    let want = groups(m);
    let inv: BTreeMap<T, Set> = no_panic("invert", || got.invert()).into_iter().map(|(c, s)| (c, vset(&s))).collect();
    if inv != want {
        return Err(format!("{what}: invert gives {} instead of {}", show(&inv), show(&want)));
    }
    let most = want.values().map(|s| s.len()).max();
    match (no_panic("majority_set", || got.majority_set()), most) {
        (None, None) => Ok(()),
        (Some((s, c)), Some(k)) if s.len() == k && want.get(&c) == Some(&vset(&s)) => Ok(()),
        (g, _) => Err(format!("{what}: majority_set gives {} for {}", show(&g.map(|(s, c)| (vset(&s), c))), show(&want))),
    }
}

fn check_colouring(what: &str, c: &VertexColouring<u32>, m: &M, pool: &[V]) -> Res {
    let sh = |t: String| -> Res { Err(format!("{what}: {t}; expected {}", show(m))) };
    if c.len() != m.len() {
        return sh(format!("len {}", c.len()));
    }
    let all: Vec<(V, u32)> = c.iter().map(|(v, x)| (*v, *x)).collect();
    if all.len() != m.len() || all.iter().copied().collect::<M>() != *m {
        return sh(format!("iter {}", show(&all)));
    }
    let vs: Vec<V> = c.vertices().copied().collect();
    if vs.len() != m.len() || vs.iter().copied().collect::<Set>() != m.keys().copied().collect() {
        return sh(format!("vertices {}", show(&vs)));
    }
    let cs: Vec<u32> = c.colours().copied().collect();
    let used: BTreeSet<u32> = m.values().copied().collect();
    if cs.len() != used.len() || cs.iter().copied().collect::<BTreeSet<_>>() != used {
        return sh(format!("colours {}", show(&cs)));
    }
    for v in pool.iter() {
        if c.get(v) != m.get(v) || c.contains(v) != m.contains_key(v) {
            return sh(format!("get({v}) {:?} contains {}", c.get(v), c.contains(v)));
        }
        if let Some(x) = m.get(v) {
            if c[v] != *x {
                return sh(format!("[{v}] {}", c[v]));
            }
        }
    }
    check_groups(what, m, c)
}

/// The colours of a run: from zero on, or down from the largest.
#[derive(Clone, Copy)]
struct Palette(u64, bool);
impl Palette {
    fn shade(self, x: u64) -> u32 {
        if self.1 {
            u32::MAX - x as u32
        } else {
            x as u32
        }
    }
    fn draw(self) -> u32 {
        self.shade(draw(self.0))
    }
}
fn few(n: u64) -> Palette {
    Palette(n, false)
}

fn pairs(pool: &[V], colours: Palette, max: u64) -> Vec<(V, u32)> {
    (0..draw(max + 1)).map(|_| (*pick(pool), colours.draw())).collect()
}

/// Assigns colours to most of a large pool.
fn bulk(pool: &[V], colours: Palette) -> M {
    let mut r = Rng(rt::sub_seed());
    let c = *pick(&[2u64, 3, colours.0, 1 << 20]);
    let skip = r.below(6);
    pool.iter().filter_map(|v| (skip == 0 || r.below(12) >= skip).then(|| (*v, colours.shade(r.below(c))))).collect()
}

fn rebuild(m: &M) -> VertexColouring<u32> {
    let l: Vec<(V, u32)> = shuffled(&m.iter().map(|(v, c)| (*v, *c)).collect::<Vec<_>>(), rt::sub_seed());
    match draw(3) {
        0 => VertexColouring::from_iter(items(l)),
        1 => VertexColouring::from(l.into_iter().collect::<VertexMap<u32>>()),
        _ => {
            let mut c = VertexColouring::default();
            l.into_iter().for_each(|(v, x)| drop(c.insert(v, x)));
            c
        }
    }
}

/// Merging with colours of type T.
fn typed<T: Ord + Copy + std::hash::Hash + std::fmt::Debug + num::Integer>(a: &[(V, u64)], b: &[(V, u64)], f: impl Fn(u64) -> T) {
    let m = |l: &[(V, u64)]| -> BTreeMap<V, T> { l.iter().map(|(v, c)| (*v, f(*c))).collect() };
    let (a, b) = (m(a), m(b));
    let mut c = VertexColouring::from_iter(items(a.iter().map(|(v, c)| (*v, *c)).collect()));
    let d = VertexColouring::from_iter(items(b.iter().map(|(v, c)| (*v, *c)).collect()));
    no_panic("disjoint_extend", || c.disjoint_extend(&d));
    let got: BTreeMap<V, T> = c.iter().map(|(v, c)| (*v, *c)).collect();
    let old: BTreeSet<T> = a.values().copied().collect();
    let part = |m: &BTreeMap<V, T>| -> BTreeMap<V, T> { m.iter().filter(|(v, _)| !a.contains_key(v)).map(|(v, c)| (*v, *c)).collect() };
    let (fresh, expected) = (part(&got), part(&b));
    let classes = |m: &BTreeMap<V, T>| -> BTreeSet<Set> { groups(m).into_values().collect() };
    let good = a.iter().all(|(v, c)| got.get(v) == Some(c)) && fresh.values().all(|c| !old.contains(c)) && classes(&fresh) == classes(&expected);
    ok(if good { Ok(()) } else { Err(format!("disjoint_extend: {} with {} gives {}", show(&a), show(&b), show(&got))) });
    ok(check_groups("merged colouring", &got, &c));
    rt::checked();
}

fn colour_op(s: &mut Slot, other: &M, pool: &[V], colours: Palette) {
    let before = s.m.clone();
    match weighted(&[6, 3, 4, 2, 2, 2, 2, 2, 1]) {
        0 => {
            let (v, x) = (*pick(pool), colours.draw());
            ev!("insert {v} {x}");
            let got = no_panic("insert", || s.c.insert(v, x));
            let want = s.m.insert(v, x);
            ok(if got == want { Ok(()) } else { Err(format!("insert({v},{x}) returned {got:?} instead of {want:?}; {}", show(&before))) });
        }
        1 => {
            let mut l: Vec<V> = (0..draw(pool.len() as u64 + 1)).map(|_| *pick(pool)).collect();
            if chance(1, 4) {
                l.clear();
            }
            ev!("subset {l:?}");
            let got = attempt("subset", || s.c.subset(items(l.clone())));
            let want: M = s.m.iter().filter(|(v, _)| l.contains(v)).map(|(v, c)| (*v, *c)).collect();
            ok(check_colouring(&format!("subset({l:?}) of {}", show(&before)), &got, &want, pool));
            if chance(1, 3) {
                *s = Slot { c: got, m: want };
            }
        }
        2 => {
            ev!("disjoint_extend {}", show(other));
            let o = rebuild(other);
            no_panic("disjoint_extend", || s.c.disjoint_extend(&o));
            let got: M = s.c.iter().map(|(v, c)| (*v, *c)).collect();
            let old: BTreeSet<u32> = before.values().copied().collect();
            let fresh: M = got.iter().filter(|(v, _)| !before.contains_key(v)).map(|(v, c)| (*v, *c)).collect();
            let expected: M = other.iter().filter(|(v, _)| !before.contains_key(v)).map(|(v, c)| (*v, *c)).collect();
            let bad = |t: &str| ok(Err(format!("disjoint_extend: {t}: {} with {} gives {}", show(&before), show(other), show(&got))));
            if before.iter().any(|(v, c)| got.get(v) != Some(c)) {
                bad("a colour changed");
            }
            if fresh.len() != expected.len() || fresh.keys().ne(expected.keys()) {
                bad("wrong vertices");
            }
            if fresh.values().any(|c| old.contains(c)) {
                bad("a colour is used by both");
            }
            let classes: BTreeSet<Set> = groups(&fresh).into_values().collect();
            if classes != groups(&expected).into_values().collect() {
                bad("classes changed");
            }
            s.m = got;
            ok(check_colouring("other after disjoint_extend", &o, other, pool));
        }
        3 => {
            let l = pairs(pool, colours, 12);
            ev!("from_iter {l:?}");
            let c = attempt("from_iter", || VertexColouring::from_iter(items(l.clone())));
            *s = Slot { c, m: l.into_iter().collect() };
        }
        4 => {
            // disjoint classes, some of them empty
            let vast = pool.len() > 60;
            let k = if vast { *pick(&[6u64, 2, 300, 600]) } else { 6 };
            let l: M = if vast { bulk(pool, few(k)).into_iter().map(|(v, c)| (v, c % k as u32)).collect() } else { pairs(pool, few(k), 14).into_iter().collect() };
            let sets: Vec<Set> = (0..k as u32).map(|i| l.iter().filter(|(_, c)| **c == i).map(|(v, _)| *v).collect()).collect();
            ev!("from_sets {}", show(&sets));
            let c = attempt("from_sets", || <VertexColouring<u32> as IntegerColouring<u32>>::from_sets(items(sets.iter().map(to_vset).collect())));
            *s = Slot { c, m: l };
        }
        5 => {
            ev!("comparison");
            let same = rebuild(&s.m);
            let mut d = s.m.clone();
            match draw(3) {
                0 if !d.is_empty() => {
                    let k: Vec<V> = d.keys().copied().collect();
                    d.insert(*pick(&k), colours.draw());
                }
                1 if !d.is_empty() => {
                    let k: Vec<V> = d.keys().copied().collect();
                    d.remove(pick(&k));
                }
                _ => {
                    d.insert(*pick(pool), colours.draw());
                }
            }
            let h = rebuild(&d);
            let good = no_panic("==", || s.c == same && same == s.c && (s.c == h) == (s.m == d) && (h == s.c) == (s.m == d));
            ok(if good { Ok(()) } else { Err(format!("comparison of {} with {} is wrong", show(&s.m), show(&d))) });
        }
        6 => {
            // maps with other values
            let l = if pool.len() > 60 { bulk(pool, few(6)).into_iter().map(|(v, c)| (v, c % 6)).collect() } else { pairs(pool, few(6), 14) };
            let m: BTreeMap<V, (bool, u8)> = l.into_iter().map(|(v, c)| (v, (c % 2 == 0, c as u8 / 2))).collect();
            let g: VertexMap<(bool, u8)> = shuffled(&m.iter().map(|(v, c)| (*v, *c)).collect::<Vec<_>>(), rt::sub_seed()).into_iter().collect();
            ok(check_groups("vertex map", &m, &g));
        }
        7 => {
            // colours of other integer types
            let l = |k: u64| -> Vec<(V, u64)> { (0..draw(k)).map(|_| (*pick(pool), draw(12))).collect() };
            let (a, b) = (l(10), l(14));
            ev!("signed or narrow colours {a:?} {b:?}");
            match draw(4) {
                0 => typed(&a, &b, |x| x as i32 - 6),
                1 => typed(&a, &b, |x| (x as i8).wrapping_mul(23)),
                2 => typed(&a, &b, |x| (x as u8).wrapping_mul(23)),
                _ => typed(&a, &b, |x| if x < 6 { i64::MAX - x as i64 } else { i64::MIN + x as i64 }),
            }
        }
        _ => {
            ev!("as_map");
            let c = std::mem::take(&mut s.c);
            let map = no_panic("as_map", || c.as_map());
            ok(if vmap(&map) == s.m { Ok(()) } else { Err(format!("as_map gives {} instead of {}", show(&vmap(&map)), show(&s.m))) });
            s.c = VertexColouring::from(map);
        }
    }
}

fn c26() {
    setup();
    let g = graph(Opts { huge_ids: true, giant: GIANT, ..Opts::sizes(9, 25, 90, 3) });
    let pool: Vec<V> = {
        let n = if one_in(150) {
            rt::count("gen.vast");
            range(300, 700)
        } else {
            range(2, *pick(&[8u64, 20, 60]))
        };
        let base = *pick(&[0u32, 7, 1 << 20, V::MAX - 700]);
        (0..n as V).map(|i| base + i).collect()
    };
    let colours = Palette(*pick(&[4u64, 2, 12, 1 << 16]), chance(1, 6));
    let k = range(1, 2) as usize;
    let slots: Vec<SimMutex<Slot>> = (0..k)
        .map(|_| {
            let m: M = if pool.len() > 60 { bulk(&pool, colours) } else { pairs(&pool, colours, 10).into_iter().collect() };
            SimMutex::new(Slot { c: rebuild(&m), m })
        })
        .collect();
    let ops = *pick(&[4u64, 2, 10, 25]);
    let clients = range(1, 3);
    {
        let (g, slots, pool) = (&g, &slots, &pool);
        sched::run_threads(
            (0..clients)
                .map(|_| {
                    Box::new(move || {
                        history(clients == 1 && pool.len() <= 60 && g.n() <= 30, ops, 2, || {
                            match weighted(&[8, 3, 1]) {
                                0 => {
                                    let (i, j) = (draw(k as u64) as usize, draw(k as u64) as usize);
                                    let o = slots[j].with(|s| s.m.clone());
                                    slots[i].with(|s| {
                                        colour_op(s, &o, pool, colours);
                                        ok(check_colouring("colouring", &s.c, &s.m, pool));
                                        let mut h = 5;
                                        s.m.iter().for_each(|(v, c)| h = rt::mix(h, (*v as u64) << 32 | *c as u64));
                                        rt::obs(h);
                                    });
                                }
                                1 => {
                                    let h = near(g);
                                    if g.n() < 100 && chance(1, 12) {
                                        let (x, y) = twins(|v| g.has_v(v));
                                        let (mut a, mut b) = (g.clone(), h);
                                        x.iter().for_each(|(u, v)| drop(a.add_e(*u, *v)));
                                        y.iter().for_each(|(u, v)| drop(b.add_e(*u, *v)));
                                        compare(&a, &b)
                                    } else if chance(1, 2) {
                                        compare(g, &h)
                                    } else {
                                        compare(&h, g)
                                    }
                                }
                                _ => mixed(g),
                            }
                        })
                    }) as Task
                })
                .collect(),
        );
    }
    for s in slots {
        let s = s.into_inner();
        ok(check_colouring("final colouring", &s.c, &s.m, &pool));
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C26", run: c26, quick: 40000, thorough: 400000,
        real: "compare_subgraph over EditGraph, OrdGraph, DegenGraph; VertexColouring, VertexMapOperations, IntegerColouring, VertexOrEdge with every method; stub: graphs and sequences of the caller (trait seam) when they present themselves in a drawn order or fail",
        rule: "histories of insert, subset, merge, build, compare and group operations on 1-2 colourings over 2-60 vertices by 1-3 clients, interleaved with comparisons of a drawn graph (up to 90 vertices) with graphs a few edits away, in every representation, and with intersections of its vertices and edges; every answer against an abstract map or graph. Non-trivial: a hash seed, order, switch or cancellation took effect and an answer was compared." }]
}
