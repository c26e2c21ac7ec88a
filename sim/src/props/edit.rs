//! C07-C10: edit histories against abstract graphs.

use crate::gen::*;
use crate::oracle::*;
use crate::rt::{self, chance, draw, one_in, pick, range, weighted};
use crate::sched::{self, catch, no_panic, op_boundary, run_threads, Outcome, SimMutex};
use crate::Prop;
use graphbench::degengraph::DegenGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::BTreeMap;

type Task<'a> = Box<dyn FnOnce() + 'a>;

fn verify(r: Res, class: &str) {
    rt::check(r, class)
}

/// Ids the history of this run uses.
fn id_pool() -> Vec<V> {
    let n = match weighted(&[120, 60, 19, 1]) {
        0 => range(2, 7),
        1 => range(8, 20),
        2 => range(21, 90),
        _ => range(91, 600),
    };
    let base: V = match draw(4) {
        0 | 1 => 0,
        2 => draw(1 << 20) as V,
        _ => V::MAX - n as V + 1,
    };
    let stride: V = if base < 1 << 24 { *pick(&[1u32, 3, 8, 1024, 4096]) } else { 1 };
    (0..n as V).map(|i| base + i * stride).collect()
}

fn some_id(pool: &[V]) -> V {
    *pick(pool)
}
fn some_vertex(m: &RG, pool: &[V]) -> V {
    let vs = m.verts();
    if !vs.is_empty() && chance(3, 4) {
        *pick(&vs)
    } else {
        some_id(pool)
    }
}
fn some_edge(m: &RG, pool: &[V]) -> (V, V) {
    let e = m.edges();
    if !e.is_empty() && chance(1, 2) {
        let (u, v) = *pick(&e);
        if chance(1, 2) {
            (v, u)
        } else {
            (u, v)
        }
    } else if chance(1, 10) {
        let u = some_id(pool);
        (u, u)
    } else {
        (some_id(pool), some_id(pool))
    }
}
/// Length of a bulk operation's argument: usually up to `max`, rarely in the hundreds.
fn length(max: u64) -> u64 {
    if chance(1, 80) {
        rt::count("gen.long_list");
        max + draw(*pick(&[70u64, 150, 300, 700]))
    } else {
        draw(max + 1)
    }
}
fn id_list(pool: &[V], max: u64) -> Vec<V> {
    (0..length(max)).map(|_| some_id(pool)).collect()
}
fn edge_list(m: &RG, pool: &[V], max: u64) -> Vec<(V, V)> {
    (0..length(max)).map(|_| some_edge(m, pool)).collect()
}
/// A list of vertices of the graph, repetitions possible.
fn vertex_list(m: &RG, max: u64) -> Vec<V> {
    let vs = m.verts();
    if vs.is_empty() {
        return vec![];
    }
    (0..length(max)).map(|_| *pick(&vs)).collect()
}

struct Slot {
    g: EditGraph,
    m: RG,
}
impl Slot {
    fn new(pool: &[V]) -> Slot {
        let mut m = RG::new();
        for (u, v) in edge_list(&m, pool, 12) {
            m.add_e(u, v);
        }
        Slot { g: edit_graph(&m), m }
    }
}

fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T, m: &RG) {
    rt::checked();
    if got != want {
        rt::fail("wrong-answer", format!("{what} returned {got:?} instead of {want:?}; state before: {}", m.show()));
    }
}

/// One edit on the real graph and the model, return values compared.
fn edit(s: &mut Slot, pool: &[V]) {
    let before = s.m.clone();
    match weighted(&[4, 8, 5, 3, 3, 4, 1, 1]) {
        0 => {
            let u = some_id(pool);
            ev!("add_vertex {u}");
            let r = no_panic("add_vertex", || s.g.add_vertex(&u));
            expect(&format!("add_vertex({u})"), r, s.m.add_v(u), &before);
        }
        1 => {
            let (u, v) = some_edge(&s.m, pool);
            ev!("add_edge {u} {v}");
            let r = no_panic("add_edge", || s.g.add_edge(&u, &v));
            expect(&format!("add_edge({u},{v})"), r, s.m.add_e(u, v), &before);
        }
        2 => {
            let (u, v) = some_edge(&s.m, pool);
            ev!("remove_edge {u} {v}");
            let r = no_panic("remove_edge", || s.g.remove_edge(&u, &v));
            expect(&format!("remove_edge({u},{v})"), r, s.m.rem_e(u, v), &before);
        }
        3 => {
            let u = some_vertex(&s.m, pool);
            ev!("remove_vertex {u}");
            let r = no_panic("remove_vertex", || s.g.remove_vertex(&u));
            expect(&format!("remove_vertex({u})"), r, s.m.rem_v(u), &before);
        }
        4 => {
            let l = id_list(pool, 8);
            ev!("add_vertices {l:?}");
            let want = l.iter().filter(|v| s.m.add_v(**v)).count() as u32;
            let r = no_panic("add_vertices", || if l.len() % 2 == 0 { s.g.add_vertices(l.iter()) } else { s.g.add_vertices(items(l.clone())) });
            expect(&format!("add_vertices({l:?})"), r, want, &before);
        }
        5 => {
            let l = edge_list(&s.m, pool, 12);
            ev!("add_edges {l:?}");
            let want = l.iter().filter(|(u, v)| s.m.add_e(*u, *v)).count() as u32;
            let r = no_panic("add_edges", || if l.len() % 2 == 0 { s.g.add_edges(l.iter()) } else { s.g.add_edges(items(l.clone())) });
            expect(&format!("add_edges({l:?})"), r, want, &before);
        }
        6 => {
            ev!("remove_loops");
            let l: Vec<V> = s.m.verts().into_iter().filter(|v| s.m.has_e(*v, *v)).collect();
            for v in &l {
                s.m.rem_e(*v, *v);
            }
            let r = no_panic("remove_loops", || s.g.remove_loops());
            expect("remove_loops()", r, l.len(), &before);
        }
        _ => {
            ev!("remove_isolates");
            let l: Vec<V> = s.m.verts().into_iter().filter(|v| s.m.degree(*v) == 0).collect();
            for v in &l {
                s.m.rem_v(*v);
            }
            let r = no_panic("remove_isolates", || s.g.remove_isolates());
            expect("remove_isolates()", r, l.len(), &before);
        }
    }
}

/// Usually none; a few in a thousand runs work on more than 256 or more than 65536 vertices.
fn big(loops: bool) -> Option<Opts> {
    let o = Opts { loops, huge_ids: true, ..Opts::small(1) };
    if one_in(200) {
        Some(Opts { vast: 1, ..o })
    } else if one_in(GIANT) {
        Some(Opts { giant: 1, ..o })
    } else {
        None
    }
}

/// Most of the vertices.
fn many(m: &RG) -> Vec<V> {
    let vs = m.verts();
    let k = if chance(1, 2) { vs.len() } else { vs.len() - draw(vs.len() as u64 / 2 + 1) as usize };
    shuffled(&vs, rt::sub_seed()).into_iter().take(k).collect()
}

fn absent_id(has: impl Fn(V) -> bool) -> V {
    let mut x = draw(5) as V;
    while has(x) {
        x += 1;
    }
    x
}

/// Bulk edits around vertices of very large degree.
fn c07_big(o: Opts) {
    let m = graph(o);
    ev!("{}", m.show());
    let pool: Vec<V> = m.verts().into_iter().take(500).chain([absent_id(|v| m.has_v(v))]).collect();
    let mut s = Slot { g: edit_graph(&m), m };
    for _ in 0..range(2, 5) {
        let before = s.m.clone();
        match weighted(&[5, 2, 2, 3, 2, 2, 2]) {
            0 => {
                let x = if chance(1, 2) { absent_id(|v| s.m.has_v(v)) } else { some_vertex(&s.m, &pool) };
                let r = rt::sub_seed();
                let l: Vec<(V, V)> = many(&s.m).into_iter().map(|v| if rt::mix(r, v as u64) % 2 == 0 { (x, v) } else { (v, x) }).collect();
                ev!("add_edges: {x} to {} vertices", l.len());
                let want = l.iter().filter(|(u, v)| s.m.add_e(*u, *v)).count() as u32;
                let r = no_panic("add_edges", || if r % 2 == 0 { s.g.add_edges(l.iter()) } else { s.g.add_edges(items(l.clone())) });
                expect(&format!("add_edges of {x} to {} vertices", l.len()), r, want, &before);
            }
            1 => {
                let l = many(&s.m);
                ev!("remove_vertex: {} vertices", l.len());
                for u in l {
                    let r = no_panic("remove_vertex", || s.g.remove_vertex(&u));
                    expect(&format!("remove_vertex({u})"), r, s.m.rem_v(u), &before);
                }
            }
            2 => {
                let e = shuffled(&s.m.edges(), rt::sub_seed());
                let k = draw(e.len() as u64 + 1) as usize;
                ev!("remove_edge: {k} edges");
                for (u, v) in &e[..k] {
                    let r = no_panic("remove_edge", || if u % 2 == 0 { s.g.remove_edge(u, v) } else { s.g.remove_edge(v, u) });
                    expect(&format!("remove_edge({u},{v})"), r, s.m.rem_e(*u, *v), &before);
                }
            }
            3 => edit(&mut s, &pool),
            4 => {
                // the vertex of largest degree
                let Some(u) = s.m.verts().into_iter().max_by_key(|u| s.m.degree(*u)) else { continue };
                ev!("remove_vertex {u}");
                let r = no_panic("remove_vertex", || s.g.remove_vertex(&u));
                expect(&format!("remove_vertex({u})"), r, s.m.rem_v(u), &before);
            }
            5 => check_eq(&s.g, &s.m, None),
            _ => {
                ev!("clone");
                let c = no_panic("clone", || s.g.clone());
                s.g = c;
            }
        }
    }
    sweep("large graph", &s.g, &s.m);
    check_eq(&s.g, &s.m, None);
}

/// The same for digraphs.
fn c08_big(o: Opts) {
    let g = graph(o);
    ev!("{}", g.show());
    let pool: Vec<V> = g.verts().into_iter().take(500).chain([absent_id(|v| g.has_v(v))]).collect();
    let m = RD::from_graph(&g, rt::sub_seed());
    let mut s = DSlot { g: edit_digraph(&m), m };
    for _ in 0..range(2, 5) {
        let before = s.m.clone();
        match weighted(&[5, 2, 2, 3, 2, 2, 1]) {
            0 => {
                let vs = s.m.verts();
                let x = if chance(1, 2) || vs.is_empty() { absent_id(|v| s.m.out.contains_key(&v)) } else { *pick(&vs) };
                let (r, way) = (rt::sub_seed(), draw(3));
                let l: Vec<(V, V)> = shuffled(&vs, r).into_iter().map(|v| if way == 0 || way == 2 && rt::mix(r, v as u64) % 2 == 0 { (x, v) } else { (v, x) }).collect();
                ev!("add_arcs: {x} and {} vertices, way {way}", l.len());
                let want = l.iter().filter(|(u, v)| s.m.add_a(*u, *v)).count() as u32;
                let r = no_panic("add_arcs", || if r % 2 == 0 { s.g.add_arcs(l.iter()) } else { s.g.add_arcs(items(l.clone())) });
                dexpect(&format!("add_arcs of {x} and {} vertices", l.len()), r, want, &before);
            }
            1 => {
                let vs = shuffled(&s.m.verts(), rt::sub_seed());
                let k = draw(vs.len().min(3000) as u64 + 1) as usize;
                ev!("remove_vertex: {k} vertices");
                for u in &vs[..k] {
                    let r = no_panic("remove_vertex", || s.g.remove_vertex(u));
                    let had = s.m.out.remove(u).is_some();
                    dexpect(&format!("remove_vertex({u})"), r, had, &before);
                }
                let gone: Set = vs[..k].iter().copied().collect();
                s.m.out.values_mut().for_each(|n| n.retain(|v| !gone.contains(v)));
            }
            2 => {
                let e = shuffled(&s.m.arcs(), rt::sub_seed());
                let k = draw(e.len() as u64 + 1) as usize;
                ev!("remove_arc: {k} arcs");
                for (u, v) in &e[..k] {
                    let r = no_panic("remove_arc", || s.g.remove_arc(u, v));
                    dexpect(&format!("remove_arc({u},{v})"), r, s.m.rem_a(*u, *v), &before);
                }
            }
            3 => dedit(&mut s, &pool),
            4 => {
                ev!("normalize");
                let (h, map) = no_panic("normalize", || s.g.normalize());
                let (want, back) = normalized_d(&s.m);
                verify(no_panic("normalize", || check_digraph("normalized large digraph", &h, &want)), "wrong-derived");
                let map: BTreeMap<V, V> = map.into_iter().collect();
                verify(if map == back { Ok(()) } else { Err("normalize of a large digraph: wrong map".into()) }, "wrong-derived");
            }
            5 => check_deq(&s),
            _ => {
                ev!("clone");
                let c = no_panic("clone", || s.g.clone());
                s.g = c;
            }
        }
    }
    s.m.obs();
    verify(no_panic("query", || check_digraph("large digraph", &s.g, &s.m)), "wrong-answer");
    check_deq(&s);
}

fn sweep(what: &str, g: &EditGraph, m: &RG) {
    m.obs();
    verify(no_panic(what, || check_graph(what, g, m)), "wrong-answer");
    let s = subset(m, 12);
    let r = if one_in(24) { range(4, 24) } else { draw(4) } as usize;
    verify(no_panic(what, || check_neighbourhoods(what, g, m, &s, r)), "wrong-answer");
}

/// Balls of large radius in a graph of large diameter.
fn far_balls() {
    let m = graph(Opts { vast: 1, ..Opts::sizes(300, 300, 300, 1) });
    let g = edit_graph(&m);
    let vs = m.verts();
    for _ in 0..range(1, 3) {
        let s: Set = (0..range(1, 3)).map(|_| *pick(&vs)).collect();
        let r = *pick(&[range(100, 345), range(250, 260), range(0, 3)]) as usize;
        verify(no_panic("neighbourhoods", || check_neighbourhoods("long graph", &g, &m, &s, r)), "wrong-answer");
    }
}

fn check_eq(g: &EditGraph, m: &RG, other: Option<(&EditGraph, &RG)>) {
    // the same graph reached by another history
    let same = edit_graph(m);
    rt::checked();
    if !no_panic("==", || *g == same && same == *g) {
        rt::fail("wrong-answer", format!("two graphs with equal content compare as different: {}", m.show()));
    }
    if chance(1, 8) {
        let (x, y) = twins(|v| m.has_v(v));
        let (mut a, mut b) = (m.clone(), m.clone());
        x.iter().for_each(|(u, v)| drop(a.add_e(*u, *v)));
        y.iter().for_each(|(u, v)| drop(b.add_e(*u, *v)));
        let (g, h) = (edit_graph(&a), edit_graph(&b));
        if no_panic("==", || g == h || h == g) {
            rt::fail("wrong-answer", format!("different graphs compare as equal: {} and {}", a.show(), b.show()));
        }
    }
    if chance(1, 8) && { let h: &EditGraph = g; no_panic("==", || *g != *h) } {
        rt::fail("wrong-answer", format!("a graph differs from itself: {}", m.show()));
    }
    // one step away
    let mut d = m.clone();
    let vs = m.verts();
    match draw(6) {
        4 if d.m() > 1 => {
            // exchange the ends of two edges: every degree stays
            let e = d.edges();
            for _ in 0..4 {
                let ((a, b), (x, y)) = (*pick(&e), *pick(&e));
                let (x, y) = if chance(1, 2) { (y, x) } else { (x, y) };
                if a != b && x != y && a != y && b != x && a != x && b != y && !d.has_e(a, y) && !d.has_e(x, b) {
                    d.rem_e(a, b);
                    d.rem_e(x, y);
                    d.add_e(a, y);
                    d.add_e(x, b);
                    break;
                }
            }
        }
        5 if vs.len() > 1 => {
            // exchange two vertices: an isomorphic graph
            let (a, b) = (*pick(&vs), *pick(&vs));
            let sw = |v: V| if v == a { b } else if v == b { a } else { v };
            let mut n = RG::new();
            vs.iter().for_each(|v| drop(n.add_v(*v)));
            d.edges().iter().for_each(|(u, v)| drop(n.add_e(sw(*u), sw(*v))));
            d = n;
        }
        0 if !vs.is_empty() => {
            let (u, v) = (*pick(&vs), *pick(&vs));
            if !d.rem_e(u, v) {
                d.add_e(u, v);
            }
        }
        1 if d.m() > 0 => {
            // move one edge
            let e = d.edges();
            let (u, v) = *pick(&e);
            let (x, y) = (*pick(&vs), *pick(&vs));
            d.rem_e(u, v);
            d.add_e(x, y);
        }
        2 if !vs.is_empty() => {
            d.rem_v(*pick(&vs));
        }
        _ => {
            let mut x = 1;
            while d.has_v(x) {
                x += 2;
            }
            d.add_v(x);
        }
    }
    if d != *m {
        let h = edit_graph(&d);
        if no_panic("==", || *g == h || h == *g) {
            rt::fail("wrong-answer", format!("different graphs compare as equal: {} and {}", m.show(), d.show()));
        }
    }
    if let Some((h, n)) = other {
        if no_panic("==", || *g == *h) != (m == n) {
            rt::fail("wrong-answer", format!("comparison of {} and {} is {}", m.show(), n.show(), m != n));
        }
    }
}

fn c07() {
    setup();
    if let Some(o) = big(true) {
        return c07_big(o);
    }
    if one_in(150) {
        return far_balls();
    }
    let pool = id_pool();
    let k = range(1, 3) as usize;
    let slots: Vec<SimMutex<Slot>> = (0..k).map(|_| SimMutex::new(Slot::new(&pool))).collect();
    let clients = range(1, 3) as usize;
    let ops = *pick(&[8u64, 2, 4, 20, 60]);
    {
        let (slots, pool) = (&slots, &pool);
        run_threads(
            (0..clients)
                .map(|_| {
                    Box::new(move || {
                        history(clients == 1, ops, 1, || {
                            let i = draw(k as u64) as usize;
                            match weighted(&[12, 3, 2, 3, 1, 1]) {
                                0 => slots[i].with(|s| edit(s, pool)),
                                1 => slots[i].with(|s| sweep("edited graph", &s.g, &s.m)),
                                2 => {
                                    // a copy, edited while the original lives on
                                    let mut c = slots[i].with(|s| {
                                        ev!("clone graph {i}");
                                        Slot { g: no_panic("clone", || s.g.clone()), m: s.m.clone() }
                                    });
                                    verify(no_panic("clone", || check_graph("copy", &c.g, &c.m)), "wrong-answer");
                                    for _ in 0..1 + draw(3) {
                                        op_boundary();
                                        edit(&mut c, pool);
                                    }
                                    slots[i].with(|s| verify(no_panic("original", || check_graph("original of an edited copy", &s.g, &s.m)), "wrong-answer"));
                                    verify(no_panic("copy", || check_graph("edited copy", &c.g, &c.m)), "wrong-answer");
                                    if chance(1, 2) {
                                        let j = draw(k as u64) as usize;
                                        slots[j].with(|s| *s = c);
                                    }
                                }
                                3 => slots[i].with(|s| check_eq(&s.g, &s.m, None)),
                                4 => {
                                    let c = slots[i].with(|s| Slot { g: no_panic("clone", || s.g.clone()), m: s.m.clone() });
                                    let j = draw(k as u64) as usize;
                                    slots[j].with(|s| check_eq(&s.g, &s.m, Some((&c.g, &c.m))));
                                }
                                _ => {
                                    let l = edge_list(&RG::new(), pool, if one_in(12) { 1500 } else { 15 });
                                    ev!("from_iter {}", show(&l));
                                    let g: EditGraph = no_panic("from_iter", || items(l.clone()).collect());
                                    let m = RG::from_edges(&l);
                                    verify(no_panic("from_iter", || check_graph("graph from a sequence", &g, &m)), "wrong-answer");
                                    slots[i].with(|s| *s = Slot { g, m });
                                }
                            }
                        })
                    }) as Task
                })
                .collect(),
        );
    }
    for s in slots {
        let s = s.into_inner();
        sweep("final graph", &s.g, &s.m);
        for _ in 0..1 + draw(3) {
            check_eq(&s.g, &s.m, None);
        }
    }
}

// ---- C08 --------------------------------------------------------------------------------------

struct DSlot {
    g: EditDigraph,
    m: RD,
}
fn some_arc(m: &RD, pool: &[V]) -> (V, V) {
    let e = m.arcs();
    if !e.is_empty() && chance(1, 2) {
        let (u, v) = *pick(&e);
        if chance(1, 3) {
            (v, u)
        } else {
            (u, v)
        }
    } else {
        (some_id(pool), some_id(pool))
    }
}
impl DSlot {
    fn new(pool: &[V]) -> DSlot {
        let mut m = RD::default();
        for _ in 0..length(14) {
            let (u, v) = some_arc(&m, pool);
            m.add_a(u, v);
        }
        DSlot { g: edit_digraph(&m), m }
    }
}

fn showd(m: &RD) -> String {
    format!("vertices {} arcs {}", show(&m.verts()), show(&m.arcs()))
}

fn sets_of<'a>(it: Box<dyn Iterator<Item = &'a Vertex> + 'a>) -> Result<Set, String> {
    let mut s = Set::new();
    for v in it {
        if !s.insert(*v) {
            return Err(format!("{v} listed twice"));
        }
    }
    Ok(s)
}

/// Every query of a digraph against the model.
pub fn check_digraph(what: &str, g: &EditDigraph, m: &RD) -> Res {
    let sh = || showd(m);
    let bad = |t: String| -> Res { Err(format!("{what}: {t}; expected {}", sh())) };
    let n = m.out.len();
    if g.num_vertices() != n || g.len() != n || g.is_empty() != (n == 0) {
        return bad(format!("num_vertices {} len {} is_empty {}", g.num_vertices(), g.len(), g.is_empty()));
    }
    if g.num_edges() != m.arcs().len() {
        return bad(format!("num_edges {}", g.num_edges()));
    }
    let vs = sets_of(Graph::vertices(g)).map_err(|e| format!("{what}: vertices: {e}"))?;
    if vs != m.verts().into_iter().collect() {
        return bad(format!("vertices {}", show(&vs)));
    }
    let mut arcs = Set2::new();
    for a in g.arcs() {
        if !arcs.insert(a) {
            return bad(format!("arc {a:?} listed twice"));
        }
    }
    if arcs != m.arcs().into_iter().collect() {
        return bad(format!("arcs {}", show(&arcs)));
    }
    let ind = g.in_degrees();
    let outd = g.out_degrees();
    let degs = Graph::degrees(g);
    if ind.len() != n || outd.len() != n || degs.len() != n {
        return bad("degree maps of the wrong size".into());
    }
    let inns = m.inns();
    for (u, out) in &m.out {
        let inn = &inns[u];
        if !g.contains(u) {
            return bad(format!("contains({u}) is false"));
        }
        if sets_of(g.out_neighbours(u)).map_err(|e| format!("{what}: out-neighbours of {u}: {e}"))? != *out {
            return bad(format!("out-neighbours of {u}"));
        }
        if sets_of(g.in_neighbours(u)).map_err(|e| format!("{what}: in-neighbours of {u}: {e}"))? != *inn {
            return bad(format!("in-neighbours of {u}"));
        }
        if g.out_degree(u) as usize != out.len() || g.in_degree(u) as usize != inn.len() {
            return bad(format!("degrees of {u}: in {} out {}", g.in_degree(u), g.out_degree(u)));
        }
        if outd.get(u).copied() != Some(out.len() as u32) || ind.get(u).copied() != Some(inn.len() as u32) {
            return bad(format!("degree maps at {u}: in {:?} out {:?}", ind.get(u), outd.get(u)));
        }
        let d = (out.len() + inn.len()) as u32;
        if g.degree(u) != d || degs.get(u).copied() != Some(d) {
            return bad(format!("degree of {u}: {} {:?}", g.degree(u), degs.get(u)));
        }
        let both: Set = out.union(inn).copied().collect();
        let a: Set = Graph::neighbours(g, u).copied().collect();
        let b: Set = Digraph::neighbours(g, u).copied().collect();
        if a != both || b != both {
            return bad(format!("neighbours of {u}: {} and {}", show(&a), show(&b)));
        }
    }
    let all = m.verts();
    let pairs: Vec<(V, V)> = if all.len() <= 12 {
        all.iter().flat_map(|u| all.iter().map(move |v| (*u, *v))).collect()
    } else {
        (0..60).map(|_| (*pick(&all), *pick(&all))).chain(m.arcs().into_iter().take(200)).collect()
    };
    for (u, v) in pairs {
        if g.has_arc(&u, &v) != m.has(u, v) {
            return bad(format!("has_arc({u},{v}) is {}", !m.has(u, v)));
        }
        let adj = m.has(u, v) || m.has(v, u);
        if g.adjacent(&u, &v) != adj || g.adjacent(&v, &u) != adj {
            return bad(format!("adjacent({u},{v}) is {} and adjacent({v},{u}) is {}", g.adjacent(&u, &v), g.adjacent(&v, &u)));
        }
    }
    let mut x = draw(50) as V;
    while m.out.contains_key(&x) {
        x += 1;
    }
    if g.contains(&x) || g.degree(&x) != 0 || all.iter().take(5).any(|v| g.has_arc(&x, v) || g.has_arc(v, &x) || g.adjacent(v, &x)) {
        return bad(format!("absent vertex {x} appears"));
    }
    // neighbourhoods of sets
    let mut s = Set::new();
    for _ in 0..draw(4) {
        if !all.is_empty() {
            s.insert(*pick(&all));
        }
    }
    let mut out = Set::new();
    let mut inn = Set::new();
    for v in &s {
        out.extend(m.out[v].iter());
        inn.extend(m.inn(*v));
    }
    let open = |x: &Set| -> Set { x.difference(&s).copied().collect() };
    let got = vset(&g.out_neighbourhood(s.iter()));
    if got != open(&out) {
        return bad(format!("out-neighbourhood of {} is {}", show(&s), show(&got)));
    }
    let got = vset(&g.in_neighbourhood(s.iter()));
    if got != open(&inn) {
        return bad(format!("in-neighbourhood of {} is {}", show(&s), show(&got)));
    }
    let both: Set = out.union(&inn).copied().collect();
    let got = vset(&g.neighbourhood(s.iter()));
    if got != open(&both) {
        return bad(format!("neighbourhood of {} is {}", show(&s), show(&got)));
    }
    let got = vset(&g.closed_neighbourhood(s.iter()));
    if got != both.union(&s).copied().collect() {
        return bad(format!("closed neighbourhood of {} is {}", show(&s), show(&got)));
    }
    Ok(())
}
type Set2 = std::collections::BTreeSet<(V, V)>;

fn dexpect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T, m: &RD) {
    rt::checked();
    if got != want {
        rt::fail("wrong-answer", format!("{what} returned {got:?} instead of {want:?}; state before: {}", showd(m)));
    }
}

fn dedit(s: &mut DSlot, pool: &[V]) {
    let before = s.m.clone();
    match weighted(&[3, 8, 5, 3, 2, 3, 1, 1]) {
        0 => {
            let u = some_id(pool);
            ev!("add_vertex {u}");
            let r = no_panic("add_vertex", || s.g.add_vertex(&u));
            dexpect(&format!("add_vertex({u})"), r, s.m.add_v(u), &before);
        }
        1 => {
            let (u, v) = some_arc(&s.m, pool);
            ev!("add_arc {u} {v}");
            let r = no_panic("add_arc", || s.g.add_arc(&u, &v));
            dexpect(&format!("add_arc({u},{v})"), r, s.m.add_a(u, v), &before);
        }
        2 => {
            let (u, v) = some_arc(&s.m, pool);
            ev!("remove_arc {u} {v}");
            let r = no_panic("remove_arc", || s.g.remove_arc(&u, &v));
            dexpect(&format!("remove_arc({u},{v})"), r, s.m.rem_a(u, v), &before);
        }
        3 => {
            let vs = s.m.verts();
            let u = if !vs.is_empty() && chance(3, 4) { *pick(&vs) } else { some_id(pool) };
            ev!("remove_vertex {u}");
            let r = no_panic("remove_vertex", || s.g.remove_vertex(&u));
            dexpect(&format!("remove_vertex({u})"), r, s.m.rem_v(u), &before);
        }
        4 => {
            let l = id_list(pool, 8);
            ev!("add_vertices {l:?}");
            let want = l.iter().filter(|v| s.m.add_v(**v)).count() as u32;
            let r = no_panic("add_vertices", || s.g.add_vertices(items(l.clone())));
            dexpect(&format!("add_vertices({l:?})"), r, want, &before);
        }
        5 => {
            let l: Vec<(V, V)> = (0..length(12)).map(|_| some_arc(&s.m, pool)).collect();
            ev!("add_arcs {l:?}");
            let want = l.iter().filter(|(u, v)| s.m.add_a(*u, *v)).count() as u32;
            let r = no_panic("add_arcs", || if l.len() % 2 == 0 { s.g.add_arcs(l.iter()) } else { s.g.add_arcs(items(l.clone())) });
            dexpect(&format!("add_arcs({l:?})"), r, want, &before);
        }
        6 => {
            ev!("remove_loops");
            let l: Vec<V> = s.m.verts().into_iter().filter(|v| s.m.has(*v, *v)).collect();
            for v in &l {
                s.m.rem_a(*v, *v);
            }
            let r = no_panic("remove_loops", || s.g.remove_loops());
            dexpect("remove_loops()", r, l.len(), &before);
        }
        _ => {
            ev!("remove_isolates");
            let inns = s.m.inns();
            let l: Vec<V> = s.m.verts().into_iter().filter(|v| s.m.out[v].is_empty() && inns[v].is_empty()).collect();
            for v in &l {
                s.m.rem_v(*v);
            }
            let r = no_panic("remove_isolates", || s.g.remove_isolates());
            dexpect("remove_isolates()", r, l.len(), &before);
        }
    }
}

fn normalized_d(m: &RD) -> (RD, BTreeMap<V, V>) {
    let id: BTreeMap<V, V> = m.verts().into_iter().enumerate().map(|(i, v)| (v, i as V)).collect();
    let mut r = RD::default();
    for v in m.verts() {
        r.add_v(id[&v]);
    }
    for (u, v) in m.arcs() {
        r.add_a(id[&u], id[&v]);
    }
    (r, id.into_iter().map(|(a, b)| (b, a)).collect())
}

/// First operand keeps its labels, the others follow behind, each in its own order.
fn check_union(what: &str, got_v: &[V], got_e: &Set2, parts: &[(Vec<V>, Vec<(V, V)>)], ordered: bool) -> Res {
    let total: usize = parts.iter().map(|p| p.0.len()).sum();
    let bad = |t: String| -> Res { Err(format!("{what}: {t}; result vertices {} edges {}; parts {}", show(&got_v), show(got_e), show(&parts))) };
    if got_v.len() != total {
        return bad(format!("{} vertices instead of {total}", got_v.len()));
    }
    let first: Set = parts[0].0.iter().copied().collect();
    let rest: Vec<V> = got_v.iter().copied().filter(|v| !first.contains(v)).collect();
    if rest.len() + first.len() != total {
        return bad("the first operand did not keep its labels".into());
    }
    // shifted labels would not fit: any unused labels will do
    let mut end = 0u64;
    let tight = parts.iter().any(|p| {
        end += p.0.iter().max().map_or(0, |x| *x as u64 + 1);
        end > 1 << 32
    });
    if tight && parts.len() > 2 {
        let inner: Vec<(V, V)> = got_e.iter().filter(|(u, v)| first.contains(u) && first.contains(v)).copied().collect();
        let m: usize = parts.iter().map(|p| p.1.len()).sum();
        let mut own = parts[0].1.clone();
        own.sort();
        return if got_e.len() != m || inner != own { bad("wrong edges".into()) } else { Ok(()) };
    }
    // later operands, in increasing order of labels: blocks
    let mut map: Vec<BTreeMap<V, V>> = vec![first.iter().map(|v| (*v, *v)).collect()];
    let mut at = 0;
    for p in &parts[1..] {
        let mut vs = p.0.clone();
        vs.sort();
        map.push(vs.iter().enumerate().map(|(i, v)| (*v, rest[at + i])).collect());
        at += vs.len();
    }
    let norm = |u: V, v: V| if ordered || u <= v { (u, v) } else { (v, u) };
    let mut want = Set2::new();
    for (p, m) in parts.iter().zip(&map) {
        for (u, v) in &p.1 {
            want.insert(norm(m[u], m[v]));
        }
    }
    if want != *got_e {
        return bad(format!("edges should be {}", show(&want)));
    }
    Ok(())
}

fn c08() {
    setup();
    if let Some(o) = big(true) {
        return c08_big(o);
    }
    let pool = id_pool();
    let k = range(1, 3) as usize;
    let slots: Vec<SimMutex<DSlot>> = (0..k).map(|_| SimMutex::new(DSlot::new(&pool))).collect();
    let clients = range(1, 3) as usize;
    let ops = *pick(&[8u64, 2, 4, 20, 50]);
    {
        let (slots, pool) = (&slots, &pool);
        run_threads(
            (0..clients)
                .map(|_| {
                    Box::new(move || {
                        history(clients == 1, ops, 1, || {
                            let i = draw(k as u64) as usize;
                            match weighted(&[12, 3, 2, 3, 1, 1, 1]) {
                                0 => slots[i].with(|s| dedit(s, pool)),
                                1 => slots[i].with(|s| {
                                    s.m.obs();
                                    verify(no_panic("query", || check_digraph("edited digraph", &s.g, &s.m)), "wrong-answer")
                                }),
                                2 => {
                                    let mut c = slots[i].with(|s| {
                                        ev!("clone digraph {i}");
                                        DSlot { g: no_panic("clone", || s.g.clone()), m: s.m.clone() }
                                    });
                                    verify(no_panic("clone", || check_digraph("copy", &c.g, &c.m)), "wrong-answer");
                                    for _ in 0..1 + draw(3) {
                                        op_boundary();
                                        dedit(&mut c, pool);
                                    }
                                    slots[i].with(|s| verify(no_panic("original", || check_digraph("original of an edited copy", &s.g, &s.m)), "wrong-answer"));
                                    verify(no_panic("copy", || check_digraph("edited copy", &c.g, &c.m)), "wrong-answer");
                                    if chance(1, 2) {
                                        let j = draw(k as u64) as usize;
                                        slots[j].with(|s| *s = c);
                                    }
                                }
                                3 => slots[i].with(|s| check_deq(s)),
                                4 => slots[i].with(|s| {
                                    ev!("normalize");
                                    let (h, map) = no_panic("normalize", || s.g.normalize());
                                    let (want, back) = normalized_d(&s.m);
                                    verify(no_panic("normalize", || check_digraph(&format!("normalize of {}", showd(&s.m)), &h, &want)), "wrong-derived");
                                    let map: BTreeMap<V, V> = map.into_iter().collect();
                                    verify(if map == back { Ok(()) } else { Err(format!("normalize of {}: map {} instead of {}", showd(&s.m), show(&map), show(&back))) }, "wrong-derived");
                                    verify(no_panic("source", || check_digraph("source of normalize", &s.g, &s.m)), "wrong-answer");
                                }),
                                5 => {
                                    ev!("disjoint union");
                                    let mut parts = vec![];
                                    let mut gs = vec![];
                                    for _ in 0..2 + weighted(&[3, 1]) {
                                        let j = draw(k as u64) as usize;
                                        slots[j].with(|s| {
                                            gs.push(no_panic("clone", || s.g.clone()));
                                            parts.push((s.m.verts(), s.m.arcs()));
                                        });
                                    }
                                    let u = no_panic("disj_union", || if gs.len() == 2 && chance(1, 6) {
                                        // one object twice
                                        parts[1] = parts[0].clone();
                                        gs[0].disj_union(&gs[0])
                                    } else if gs.len() == 2 { gs[0].disj_union(&gs[1]) } else { EditDigraph::disj_unions(gs.iter()) });
                                    let mut vs: Vec<V> = Graph::vertices(&u).copied().collect();
                                    vs.sort();
                                    let es: Set2 = u.arcs().collect();
                                    verify(check_union("disjoint union of digraphs", &vs, &es, &parts, true), "wrong-derived");
                                    let mut m = RD::default();
                                    vs.iter().for_each(|v| {
                                        m.add_v(*v);
                                    });
                                    es.iter().for_each(|(a, b)| {
                                        m.add_a(*a, *b);
                                    });
                                    verify(no_panic("disj_union", || check_digraph("disjoint union", &u, &m)), "wrong-derived");
                                }
                                _ => {
                                    let l: Vec<(V, V)> = (0..length(if one_in(12) { 1500 } else { 15 })).map(|_| (some_id(pool), some_id(pool))).collect();
                                    ev!("from_iter {}", show(&l));
                                    let g: EditDigraph = no_panic("from_iter", || items(l.clone()).collect());
                                    let mut m = RD::default();
                                    for (u, v) in l {
                                        m.add_a(u, v);
                                    }
                                    verify(no_panic("from_iter", || check_digraph("digraph from a sequence", &g, &m)), "wrong-answer");
                                    slots[i].with(|s| *s = DSlot { g, m });
                                }
                            }
                        })
                    }) as Task
                })
                .collect(),
        );
    }
    for s in slots {
        let s = s.into_inner();
        s.m.obs();
        verify(no_panic("query", || check_digraph("final digraph", &s.g, &s.m)), "wrong-answer");
        for _ in 0..1 + draw(3) {
            check_deq(&s);
        }
    }
}

/// Some directed cycle, found by walking along drawn arcs.
fn directed_cycle(d: &RD) -> Option<Vec<V>> {
    let a = d.arcs();
    let mut walk = vec![pick(&a).0];
    loop {
        let out: Vec<V> = d.out[walk.last().unwrap()].iter().copied().collect();
        if out.is_empty() {
            return None;
        }
        let v = *pick(&out);
        if let Some(i) = walk.iter().position(|x| *x == v) {
            return Some(walk[i..].to_vec());
        }
        walk.push(v);
    }
}

fn check_deq(s: &DSlot) {
    let same = edit_digraph(&s.m);
    rt::checked();
    if !no_panic("==", || s.g == same && same == s.g) {
        rt::fail("wrong-answer", format!("two digraphs with equal content compare as different: {}", showd(&s.m)));
    }
    let mut d = s.m.clone();
    if chance(1, 8) {
        let (x, y) = twins(|v| d.out.contains_key(&v));
        let (mut a, mut b) = (d.clone(), d.clone());
        x.iter().for_each(|(u, v)| drop(a.add_a(*u, *v)));
        y.iter().for_each(|(u, v)| drop(b.add_a(*u, *v)));
        let (g, h) = (edit_digraph(&a), edit_digraph(&b));
        if no_panic("==", || g == h || h == g) {
            rt::fail("wrong-answer", format!("different digraphs compare as equal: {} and {}", showd(&a), showd(&b)));
        }
    }
    let vs = d.verts();
    match draw(6) {
        3 if !d.arcs().is_empty() => {
            // turn everything around
            let a = d.arcs();
            a.iter().for_each(|(u, v)| drop(d.rem_a(*u, *v)));
            a.iter().for_each(|(u, v)| drop(d.add_a(*v, *u)));
        }
        4 if vs.len() > 1 => {
            // exchange two vertices: an isomorphic digraph
            let (a, b) = (*pick(&vs), *pick(&vs));
            let sw = |v: V| if v == a { b } else if v == b { a } else { v };
            let mut n = RD::default();
            vs.iter().for_each(|v| drop(n.add_v(*v)));
            d.arcs().iter().for_each(|(u, v)| drop(n.add_a(sw(*u), sw(*v))));
            d = n;
        }
        5 if !d.arcs().is_empty() => {
            // turn a directed cycle around: every in- and out-degree stays
            if let Some(c) = directed_cycle(&d) {
                let n = c.len();
                (0..n).for_each(|i| drop(d.rem_a(c[i], c[(i + 1) % n])));
                (0..n).for_each(|i| drop(d.add_a(c[(i + 1) % n], c[i])));
            }
        }
        0 if !d.arcs().is_empty() => {
            // turn one arc around
            let a = d.arcs();
            let (u, v) = *pick(&a);
            d.rem_a(u, v);
            d.add_a(v, u);
        }
        1 if !vs.is_empty() => {
            let (u, v) = (*pick(&vs), *pick(&vs));
            if !d.rem_a(u, v) {
                d.add_a(u, v);
            }
        }
        _ => {
            let mut x = 1;
            while d.out.contains_key(&x) {
                x += 2;
            }
            d.add_v(x);
        }
    }
    if d != s.m {
        let h = edit_digraph(&d);
        if no_panic("==", || s.g == h || h == s.g) {
            rt::fail("wrong-answer", format!("different digraphs compare as equal: {} and {}", showd(&s.m), showd(&d)));
        }
    }
}

// ---- C09 --------------------------------------------------------------------------------------

/// Run `f` with the caller's sequence failing after `k` items; returns whether it was cancelled.
fn aborted(what: &str, k: usize, f: impl FnOnce()) -> bool {
    arm(k as i64);
    let r = catch(f);
    disarm();
    match r {
        Outcome::Done(()) => false,
        Outcome::Cancelled => true,
        Outcome::Panicked(m) => rt::fail("panic", format!("{what}: panicked: {m}")),
    }
}

fn c09() {
    setup();
    let pool = id_pool();
    let k = range(1, 2) as usize;
    let slots: Vec<SimMutex<Slot>> = (0..k).map(|_| SimMutex::new(Slot::new(&pool))).collect();
    let dslots: Vec<SimMutex<DSlot>> = (0..k).map(|_| SimMutex::new(DSlot::new(&pool))).collect();
    let clients = range(1, 3) as usize;
    let ops = *pick(&[5u64, 2, 10, 20]);
    let max = *pick(&[6u64, 15, 60]);
    {
        let (slots, dslots, pool) = (&slots, &dslots, &pool);
        run_threads(
            (0..clients)
                .map(|_| {
                    Box::new(move || {
                        history(clients == 1, ops, 1, || {
                            let i = draw(k as u64) as usize;
                            match weighted(&[2, 4, 4, 2, 2, 2, 1, 1, 2, 3, 1]) {
                                0 => slots[i].with(|s| edit(s, pool)),
                                1 => slots[i].with(|s| {
                                    let l = id_list(pool, max);
                                    let k = draw(l.len() as u64 + 1) as usize;
                                    let before = s.m.clone();
                                    ev!("add_vertices {l:?}, sequence fails after {k}");
                                    if aborted("add_vertices", k, || drop(s.g.add_vertices(items(l.clone())))) {
                                        l[..k].iter().for_each(|v| drop(s.m.add_v(*v)));
                                        after_abort(s, &before, "add_vertices", &format!("{:?}", &l[..k]));
                                    } else {
                                        rt::fail("abort-lost", "add_vertices did not read the whole sequence or swallowed its failure".into());
                                    }
                                }),
                                2 => slots[i].with(|s| {
                                    let l = edge_list(&s.m, pool, max);
                                    let k = draw(l.len() as u64 + 1) as usize;
                                    let before = s.m.clone();
                                    ev!("add_edges {l:?}, sequence fails after {k}");
                                    if aborted("add_edges", k, || drop(s.g.add_edges(items(l.clone())))) {
                                        l[..k].iter().for_each(|(u, v)| drop(s.m.add_e(*u, *v)));
                                        after_abort(s, &before, "add_edges", &format!("{:?}", &l[..k]));
                                    } else {
                                        rt::fail("abort-lost", "add_edges did not read the whole sequence or swallowed its failure".into());
                                    }
                                }),
                                3 => slots[i].with(|s| {
                                    // contraction reads everything first
                                    let l = vertex_list(&s.m, 6);
                                    if l.is_empty() {
                                        return;
                                    }
                                    let k = draw(l.len() as u64 + 1) as usize;
                                    let before = s.m.clone();
                                    ev!("contract {l:?}, sequence fails after {k}");
                                    if !aborted("contract", k, || drop(s.g.contract(items(l.clone())))) {
                                        rt::fail("abort-lost", "contract did not read the whole sequence or swallowed its failure".into());
                                    }
                                    after_abort(s, &before, "contract", "nothing");
                                }),
                                4 => slots[i].with(|s| {
                                    let l = vertex_list(&s.m, 6);
                                    if l.is_empty() {
                                        return;
                                    }
                                    let c = *pick(&l);
                                    let k = draw(l.len() as u64 + 1) as usize;
                                    let before = s.m.clone();
                                    ev!("contract_into {c} {l:?}, sequence fails after {k}");
                                    if !aborted("contract_into", k, || s.g.contract_into(&c, items(l.clone()))) {
                                        rt::fail("abort-lost", "contract_into did not read the whole sequence or swallowed its failure".into());
                                    }
                                    after_abort(s, &before, "contract_into", "nothing");
                                }),
                                5 => slots[i].with(|s| {
                                    let l = vertex_list(&s.m, 8);
                                    let k = draw(l.len() as u64 + 1) as usize;
                                    let before = s.m.clone();
                                    ev!("subgraph {l:?}, sequence fails after {k}");
                                    let what = draw(3);
                                    let c = aborted("subgraph", k, || match what {
                                        0 => drop(s.g.subgraph::<EditGraph, _, _>(items(l.clone()))),
                                        1 => drop(s.g.neighbourhood(items(l.clone()))),
                                        _ => drop(s.g.r_neighbourhood(items(l.clone()), 2)),
                                    });
                                    if !c {
                                        rt::fail("abort-lost", "the failure of the sequence was swallowed".into());
                                    }
                                    after_abort(s, &before, "subgraph", "nothing");
                                }),
                                6 => slots[i].with(|s| {
                                    // a graph built from a failing sequence, or from a failing graph
                                    let l = edge_list(&s.m, pool, max);
                                    let k = draw(l.len() as u64 + 1) as usize;
                                    let before = s.m.clone();
                                    ev!("build from {l:?}, sequence fails after {k}");
                                    let c = match draw(2) {
                                        0 => aborted("from_iter", k, || drop(EditGraph::from_iter(items(l.clone())))),
                                        _ => aborted("from_iter", k, || drop(EditDigraph::from_iter(items(l.clone())))),
                                    };
                                    if !c {
                                        rt::fail("abort-lost", "from_iter swallowed the failure of its sequence".into());
                                    }
                                    after_abort(s, &before, "from_iter", "nothing");
                                }),
                                7 => slots[i].with(|s| {
                                    // union with, or ordering of, a graph that fails while being read
                                    let m = s.m.clone();
                                    let other = SimGraph::new(&m);
                                    let k = draw(3 + 3 * m.n() as u64) as usize;
                                    ev!("disj_union with a graph that fails after {k} calls");
                                    match draw(2) {
                                        0 => drop(aborted("disj_union", k, || drop(s.g.disj_union(&other)))),
                                        _ => {
                                            let o = m.verts();
                                            if !m.has_loop() {
                                                drop(aborted("with_ordering", k, || drop(OrdGraph::with_ordering(&s.g, items(o)))));
                                            }
                                        }
                                    }
                                    after_abort(s, &m, "disj_union", "nothing");
                                }),
                                8 => dslots[i].with(|s| {
                                    let l = id_list(pool, max);
                                    let k = draw(l.len() as u64 + 1) as usize;
                                    ev!("digraph add_vertices {l:?}, sequence fails after {k}");
                                    if !aborted("add_vertices", k, || drop(s.g.add_vertices(items(l.clone())))) {
                                        rt::fail("abort-lost", "add_vertices swallowed the failure of its sequence".into());
                                    }
                                    l[..k].iter().for_each(|v| drop(s.m.add_v(*v)));
                                    verify(no_panic("query", || check_digraph("digraph after an aborted add_vertices", &s.g, &s.m)), "abort-state");
                                }),
                                9 => dslots[i].with(|s| {
                                    let l: Vec<(V, V)> = (0..length(max)).map(|_| some_arc(&s.m, pool)).collect();
                                    let k = draw(l.len() as u64 + 1) as usize;
                                    ev!("digraph add_arcs {l:?}, sequence fails after {k}");
                                    if !aborted("add_arcs", k, || drop(s.g.add_arcs(items(l.clone())))) {
                                        rt::fail("abort-lost", "add_arcs swallowed the failure of its sequence".into());
                                    }
                                    l[..k].iter().for_each(|(u, v)| drop(s.m.add_a(*u, *v)));
                                    verify(no_panic("query", || check_digraph("digraph after an aborted add_arcs", &s.g, &s.m)), "abort-state");
                                }),
                                _ => dslots[i].with(|s| dedit(s, pool)),
                            }
                        })
                    }) as Task
                })
                .collect(),
        );
    }
    // everything is still usable
    for s in slots {
        let mut s = s.into_inner();
        for _ in 0..3 {
            edit(&mut s, &pool);
        }
        sweep("graph at the end", &s.g, &s.m);
        check_eq(&s.g, &s.m, None);
    }
    for s in dslots {
        let mut s = s.into_inner();
        for _ in 0..3 {
            dedit(&mut s, &pool);
        }
        verify(no_panic("query", || check_digraph("digraph at the end", &s.g, &s.m)), "wrong-answer");
        check_deq(&s);
    }
}

fn after_abort(s: &Slot, before: &RG, what: &str, applied: &str) {
    s.m.obs();
    verify(
        no_panic("query", || check_graph("graph", &s.g, &s.m)).map_err(|e| format!("after {what} was aborted having delivered {applied} (state before: {}): {e}", before.show())),
        "abort-state",
    );
}

// ---- C10 --------------------------------------------------------------------------------------

/// Contract the set `x` (not containing c) into c.
fn model_contract(m: &mut RG, c: V, x: &Set) {
    let mut nb = Set::new();
    for v in x {
        nb.extend(m.adj[v].iter());
    }
    for v in x {
        m.rem_v(*v);
    }
    for v in nb {
        if v != c && !x.contains(&v) {
            m.add_e(c, v);
        }
    }
}

fn derived_eq(what: &str, m: &RG, g: &EditGraph, want: &RG) {
    want.obs();
    verify(no_panic(what, || check_graph(what, g, want)).map_err(|e| format!("{e}; derived from {}", m.show())), "wrong-derived");
}

fn contract_op(s: &mut Slot, pool: &[V]) {
    let before = s.m.clone();
    let vs = s.m.verts();
    if vs.is_empty() {
        return;
    }
    let mut l = vertex_list(&s.m, *pick(&[3u64, 6, 15]));
    match draw(5) {
        0 => {
            let (u, v) = (*pick(&vs), *pick(&vs));
            if u == v {
                return;
            }
            ev!("contract_pair {u} {v}");
            no_panic("contract_pair", || s.g.contract_pair(&u, &v));
            model_contract(&mut s.m, u, &[v].into_iter().collect());
            derived_eq(&format!("contract_pair({u},{v})"), &before, &s.g, &s.m);
        }
        1 => {
            // a vertex that is not (or no longer) there
            let absent = some_id(pool);
            if s.m.has_v(absent) {
                return;
            }
            let u = *pick(&vs);
            ev!("contract_pair with absent {absent}");
            let (a, b) = if chance(1, 2) { (u, absent) } else { (absent, u) };
            if let Outcome::Done(()) = catch(|| s.g.contract_pair(&a, &b)) {
                rt::fail("wrong-answer", format!("contract_pair({a},{b}) did not object to the absent vertex {absent}; {}", before.show()));
            }
            derived_eq("graph after a refused contraction", &before, &s.g, &s.m);
        }
        2 => {
            let absent = some_id(pool);
            if s.m.has_v(absent) {
                return;
            }
            let c = *pick(&vs);
            l.push(absent);
            ev!("contract_into {c} {l:?}, {absent} absent");
            match catch(|| s.g.contract_into(&c, l.iter())) {
                Outcome::Done(()) => {
                    // tolerated: as if it had not been listed
                    let x: Set = l.iter().copied().filter(|v| *v != c && s.m.has_v(*v)).collect();
                    model_contract(&mut s.m, c, &x);
                }
                _ => {}
            }
            derived_eq("graph after contraction with an absent vertex", &before, &s.g, &s.m);
        }
        3 => {
            let c = *pick(&vs);
            ev!("contract_into {c} {l:?}");
            no_panic("contract_into", || if l.len() % 2 == 0 { s.g.contract_into(&c, l.iter()) } else { s.g.contract_into(&c, items(l.clone())) });
            let x: Set = l.iter().copied().filter(|v| *v != c).collect();
            model_contract(&mut s.m, c, &x);
            derived_eq(&format!("contract_into({c},{l:?})"), &before, &s.g, &s.m);
        }
        _ => {
            if l.is_empty() {
                return;
            }
            ev!("contract {l:?}");
            let c = no_panic("contract", || s.g.contract(l.iter()));
            if c != l[0] {
                rt::fail("wrong-answer", format!("contract({l:?}) returned {c}, not the first vertex"));
            }
            let x: Set = l.iter().copied().filter(|v| *v != c).collect();
            model_contract(&mut s.m, c, &x);
            derived_eq(&format!("contract({l:?})"), &before, &s.g, &s.m);
        }
    }
}

fn derive_op(s: &Slot, other: Option<(&EditGraph, &RG)>) {
    let m = &s.m;
    match weighted(&[3, 2, 3, 1]) {
        0 => {
            let set = subset(m, 1000);
            let mut l: Vec<V> = set.iter().copied().collect();
            if !l.is_empty() && chance(1, 2) {
                l.push(l[0]);
            }
            let want = m.induced(&set);
            ev!("subgraph {l:?}");
            // from every kind of source
            match draw(4) {
                0 | 1 => {
                    let h: EditGraph = no_panic("subgraph", || s.g.subgraph(l.iter()));
                    derived_eq(&format!("subgraph({l:?})"), m, &h, &want);
                }
                2 => {
                    let g = SimGraph::new(m);
                    let h: EditGraph = no_panic("subgraph", || g.subgraph(items(l.clone())));
                    derived_eq(&format!("subgraph({l:?}) of a caller's graph"), m, &h, &want);
                }
                _ => {
                    if m.has_loop() {
                        return;
                    }
                    let o = order(m);
                    let h: EditGraph = no_panic("subgraph", || {
                        if chance(1, 2) {
                            OrdGraph::with_ordering(&s.g, o.iter()).subgraph(l.iter())
                        } else {
                            DegenGraph::with_ordering(&s.g, o.iter()).subgraph(l.iter())
                        }
                    });
                    derived_eq(&format!("subgraph({l:?}) of an ordered graph"), m, &h, &want);
                }
            }
        }
        1 => {
            ev!("normalize");
            let (h, map) = no_panic("normalize", || s.g.normalize());
            let id: BTreeMap<V, V> = m.verts().into_iter().enumerate().map(|(i, v)| (v, i as V)).collect();
            let mut want = RG::new();
            id.values().for_each(|v| drop(want.add_v(*v)));
            m.edges().iter().for_each(|(u, v)| drop(want.add_e(id[u], id[v])));
            derived_eq("normalize", m, &h, &want);
            let map: BTreeMap<V, V> = map.into_iter().collect();
            let back: BTreeMap<V, V> = id.into_iter().map(|(a, b)| (b, a)).collect();
            verify(if map == back { Ok(()) } else { Err(format!("normalize: map {} instead of {}", show(&map), show(&back))) }, "wrong-derived");
        }
        2 => {
            let Some((h, n)) = other else { return };
            ev!("disj_union");
            let mut parts = vec![(m.verts(), m.edges()), (n.verts(), n.edges())];
            let u = match draw(4) {
                0 => no_panic("disj_union", || s.g.disj_union(h)),
                3 => {
                    parts[1] = parts[0].clone();
                    no_panic("disj_union", || if chance(1, 2) { s.g.disj_union(&s.g) } else { EditGraph::disj_unions([&s.g, &s.g].into_iter()) })
                }
                1 => no_panic("disj_union", || s.g.disj_union(&SimGraph::new(n))),
                _ => {
                    parts.push((m.verts(), m.edges()));
                    let v = [s.g.clone(), h.clone(), s.g.clone()];
                    no_panic("disj_unions", || EditGraph::disj_unions(v.iter()))
                }
            };
            let r = match read_graph(&u) {
                Ok(r) => r,
                Err(e) => rt::fail("wrong-derived", format!("disjoint union: {e}")),
            };
            r.obs();
            verify(check_union("disjoint union", &r.verts(), &r.edges().into_iter().collect(), &parts, false), "wrong-derived");
            derived_eq("disjoint union", m, &u, &r);
        }
        _ => {
            // an isolated copy of part of the graph stays as it is while the source is edited
            let set = subset(m, 1000);
            let h: EditGraph = no_panic("subgraph", || s.g.subgraph(set.iter()));
            derived_eq("subgraph", m, &h, &m.induced(&set));
        }
    }
    verify(no_panic("source", || check_graph("source of a derived graph", &s.g, m)), "wrong-answer");
}

fn c10() {
    setup();
    let pool = id_pool();
    let large = big(true);
    let k = range(1, 2) as usize;
    let slots: Vec<SimMutex<Slot>> = (0..k)
        .map(|_| {
            SimMutex::new(if let Some(o) = large {
                let m = graph(o);
                Slot { g: edit_graph(&m), m }
            } else if chance(1, 2) {
                let m = graph(Opts { loops: true, huge_ids: true, ..Opts::sizes(9, 25, 60, 3) });
                Slot { g: edit_graph(&m), m }
            } else {
                Slot::new(&pool)
            })
        })
        .collect();
    let clients = range(1, 3) as usize;
    let ops = if large.is_some() { 2 } else { *pick(&[6u64, 2, 12, 30]) };
    {
        let (slots, pool) = (&slots, &pool);
        run_threads(
            (0..clients)
                .map(|_| {
                    Box::new(move || {
                        history(clients == 1 && large.is_none(), ops, 1, || {
                            let i = draw(k as u64) as usize;
                            match weighted(&[4, 5, 5]) {
                                0 => slots[i].with(|s| edit(s, pool)),
                                1 => slots[i].with(|s| contract_op(s, pool)),
                                _ => {
                                    let j = draw(k as u64) as usize;
                                    let o = slots[j].with(|s| (no_panic("clone", || s.g.clone()), s.m.clone()));
                                    slots[i].with(|s| derive_op(s, Some((&o.0, &o.1))));
                                    verify(no_panic("operand", || check_graph("operand of a union", &o.0, &o.1)), "wrong-answer");
                                }
                            }
                        })
                    }) as Task
                })
                .collect(),
        );
    }
    for s in slots {
        let s = s.into_inner();
        sweep("graph at the end", &s.g, &s.m);
        check_eq(&s.g, &s.m, None);
    }
    let _ = sched::me();
}

const REAL: &str = "EditGraph and EditDigraph with every method used, the default methods of Graph, MutableGraph, Digraph, MutableDigraph, std hash containers; OrdGraph and DegenGraph as sources of subgraphs";

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", run: c07, quick: 40000, thorough: 600000, real: REAL,
            rule: "1-3 clients performing up to 60 drawn edits, copies, comparisons and query sweeps each on 1-3 EditGraphs over 2-90 ids (up to u32::MAX), preempted at container operations; every return value and every query compared with an abstract graph. Non-trivial: a hash seed, order or scheduling switch took effect and answers were compared." },
        Prop { id: "C08", run: c08, quick: 40000, thorough: 600000, real: REAL,
            rule: "as C07 for EditDigraph, with relabelled copies and disjoint unions. Non-trivial: a hash seed, order or scheduling switch took effect and answers were compared." },
        Prop { id: "C09", run: c09, quick: 40000, thorough: 600000, real: REAL,
            rule: "bulk operations whose caller-supplied sequence (or graph) fails after a drawn number of items, mixed with ordinary edits by 1-3 clients; state compared after each failure and at the end. Non-trivial: a failure fired (or a switch took effect) and the state was compared." },
        Prop { id: "C10", run: c10, quick: 40000, thorough: 600000, real: REAL,
            rule: "histories of edits, contractions, subgraphs, relabellings and unions over drawn graphs by 1-3 clients. Non-trivial: a hash seed, presentation order or switch took effect and a derived graph was compared." },
    ]
}
