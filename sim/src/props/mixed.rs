//! C24: mixtures of computations on shared graphs, some of them cancelled.

use super::io::{check_closed, load_any, Fmt, Obj, SimSink, SinkPlan, SinkState, Ty};
use crate::gen::*;
use crate::oracle::*;
use crate::rt::{self, chance, draw, one_in, pick, range, weighted};
use crate::sched::{self, no_panic, SimMutex};
use crate::{fsim, Prop};
use graphbench::algorithms::*;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::DegenGraph;
use graphbench::dtfgraph::DTFGraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::iterators::*;
use graphbench::operations::GraphOperations;
use graphbench::ordgraph::OrdGraph;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

fn ok(r: Res) {
    rt::check(r, "wrong-answer")
}

struct World {
    m: RG,
    g: AnyGraph,
    ord: Vec<V>,
    o: AnyOrd,
    deg: DegenGraph,
    dord: Vec<V>,
    oracle: SReachTraceOracle,
    dtf: DTFGraph,
    depth: usize,
    file: (String, Fmt),
    /// the file holds the graph
    stored: bool,
}

fn world(i: usize, m: RG) -> World {
    let g = AnyGraph::new(&m);
    let ord = order(&m);
    let o = AnyOrd::new(&m, &ord);
    let deg = no_panic("from_graph", || any!(&g, x => DegenGraph::from_graph(x)));
    let dord: Vec<V> = deg.vertices().copied().collect();
    ok(check_degen_order("degeneracy graph", &m, &dord));
    let oracle = no_panic("for_graph", || SReachTraceOracle::for_graph(&deg));
    let mut dtf = no_panic("orient", || any!(&g, x => DTFGraph::orient(x)));
    let depth = range(1, 3) as usize;
    no_panic("augment", || dtf.augment(depth, draw(3) as usize));
    let f = *pick(&[Fmt::Txt, Fmt::Gz]);
    let path = format!("/simfs/world{i}.{}", if f == Fmt::Txt { "txt" } else { "txt.gz" });
    let e = edit_graph(&m);
    let r = no_panic("save", || if f == Fmt::Txt { e.write_txt(&path) } else { e.write_gzipped(&path) });
    if let Err(e) = r {
        rt::fail("save-failed", format!("save on a working disk: {e}"));
    }
    ev!("world {i}: {} order {} of {}", g.kind(), show(&ord), m.show());
    World { m, g, ord, o, deg, dord, oracle, dtf, depth, file: (path, f), stored: true }
}

fn set_of(m: &RG, s: &Set) -> Vec<V> {
    m.verts().into_iter().filter(|v| s.contains(v)).collect()
}

/// Which computation `step` makes.
fn kind() -> usize {
    weighted(&[3, 2, 3, 2, 2, 2, 3, 2, 2, 2, 1, 2, 2, 3, 3, 2, 2, 2])
}

fn step(w: &World, client: usize, kind: usize) {
    let m = &w.m;
    let small = m.n() <= 25;
    match kind {
        0 => ok(no_panic("queries", || any!(&w.g, x => check_graph(w.g.kind(), x, m)))),
        1 => {
            let s = subset(m, 6);
            let r = draw(4) as usize;
            ok(no_panic("neighbourhoods", || any!(&w.g, x => check_neighbourhoods(w.g.kind(), x, m, &s, r))));
        }
        2 => {
            let got = attempt("edges", || any!(&w.g, x => x.edges().map(|(u, v)| (u.min(v), u.max(v))).collect::<Vec<_>>()));
            let s: BTreeSet<(V, V)> = got.iter().copied().collect();
            ok(if s.len() == got.len() && s == m.edges().into_iter().collect() { Ok(()) } else { Err(format!("edges: {} for {}", show(&got), m.show())) });
        }
        3 => ok(check_components(m, &attempt("components", || any!(&w.g, x => x.components())))),
        4 => ok(check_bipartite(m, &attempt("is_bipartite", || any!(&w.g, x => x.is_bipartite())))),
        5 => ok(check_degeneracy(m, &attempt("degeneracy", || any!(&w.g, x => x.degeneracy())))),
        6 => {
            let r = range(1, 4) as u32;
            if chance(1, 2) {
                let got = attempt("wreach_sets", || any_ord!(&w.o, x => x.wreach_sets(r)));
                ok(check_maps(&format!("wreach_sets({r})"), m, &w.ord, &wreach(m, &w.ord, r), &maps_of(&got)));
            } else {
                let got = attempt("sreach_sets", || any_ord!(&w.o, x => x.sreach_sets(r)));
                ok(check_maps(&format!("sreach_sets({r})"), m, &w.ord, &sreach(m, &w.ord, r), &maps_of(&got)));
            }
        }
        7 if small => {
            let got = attempt("count_max_cliques", || any_ord!(&w.o, x => x.count_max_cliques()));
            let want = max_cliques(m);
            ok(if got == want { Ok(()) } else { Err(format!("{got} maximal cliques instead of {want}; order {} of {}", show(&w.ord), m.show())) });
        }
        8 => {
            let (r, wit) = (range(1, 3) as u32, chance(1, 2));
            let t = subset(m, 60);
            let v = set_of(m, &t);
            let got = attempt("domset_with_target", || any_ord!(&w.o, x => x.domset_with_target(r, wit, items(v.clone()))));
            ok(check_domset(m, r, &t, wit, &got));
        }
        9 => {
            let d = range(1, 5) as u32;
            let t = subset(m, 60);
            let v = set_of(m, &t);
            let got = attempt("scattered_colouring", || any_ord!(&w.o, x => x.scattered_colouring(d, items(v.clone()))));
            ok(check_scattered(m, d, &t, &got));
        }
        10 => ok(check_greedy(m, &w.ord, &attempt("colour_greedy", || any_ord!(&w.o, x => x.colour_greedy())))),
        11 => {
            let vs = m.verts();
            for _ in 0..if vs.is_empty() { 0 } else { 8 } {
                let (u, v) = (*pick(&vs), *pick(&vs));
                let got = no_panic("small_distance", || w.dtf.small_distance(&u, &v));
                let want = dist(m, u, v).filter(|d| *d as usize <= w.depth);
                ok(if got == want { Ok(()) } else { Err(format!("small_distance({u},{v}) is {got:?} instead of {want:?} at depth {} of {}", w.depth, m.show())) });
            }
        }
        12 if small => {
            // an augmentation of one's own
            let d = range(1, 3) as u32;
            let mut h = attempt("orient", || any!(&w.g, x => DTFGraph::orient(x)));
            let dom = vset(&no_panic("domset", || h.domset(d)));
            let reach = m.bfs(&dom.iter().copied().collect::<Vec<_>>(), |_| true);
            ok(match m.verts().into_iter().find(|v| reach.get(v).map_or(true, |x| *x > d)) {
                None => Ok(()),
                Some(v) => Err(format!("{v} is not {d}-dominated by {}; {}", show(&dom), m.show())),
            });
        }
        13 => {
            let s = subset(m, 8);
            let inner: Vec<V> = w.dord.iter().copied().filter(|v| s.contains(v)).collect();
            let want = traces(m, &inner);
            if chance(1, 2) {
                let mut t: std::collections::BTreeMap<Vec<V>, usize> = no_panic("compute_traces", || w.oracle.compute_traces(&inner, &w.deg)).into_iter().collect();
                t.retain(|_, c| *c != 0);
                ok(if t == want { Ok(()) } else { Err(format!("traces of {}: {} instead of {}; order {} of {}", show(&inner), show(&t), show(&want), show(&w.dord), m.show())) });
            } else {
                let got = no_panic("compute_neighbour_count", || w.oracle.compute_neighbour_count(&inner, &w.deg));
                let k: usize = want.iter().filter(|(t, _)| !t.is_empty()).map(|(_, c)| c).sum();
                ok(if got == k { Ok(()) } else { Err(format!("neighbour count of {} is {got} instead of {k}; order {} of {}", show(&inner), show(&w.dord), m.show())) });
            }
        }
        14 => {
            // save to a file of one's own, perhaps after a save that was cut short, and load it again
            let f = *pick(&[Fmt::Txt, Fmt::Gz]);
            let path = format!("/simfs/own{client}.{}", if f == Fmt::Txt { "txt" } else { "txt.gz" });
            let r = attempt(&format!("save to {path}"), || {
                any!(&w.g, x => if f == Fmt::Txt { x.write_txt(&path) } else { x.write_gzipped(&path) })
            });
            match r {
                Ok(()) => {}
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => return,
                Err(e) => rt::fail("save-failed", format!("save on a working disk: {e}")),
            }
            let r = no_panic("load", || load_any(Ty::G, &path, f));
            let want = m.without_isolates();
            ok(match r {
                Ok(Obj::G(l)) if l == want => Ok(()),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(()),
                Ok(l) => Err(format!("saved and loaded: {} instead of {}", l.desc(), want.show())),
                Err(e) => Err(format!("load of {path}: {e}")),
            });
        }
        15 if w.stored => {
            let r = no_panic("load", || load_any(Ty::G, &w.file.0, w.file.1));
            let want = m.without_isolates();
            ok(match r {
                Ok(Obj::G(l)) if l == want => Ok(()),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(()),
                Ok(l) => Err(format!("shared file {}: {} instead of {}", w.file.0, l.desc(), want.show())),
                Err(e) => Err(format!("load of {}: {e}", w.file.0)),
            });
        }
        16 => {
            // a sink of the caller's, which may fail
            let plan = SinkPlan { short: *pick(&[0u64, 3]), fail_at: chance(1, 2).then(|| (draw(6), *pick(&[std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::Other, std::io::ErrorKind::TimedOut, std::io::ErrorKind::WouldBlock]), true)), ..Default::default() };
            let st = Arc::new(Mutex::new(SinkState::default()));
            let r = no_panic("write_buf", || any!(&w.g, x => x.write_buf(Box::new(SimSink { plan: plan.clone(), st: st.clone() }))));
            let s = st.lock().unwrap();
            ok(match r {
                Ok(()) => match super::io::spec_parse(Ty::G, &s.data) {
                    Some(Obj::G(l)) if l == m.without_isolates() => Ok(()),
                    _ => Err(format!("write_buf wrote {} for {}", show(&String::from_utf8_lossy(&s.data)), m.show())),
                },
                Err(e) if s.fired.contains(&e.kind()) => Ok(()),
                Err(e) => Err(format!("write_buf failed with {e}, the sink reported {:?}", s.fired)),
            });
        }
        _ => {
            // derived graphs
            match draw(4) {
                0 => {
                    let o = attempt("by_degeneracy", || any!(&w.g, x => OrdGraph::by_degeneracy(x)));
                    let k: Vec<V> = o.vertices().copied().collect();
                    ok(check_degen_order("graph ordered by degeneracy", m, &k));
                    ok(no_panic("ordered graph", || super::trav::check_ord("degeneracy order", &o, m, &k)));
                }
                1 => {
                    let d = attempt("from_graph", || any!(&w.g, x => DegenGraph::from_graph(x)));
                    let k: Vec<V> = d.vertices().copied().collect();
                    ok(check_degen_order("degeneracy graph", m, &k));
                    ok(no_panic("degeneracy graph", || super::trav::check_degen("degeneracy graph", &d, m, &k)));
                }
                2 => {
                    let s = subset(m, 40);
                    let v = set_of(m, &s);
                    let got: EditGraph = attempt("subgraph", || any!(&w.g, x => x.subgraph(items(v.clone()))));
                    ok(no_panic("queries", || check_graph("subgraph", &got, &m.induced(&s))));
                }
                _ => {
                    let got = attempt("to_wreach_graph", || match &w.o {
                        AnyOrd::O(o) => Some(o.to_wreach_graph::<2>()),
                        _ => None,
                    });
                    if let Some(g) = got {
                        ok(no_panic("wreach graph", || super::algo::check_reachables("wreach graph", &g, m, &w.ord, &wreach(m, &w.ord, 2))));
                    }
                }
            }
        }
    }
}

/// "Any number of threads may run ...": only if the graphs can be handed to several threads at all.
fn shareable() {
    macro_rules! can {
        ($($t:ty),*) => {$({
            struct P<T>(std::marker::PhantomData<T>);
            #[allow(dead_code)]
            trait Otherwise {
                fn yes(&self) -> bool {
                    false
                }
            }
            impl<T> Otherwise for P<T> {}
            impl<T: Send + Sync> P<T> {
                fn yes(&self) -> bool {
                    true
                }
            }
            if !P::<$t>(std::marker::PhantomData).yes() {
                rt::fail("not-shareable", concat!(stringify!($t), " cannot be used by several threads").into());
            }
        })*};
    }
    can!(EditGraph, graphbench::editdigraph::EditDigraph, OrdGraph, DegenGraph, graphbench::reachgraph::ReachGraph<2>, DTFGraph, SReachTraceOracle, VertexColouring<u32>);
}

fn c24() {
    shareable();
    setup();
    let m = graph(Opts { huge_ids: true, huge: 120, ..Opts::sizes(10, 25, 60, 3) });
    let alternating = alternate(&m);
    let ms = if alternating {
        vec![m.clone(), part(&m)]
    } else if chance(1, 2) {
        vec![m.clone(), sibling(&m)]
    } else {
        vec![m]
    };
    let ws: Vec<World> = ms.into_iter().enumerate().map(|(i, m)| world(i, m)).collect();
    fsim::fs().set_plan(fsim::awkward());
    let k = if alternating { 1 } else { range(1, 3) };
    let ops = *pick(&[3u64, 6, 2]);
    {
        let ws = &ws;
        sched::run_threads(
            (0..k as usize)
                .map(|c| {
                    Box::new(move || {
                        {
                            if alternating {
                                return rt::alternating(range(300, 700), || step(turn(ws), c, kind()));
                            }
                            if k == 1 && ws[0].m.n() <= 12 && one_in(60) {
                                return rt::long(range(257, 1200), 24, || step(pick(ws), c, kind()));
                            }
                            for _ in 0..1 + draw(ops) {
                                sched::op_boundary();
                                step(pick(ws), c, kind());
                            }
                        }
                    }) as Task
                })
                .collect(),
        );
    }
    check_closed("after all computations");
    for w in &ws {
        ok(no_panic("queries", || any!(&w.g, x => check_graph("shared graph at the end", x, &w.m))));
        ok(no_panic("queries", || super::trav::check_degen("shared ordered graph at the end", &w.deg, &w.m, &w.dord)));
        ok(no_panic("queries", || any_ord!(&w.o, x => super::trav::check_linear("shared ordered graph at the end", x, &w.m, &w.ord, false))));
    }
}

// ---- C27 --------------------------------------------------------------------------------------

/// Change the edges of the model; most changes keep the number of vertices and edges.
fn change(m: &RG) -> Vec<(bool, V, V)> {
    let (vs, es) = (m.verts(), m.edges());
    let mut l = vec![];
    if vs.len() < 2 {
        return l;
    }
    let fresh = |d: &RG| {
        (0..10).find_map(|_| {
            let (x, y) = (*pick(&vs), *pick(&vs));
            (x != y && !d.has_e(x, y)).then_some((x, y))
        })
    };
    let mut d = m.clone();
    match weighted(&[4, 3, 1, 1]) {
        // edges move
        0 if !es.is_empty() => {
            for _ in 0..range(1, 3) {
                let (u, v) = *pick(&d.edges());
                if let Some((x, y)) = fresh(&d) {
                    l.extend([(false, u, v), (true, x, y)]);
                    d.rem_e(u, v);
                    d.add_e(x, y);
                }
            }
        }
        // edges exchange their ends: all degrees stay
        1 if es.len() > 1 => {
            for _ in 0..6 {
                let e = d.edges();
                let ((a, b), (x, y)) = (*pick(&e), *pick(&e));
                let (x, y) = if chance(1, 2) { (y, x) } else { (x, y) };
                if a != x && a != y && b != x && b != y && !d.has_e(a, y) && !d.has_e(x, b) {
                    l.extend([(false, a, b), (false, x, y), (true, a, y), (true, x, b)]);
                    d.rem_e(a, b);
                    d.rem_e(x, y);
                    d.add_e(a, y);
                    d.add_e(x, b);
                    if chance(1, 2) {
                        break;
                    }
                }
            }
        }
        2 if !es.is_empty() => {
            let (u, v) = *pick(&es);
            l.push((false, u, v));
        }
        _ => {
            if let Some((x, y)) = fresh(&d) {
                l.push((true, x, y));
            }
        }
    }
    l
}

/// Edit the graph where it stands and bring what is derived from it up to date, also where it stands.
fn mutate(w: &mut World) {
    match weighted(&[6, 2, 2, 4, 2, 1]) {
        k @ 0..=2 => {
            let old = w.m.clone();
            let AnyGraph::E(g) = &mut w.g else { return };
            match k {
                0 => {
                    let l = change(&w.m);
                    ev!("change {l:?}");
                    for (add, u, v) in l {
                        let r = no_panic("edit", || if add { g.add_edge(&u, &v) } else { g.remove_edge(&u, &v) });
                        let want = if add { w.m.add_e(u, v) } else { w.m.rem_e(u, v) };
                        ok(if r == want { Ok(()) } else { Err(format!("edge {u} {v}: add {add} returned {r}")) });
                    }
                }
                1 => {
                    let vs = w.m.verts();
                    if vs.len() < 2 {
                        return;
                    }
                    let (u, v) = (*pick(&vs), *pick(&vs));
                    if chance(1, 2) && u != v {
                        ev!("contract {u} {v}");
                        no_panic("contract_pair", || g.contract_pair(&u, &v));
                        for x in w.m.adj[&v].clone() {
                            if x != u {
                                w.m.add_e(u, x);
                            }
                        }
                        w.m.rem_v(v);
                    } else {
                        // a vertex goes, another comes with as many edges
                        let d = w.m.adj[&u].clone();
                        let mut x = draw(60) as V;
                        while w.m.has_v(x) {
                            x += 1;
                        }
                        let mut n: Vec<V> = shuffled(&vs, rt::sub_seed()).into_iter().filter(|y| *y != u).collect();
                        n.truncate(d.len());
                        ev!("replace {u} by {x} with {n:?}");
                        no_panic("edit", || {
                            g.remove_vertex(&u);
                            g.add_vertex(&x);
                            n.iter().for_each(|y| drop(g.add_edge(&x, y)));
                        });
                        w.m.rem_v(u);
                        w.m.add_v(x);
                        n.iter().for_each(|y| drop(w.m.add_e(x, *y)));
                    }
                }
                _ => {
                    ev!("another graph");
                    w.m = sibling(&w.m);
                    *g = edit_graph(&w.m);
                }
            }
            w.m.obs();
            let m = &w.m;
            ev!("now {}", m.show());
            if chance(1, 4) {
                // what was derived before still describes the graph it was derived from
                ok(any_ord!(&w.o, x => super::trav::check_linear("ordered graph of the graph before the edit", x, &old, &w.ord, false)));
                ok(super::trav::check_linear("static graph of the graph before the edit", &w.deg, &old, &w.dord, false));
                let vs = old.verts();
                if vs.len() > 1 {
                    let (u, v) = (*pick(&vs), *pick(&vs));
                    let got = no_panic("small_distance", || w.dtf.small_distance(&u, &v));
                    let want = dist(&old, u, v).filter(|d| *d as usize <= w.depth);
                    if got != want {
                        rt::fail("wrong-answer", format!("augmentation of the graph before the edit: distance {u} {v} is {got:?}, should be {want:?}: {}", old.show()));
                    }
                }
            }
            let m = &w.m;
            w.ord = if w.ord.iter().all(|v| m.has_v(*v)) && w.ord.len() == m.n() && chance(2, 3) { w.ord.clone() } else { order(m) };
            w.o = AnyOrd::new(m, &w.ord);
            w.deg = no_panic("from_graph", || any!(&w.g, x => DegenGraph::from_graph(x)));
            w.dord = w.deg.vertices().copied().collect();
            ok(check_degen_order("degeneracy graph", m, &w.dord));
            w.oracle = no_panic("for_graph", || SReachTraceOracle::for_graph(&w.deg));
            w.dtf = no_panic("orient", || any!(&w.g, x => DTFGraph::orient(x)));
            w.dtf.augment(w.depth, draw(3) as usize);
            w.stored = false;
            ok(no_panic("queries", || any!(&w.g, x => check_graph(w.g.kind(), x, m))));
        }
        3 => {
            let k = w.ord.len();
            if let (AnyOrd::O(o), true) = (&mut w.o, k > 1) {
                for _ in 0..range(1, 3) {
                    let (i, j) = (draw(k as u64) as usize, draw(k as u64) as usize);
                    ev!("swap {} {}", w.ord[i], w.ord[j]);
                    no_panic("swap", || o.swap(&w.ord[i], &w.ord[j]));
                    w.ord.swap(i, j);
                }
            } else {
                w.ord = order(&w.m);
                w.o = AnyOrd::new(&w.m, &w.ord);
            }
        }
        4 => {
            let path = w.file.0.clone();
            let AnyGraph::E(g) = &w.g else { return };
            let r = no_panic("save", || if w.file.1 == Fmt::Txt { g.write_txt(&path) } else { g.write_gzipped(&path) });
            w.stored = match r {
                Ok(()) => true,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => false,
                Err(e) => rt::fail("save-failed", format!("save on a working disk: {e}")),
            };
        }
        _ => {
            let d = range(1, 4);
            ev!("augment {d} at depth {}", w.depth);
            no_panic("augment", || w.dtf.augment(d as usize, 1));
            w.depth = w.depth.max(d as usize);
        }
    }
}

fn c27() {
    setup();
    let m = graph(Opts { huge_ids: true, huge: 0, ..Opts::sizes(8, 14, 30, 1) });
    let ws: Vec<SimMutex<World>> = (0..if chance(1, 3) { 2 } else { 1 })
        .map(|i| {
            let m = if i == 1 { sibling(&m) } else { m.clone() };
            let mut w = world(i, m);
            w.g = AnyGraph::E(edit_graph(&w.m));
            SimMutex::new(w)
        })
        .collect();
    fsim::fs().set_plan(fsim::awkward());
    let k = range(1, 2);
    let ops = *pick(&[4u64, 8, 2]);
    {
        let ws = &ws;
        sched::run_threads(
            (0..k as usize)
                .map(|c| {
                    Box::new(move || {
                        let mut favourite = kind();
                        history(k == 1 && ws[0].with(|w| w.m.n() <= 12), ops, 2, || {
                            if chance(1, 3) {
                                favourite = kind();
                            }
                            pick(ws).with(|w| {
                                if chance(2, 3) {
                                    step(w, c, favourite);
                                }
                                mutate(w);
                                step(w, c, favourite);
                            });
                        })
                    }) as Task
                })
                .collect(),
        );
    }
    check_closed("after all computations");
    for w in ws {
        let w = w.into_inner();
        ok(no_panic("queries", || any!(&w.g, x => check_graph("graph at the end", x, &w.m))));
        ok(no_panic("queries", || any_ord!(&w.o, x => super::trav::check_linear("ordered graph at the end", x, &w.m, &w.ord, false))));
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C27", run: c27, quick: 40000, thorough: 400000,
        real: "EditGraph edits, OrdGraph swaps, augment, all queries, traversals, algorithms, derived structures, savers and loaders; the file system is a stub (libc seam); ordered graphs and sinks of the caller are stubs (trait seam) when they present themselves in a drawn order or fail",
        rule: "1-2 clients alternating drawn changes made in place (edges moved or exchanged with every count kept, vertices contracted or replaced, other contents put in the same place, swaps of the order, deeper augmentation, files overwritten) with drawn computations of 18 kinds, the same kind before and after a change, on one or two graphs of up to 30 vertices; every answer against the definitions for the contents at that moment. Non-trivial: a hash seed, order, switch, fault or cancellation took effect and an answer was compared." },
    Prop { id: "C24", run: c24, quick: 40000, thorough: 400000,
        real: "all queries, traversals, algorithms, derived structures, savers and loaders; the file system is a stub (libc seam); graphs, iterators and sinks of the caller are stubs (trait seam) when they present themselves in a drawn order or fail",
        rule: "1-3 clients running drawn mixtures of 18 kinds of computation on one or two shared graphs of equal size (up to 60 vertices), one in six preceded by a cancelled attempt; every answer against the definitions, then the shared graphs and open files. Non-trivial: a hash seed, order, switch, fault or cancellation took effect and an answer was compared." }]
}
