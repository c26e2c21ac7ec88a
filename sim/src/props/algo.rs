//! C14-C20, C23: algorithms on shared graphs.

use crate::gen::*;
use crate::oracle::*;
use crate::rt::{self, chance, draw, one_in, pick, range, weighted, Rng};
use crate::sched::no_panic;
use crate::Prop;
use graphbench::algorithms::*;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::DegenGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::ReachGraph;
use std::collections::BTreeMap;

fn ok(r: Res) {
    rt::check(r, "wrong-answer")
}

/// An undirected graph or the underlying graph of a digraph.
pub enum Any2 {
    U(AnyGraph),
    D(EditDigraph),
}
impl Any2 {
    pub fn new(g: &RG) -> Any2 {
        if chance(1, 8) {
            Any2::D(edit_digraph(&RD::from_graph(g, rt::sub_seed())))
        } else {
            Any2::U(AnyGraph::new(g))
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Any2::U(g) => g.kind(),
            Any2::D(_) => "EditDigraph",
        }
    }
}
macro_rules! any2 {
    ($g:expr, $x:ident => $body:expr) => {
        match $g {
            Any2::U(g) => any!(g, $x => $body),
            Any2::D($x) => $body,
        }
    };
}

// ---- C14, C15 ---------------------------------------------------------------------------------

fn several_parts(o: Opts) -> RG {
    let mut g = graph(o);
    // more components, joined by few edges
    if chance(1, 3) && g.n() <= 40 {
        let h = graph(Opts { huge_ids: false, ..Opts::small(8) });
        let off = match g.verts().last() {
            Some(x) if *x < 1 << 29 => x + 1,
            Some(_) => return g,
            None => 0,
        };
        if h.verts().last().map_or(false, |x| *x > 1 << 29) {
            return g;
        }
        for v in h.verts() {
            g.add_v(v + off);
        }
        for (u, v) in h.edges() {
            g.add_e(u + off, v + off);
        }
        let vs = g.verts();
        for _ in 0..draw(if vs.is_empty() { 1 } else { 3 }) {
            let (a, b) = (*pick(&vs), *pick(&vs));
            if a != b {
                g.add_e(a, b);
            }
        }
        g.obs();
    }
    g
}

fn c14() {
    setup();
    let m = several_parts(Opts { loops: true, huge_ids: true, giant: GIANT, ..Opts::sizes(10, 40, 400, 3) });
    let ws: Vec<(RG, Any2)> = worlds(m).into_iter().map(|m| { let g = Any2::new(&m); (m, g) }).collect();
    ws.iter().for_each(|(m, g)| ev!("{} {}", g.kind(), m.show()));
    clients(range(1, 3), 3, || {
        let (m, g) = turn(&ws);
        let got = attempt("components", || any2!(g, x => x.components()));
        ok(check_components(m, &got));
    });
}

fn c15() {
    setup();
    let m = several_parts(Opts { loops: true, huge_ids: true, giant: GIANT, ..Opts::sizes(9, 30, 200, 3) });
    let ws: Vec<(RG, Any2)> = worlds(m).into_iter().map(|m| { let g = Any2::new(&m); (m, g) }).collect();
    ws.iter().for_each(|(m, g)| ev!("{} {}", g.kind(), m.show()));
    clients(range(1, 3), 3, || {
        let (m, g) = turn(&ws);
        let got = attempt("is_bipartite", || any2!(g, x => x.is_bipartite()));
        rt::count(if matches!(got, BipartiteWitness::OddCycle(_)) { "outcome.odd_cycle" } else { "outcome.bipartition" });
        ok(check_bipartite(m, &got));
    });
}

// ---- C16 --------------------------------------------------------------------------------------

/// Degrees around and beyond the point where buckets hold several degrees.
fn dense_graph() -> RG {
    rt::count("gen.high_degree");
    let n = range(129, 300) as usize;
    let mut r = Rng(rt::sub_seed());
    let mut g = RG::new();
    let shift = *pick(&[0u32, 1000]);
    for v in 0..n as V {
        g.add_v(v + shift);
    }
    let mut add = |a: usize, b: usize| {
        if a != b && a < n && b < n {
            g.add_e(a as V + shift, b as V + shift);
        }
    };
    match draw(5) {
        0 => {
            // random, dense
            let p = *pick(&[97u64, 80, 60, 100]);
            for i in 0..n {
                for j in i + 1..n {
                    if r.below(100) < p {
                        add(i, j);
                    }
                }
            }
        }
        1 => {
            // dense core with a sparse fringe
            let k = range(100, (n as u64).min(200)) as usize;
            for i in 0..k {
                for j in i + 1..k {
                    if r.below(100) < 96 {
                        add(i, j);
                    }
                }
            }
            for i in k..n {
                for _ in 0..1 + r.below(5) {
                    add(i, r.below(i as u64) as usize);
                }
            }
        }
        2 => {
            // complete bipartite: high degrees, small or large core
            let a = range(1, n as u64 - 1) as usize;
            for i in 0..a {
                for j in a..n {
                    if r.below(100) < 98 {
                        add(i, j);
                    }
                }
            }
        }
        3 => {
            // hubs over a sparse rest
            let h = range(1, 6) as usize;
            for i in 0..h {
                for j in 0..n {
                    if r.below(100) < 95 {
                        add(i, j);
                    }
                }
            }
            for _ in 0..n {
                add(r.below(n as u64) as usize, r.below(n as u64) as usize);
            }
        }
        _ => {
            // cliques of different sizes sharing vertices
            let (a, b) = (range(120, 170.min(n as u64)) as usize, range(60, 140.min(n as u64)) as usize);
            for i in 0..a {
                for j in i + 1..a {
                    add(i, j);
                }
            }
            for i in n - b..n {
                for j in i + 1..n {
                    add(i, j);
                }
            }
        }
    }
    g.obs();
    g
}

fn c16() {
    setup();
    let m = if chance(1, 40) { dense_graph() } else { graph(Opts { huge_ids: true, giant: GIANT, ..Opts::sizes(9, 35, 160, 3) }) };
    let big = m.n() > 60;
    let ws: Vec<(RG, AnyGraph)> = worlds(m).into_iter().map(|m| { let g = AnyGraph::new(&m); (m, g) }).collect();
    ws.iter().for_each(|(m, g)| ev!("{} {}", g.kind(), m.show()));
    clients(range(1, if big { 2 } else { 3 }), if big { 2 } else { 3 }, || {
        let (m, g) = turn(&ws);
        match weighted(&[4, 1, 1]) {
            0 => {
                let got = attempt("degeneracy", || any!(g, x => x.degeneracy()));
                ok(check_degeneracy(m, &got));
            }
            1 => {
                let o = attempt("by_degeneracy", || any!(g, x => OrdGraph::by_degeneracy(x)));
                ok(check_degen_order("graph ordered by degeneracy", m, &o.vertices().copied().collect::<Vec<_>>()));
            }
            _ => {
                let d = attempt("from_graph", || any!(g, x => DegenGraph::from_graph(x)));
                ok(check_degen_order("degeneracy graph", m, &d.vertices().copied().collect::<Vec<_>>()));
            }
        }
    });
}

/// One or two graphs of equal size, each in a drawn order and representation.
fn ordered_worlds(m: RG) -> Vec<(RG, Vec<V>, AnyOrd)> {
    let ws: Vec<_> = worlds(m)
        .into_iter()
        .map(|m| {
            let ord = order(&m);
            let g = AnyOrd::new(&m, &ord);
            (m, ord, g)
        })
        .collect();
    ws.iter().for_each(|(m, ord, g)| ev!("{} order {} of {}", g.kind(), show(&ord), m.show()));
    ws
}

// ---- C17 --------------------------------------------------------------------------------------

pub fn check_reachables<const D: usize>(what: &str, g: &ReachGraph<D>, m: &RG, ord: &[V], want: &Maps) -> Res {
    super::trav::check_reach(what, g, m, ord)?;
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let sh = || format!("order {} of {}", show(&ord), m.show());
    for (i, u) in ord.iter().enumerate() {
        let r = g.reachables(u);
        let mut all = vec![];
        for d in 1..=D {
            let mut w: Vec<V> = want[u].iter().filter(|(_, x)| **x as usize == d).map(|(v, _)| *v).collect();
            w.sort_by_key(|v| pos[v]);
            if r.at(d) != w {
                return Err(format!("{what}: reachables({u}).at({d}) is {} instead of {}; {}", show(&r.at(d)), show(&w), sh()));
            }
            all.extend(w);
        }
        if g.reachables_all(u) != all || r.len() != all.len() || r.is_empty() != all.is_empty() {
            return Err(format!("{what}: all reachables of {u} are {} (len {}) instead of {}; {}", show(&g.reachables_all(u)), r.len(), show(&all), sh()));
        }
        let next = g.next_reachables(u);
        let expect = ord.get(i + 1).map(|v| g.reachables(v));
        if next != expect {
            return Err(format!("{what}: next_reachables({u}) is {} instead of {}; {}", show(&next), show(&expect), sh()));
        }
    }
    let it: Vec<(V, usize)> = g.iter().map(|(u, r)| (u, r.len())).collect();
    let w: Vec<(V, usize)> = ord.iter().map(|u| (*u, want[u].len())).collect();
    if it != w {
        return Err(format!("{what}: iteration gives {} instead of {}; {}", show(&it), show(&w), sh()));
    }
    Ok(())
}

fn c17_compact<const D: usize>(o: &OrdGraph, m: &RG, ord: &[V], weak: bool) {
    if weak {
        let g = attempt("to_wreach_graph", || o.to_wreach_graph::<D>());
        let w = wreach(m, ord, D as u32);
        ok(no_panic("wreach graph", || check_reachables(&format!("wreach graph of depth {D}"), &g, m, ord, &w)));
    } else {
        let g = attempt("to_sreach_graph", || o.to_sreach_graph::<D>());
        let w = sreach(m, ord, D as u32);
        ok(no_panic("sreach graph", || check_reachables(&format!("sreach graph of depth {D}"), &g, m, ord, &w)));
    }
}

fn sizes_of(w: &Maps) -> BTreeMap<V, u32> {
    w.iter().map(|(v, x)| (*v, x.len() as u32)).collect()
}

fn c17() {
    setup();
    let m = graph(Opts { huge_ids: true, vast: 250, giant: GIANT, no_hubs: true, ..Opts::sizes(9, 20, 50, 2) });
    let giant = m.n() > 1000;
    let ws = ordered_worlds(m);
    clients(if giant { 1 } else { range(1, 3) }, if giant { 2 } else { 3 }, || {
        let (m, ord, g) = turn(&ws);
        let r = if giant { rt::radius(3).min(5) } else { rt::far_radius(5) };
        match weighted(&[3, 2, 3, 2, 2, 2, 5]) {
            0 => {
                let got = attempt("wreach_sets", || any_ord!(&g, x => x.wreach_sets(r)));
                ok(check_maps(&format!("wreach_sets({r})"), &m, &ord, &wreach(&m, &ord, r), &maps_of(&got)));
            }
            1 => {
                let got = attempt("wreach_sizes", || any_ord!(&g, x => x.wreach_sizes(r)));
                let w = sizes_of(&wreach(&m, &ord, r));
                if vmap(&got) != w {
                    ok(Err(format!("wreach_sizes({r}) gives {} instead of {}; order {} of {}", show(&vmap(&got)), show(&w), show(&ord), m.show())));
                }
                rt::checked();
            }
            2 => {
                let got = attempt("sreach_sets", || any_ord!(&g, x => x.sreach_sets(r)));
                ok(check_maps(&format!("sreach_sets({r})"), &m, &ord, &sreach(&m, &ord, r), &maps_of(&got)));
            }
            3 => {
                let got = attempt("sreach_sizes", || any_ord!(&g, x => x.sreach_sizes(r)));
                let w = sizes_of(&sreach(&m, &ord, r));
                if vmap(&got) != w {
                    ok(Err(format!("sreach_sizes({r}) gives {} instead of {}; order {} of {}", show(&vmap(&got)), show(&w), show(&ord), m.show())));
                }
                rt::checked();
            }
            4 if !ord.is_empty() => {
                let u = *pick(&ord);
                let got = attempt("sreach_set", || any_ord!(&g, x => x.sreach_set(&u, r)));
                let w = &sreach(&m, &ord, r)[&u];
                if vmap(&got) != *w {
                    ok(Err(format!("sreach_set({u},{r}) gives {} instead of {}; order {} of {}", show(&vmap(&got)), show(w), show(&ord), m.show())));
                }
                rt::checked();
            }
            5 if !ord.is_empty() => {
                let u = *pick(&ord);
                // (one layer per step up to the radius)
                let r = r.min(70000) - draw(2) as u32;
                let got = attempt("right_bfs", || any_ord!(&g, x => x.right_bfs(&u, r)));
                let got: Vec<Set> = got.iter().map(vset).collect();
                let p = ord.iter().position(|v| *v == u).unwrap();
                let right: Set = ord[p..].iter().copied().collect();
                let d = m.bfs(&[u], |v| right.contains(&v));
                let mut w: Vec<Set> = vec![Set::new(); r as usize + 1];
                d.iter().filter(|(_, x)| **x <= r).for_each(|(v, x)| drop(w[*x as usize].insert(*v)));
                if got != w {
                    ok(Err(format!("right_bfs({u},{r}) gives {} instead of {}; order {} of {}", show(&got), show(&w), show(&ord), m.show())));
                }
                rt::checked();
            }
            _ => {
                let own;
                let o = match &g {
                    AnyOrd::O(o) => o,
                    _ => {
                        own = swapped(&m, &ord, &SimGraph::new(&m));
                        &own
                    }
                };
                let weak = chance(1, 2);
                match draw(6) {
                    4 if chance(1, 2) => c17_compact::<9>(o, &m, &ord, weak),
                    5 => c17_compact::<6>(o, &m, &ord, weak),
                    0 => c17_compact::<1>(o, &m, &ord, weak),
                    1 => c17_compact::<2>(o, &m, &ord, weak),
                    2 => c17_compact::<3>(o, &m, &ord, weak),
                    3 => c17_compact::<4>(o, &m, &ord, weak),
                    _ => c17_compact::<5>(o, &m, &ord, weak),
                }
            }
        }
    });
}

// ---- C18 --------------------------------------------------------------------------------------

fn c18() {
    setup();
    let m = graph(Opts { huge_ids: true, vast: 400, giant: GIANT, no_hubs: true, ..Opts::sizes(10, 14, 26, 3) });
    let ws: Vec<_> = ordered_worlds(m)
        .into_iter()
        .map(|(m, ord, g)| {
            let compact = chance(1, 4).then(|| {
                let o = OrdGraph::with_ordering(&SimGraph::new(&m), ord.iter());
                (o.to_wreach_graph::<2>(), o.to_sreach_graph::<1>())
            });
            let want = max_cliques(&m);
            if m.n() <= 10 && max_cliques_subsets(&m) != want {
                rt::harness_error(format!("the two clique counters disagree on {}", m.show()));
            }
            (m, ord, g, compact, want)
        })
        .collect();
    clients(range(1, 3), 2, || {
        let (m, ord, g, compact, want) = turn(&ws);
        let (kind, got) = match compact {
            Some((w, _)) if chance(1, 4) => ("ReachGraph", attempt("count_max_cliques", || w.count_max_cliques())),
            Some((_, s)) if chance(1, 4) => ("ReachGraph", attempt("count_max_cliques", || s.count_max_cliques())),
            _ => (g.kind(), attempt("count_max_cliques", || any_ord!(&g, x => x.count_max_cliques()))),
        };
        ok(if got == *want { Ok(()) } else { Err(format!("{kind}: {got} maximal cliques instead of {want}; order {} of {}", show(&ord), m.show())) });
    });
}

// ---- C19, C20 ---------------------------------------------------------------------------------

fn target(m: &RG, max: u64) -> (Set, Vec<V>) {
    let t = subset(m, max);
    let mut v: Vec<V> = shuffled(&t.iter().copied().collect::<Vec<_>>(), rt::sub_seed());
    if !v.is_empty() && chance(1, 5) {
        v.push(v[0]);
    }
    obs_set(&t);
    (t, v)
}

fn c19() {
    setup();
    let m = graph(Opts { huge_ids: true, huge: 0, vast: 200, ..Opts::sizes(10, 40, 130, 4) });
    let big = m.n() > 40;
    let ws = ordered_worlds(m);
    clients(range(1, if big { 2 } else { 3 }), 2, || {
        let (m, ord, g) = turn(&ws);
        let _ = ord;
        let r = rt::far_radius(4);
        let witness = chance(1, 2);
        let (t, got) = match draw(4) {
            0 => (m.verts().into_iter().collect(), attempt("domset", || any_ord!(&g, x => x.domset(r, witness)))),
            k => {
                let (t, v) = target(&m, 400);
                let what = format!("domset_with_target {r} {witness} {}", show(&v));
                let got = attempt(&what, || match k {
                    1 => any_ord!(&g, x => x.domset_with_target(r, witness, v.iter())),
                    2 => any_ord!(&g, x => x.domset_with_target(r, witness, v.clone())),
                    _ => any_ord!(&g, x => x.domset_with_target(r, witness, items(v.clone()))),
                });
                (t, got)
            }
        };
        if witness {
            rt::count("outcome.witness");
        }
        ok(check_domset(&m, r, &t, witness, &got));
    });
}

fn c20() {
    setup();
    let m = if one_in(400) { dense_graph() } else { graph(Opts { huge_ids: true, huge: 0, vast: 200, ..Opts::sizes(10, 30, 90, 3) }) };
    let ws: Vec<_> = ordered_worlds(m)
        .into_iter()
        .map(|(m, ord, g)| {
            let compact = chance(1, 5).then(|| OrdGraph::with_ordering(&SimGraph::new(&m), ord.iter()).to_wreach_graph::<2>());
            (m, ord, g, compact)
        })
        .collect();
    clients(range(1, 3), 2, || {
        let (m, ord, g, compact) = turn(&ws);
        match (draw(5), compact) {
        (0, Some(w)) => {
            let got = attempt("colour_greedy on a reachability graph", || w.colour_greedy());
            ok(check_greedy(&m, &ord, &got));
        }
        (0 | 1, _) => {
            let got = attempt("colour_greedy", || any_ord!(&g, x => x.colour_greedy()));
            ok(check_greedy(&m, &ord, &got));
        }
        (k, _) => {
            let d = rt::far_radius(6);
            // (its cost grows with the third power of the target's size in a star)
            let (t, v) = target(&m, if m.n() > 200 { 70 } else { 400 });
            let what = format!("scattered_colouring {d} {}", show(&v));
            let got = attempt(&what, || match k {
                2 => any_ord!(&g, x => x.scattered_colouring(d, v.iter())),
                3 => any_ord!(&g, x => x.scattered_colouring(d, v.clone())),
                _ => any_ord!(&g, x => x.scattered_colouring(d, items(v.clone()))),
            });
            ok(check_scattered(&m, d, &t, &got));
        }
    }});
}

// ---- C23 --------------------------------------------------------------------------------------

/// A few inner vertices and outside vertices for (nearly) every subset of them.
fn shatter_graph() -> RG {
    // rarely more than 255 or 65535 outside vertices with the same trace
    let (k, mult) = if chance(1, 100) {
        rt::count("gen.vast");
        (range(1, 2) as u32, range(254, 300))
    } else if one_in(GIANT / 4) {
        rt::count("gen.giant");
        (1, range(65534, 66000))
    } else {
        (range(1, 4) as u32, range(1, 3))
    };
    let mut r = Rng(rt::sub_seed());
    let mut g = RG::new();
    for i in 0..k {
        g.add_v(i * 3);
    }
    let mut next = 20;
    for s in 0..1u32 << k {
        let c = if chance(1, 12) { mult.saturating_sub(1) } else { mult };
        for _ in 0..c {
            g.add_v(next);
            for i in 0..k {
                if s >> i & 1 == 1 {
                    g.add_e(next, i * 3);
                }
            }
            next += 1 + r.below(2) as V;
        }
    }
    let vs = g.verts();
    for _ in 0..draw(6) {
        let (a, b) = (*pick(&vs), *pick(&vs));
        if a != b && a >= 20 && b >= 20 {
            g.add_e(a, b);
        }
    }
    if chance(1, 3) {
        for i in 1..k {
            if chance(1, 2) {
                g.add_e(i * 3, 3 * draw(i as u64) as V);
            }
        }
    }
    g.adj.iter_mut().for_each(|(v, n)| drop(n.remove(v)));
    g.obs();
    g
}

/// Vertices with more than 64 neighbours to the left.
fn wide_graph() -> RG {
    rt::count("gen.wide_context");
    let n = if chance(1, 10) { range(250, 330) } else { range(60, 150) } as V;
    let mut g = RG::new();
    let mut r = Rng(rt::sub_seed());
    for i in 0..n {
        g.add_v(i);
    }
    for _ in 0..range(1, 5) {
        let c = n + draw(5) as V;
        for i in 0..n {
            if r.below(100) < 90 {
                g.add_e(c, i);
            }
        }
    }
    for _ in 0..n {
        let (a, b) = (r.below(n as u64) as V, r.below(n as u64) as V);
        if a != b {
            g.add_e(a, b);
        }
    }
    g.obs();
    g
}

fn query(m: &RG, ord: &[V]) -> Vec<V> {
    let s: Set = match draw(5) {
        0 => m.verts().into_iter().take(draw(5) as usize).collect(),
        1 if !ord.is_empty() => {
            // around one vertex
            let u = *pick(ord);
            let mut s: Set = m.adj[&u].iter().copied().take(range(1, 5) as usize).collect();
            if chance(1, 2) {
                s.insert(u);
            }
            s
        }
        2 => subset(m, 3),
        3 => subset(m, 8),
        _ => subset(m, 300),
    };
    obs_set(&s);
    ord.iter().copied().filter(|v| s.contains(v)).collect()
}

fn c23() {
    setup();
    let m = match weighted(&[10, 4, 1]) {
        0 => graph(Opts { huge_ids: true, vast: 300, ..Opts::sizes(10, 25, 80, 3) }),
        1 => shatter_graph(),
        _ => wide_graph(),
    };
    let ws: Vec<_> = worlds(m)
        .into_iter()
        .map(|m| {
            let src = AnyGraph::new(&m);
            let g = match draw(3) {
                // (a hub late in the order of a giant graph needs a quadratic number of steps)
                k if k == 0 || m.n() > 1000 => no_panic("from_graph", || any!(&src, x => DegenGraph::from_graph(x))),
                1 => no_panic("with_ordering", || any!(&src, x => DegenGraph::with_ordering(x, order(&m).iter()))),
                _ => swapped(&m, &order(&m), &SimGraph::new(&m)).to_degeneracy_graph(),
            };
            let ord: Vec<V> = g.vertices().copied().collect();
            rt::check(super::trav::check_degen("ordered graph", &g, &m, &ord), "wrong-graph");
            let oracle = no_panic("SReachTraceOracle::for_graph", || SReachTraceOracle::for_graph(&g));
            ev!("order {} of {}", show(&ord), m.show());
            (m, g, ord, oracle)
        })
        .collect();
    clients(range(1, 3), 6, || {
        let (m, g, ord, oracle) = turn(&ws);
        let inner = query(&m, &ord);
        let want = traces(&m, &inner);
        match weighted(&[3, 2, 2]) {
            0 => {
                ev!("compute_traces {}", show(&inner));
                let got = no_panic("compute_traces", || oracle.compute_traces(&inner, &g));
                rt::checked();
                // entries for traces that do not occur are allowed when they say zero
                let mut t: BTreeMap<Vec<V>, usize> = BTreeMap::new();
                for (k, v) in &got {
                    let mut k = k.clone();
                    k.sort_by_key(|x| inner.iter().position(|y| y == x));
                    if t.insert(k.clone(), *v).is_some() {
                        ok(Err(format!("trace {} listed twice for {}; order {} of {}", show(&k), show(&inner), show(&ord), m.show())));
                    }
                }
                t.retain(|_, v| *v != 0);
                if t != want {
                    ok(Err(format!("traces of {}: {} instead of {}; order {} of {}", show(&inner), show(&t), show(&want), show(&ord), m.show())));
                }
            }
            1 => {
                ev!("compute_neighbour_count {}", show(&inner));
                let got = no_panic("compute_neighbour_count", || oracle.compute_neighbour_count(&inner, &g));
                rt::checked();
                let w: usize = want.iter().filter(|(k, _)| !k.is_empty()).map(|(_, c)| c).sum();
                if got != w {
                    ok(Err(format!("neighbour count of {} is {got} instead of {w}; order {} of {}", show(&inner), show(&ord), m.show())));
                }
            }
            _ => {
                // small sets only: 2^k subsets have to occur
                // (now and then far more subsets than there are vertices, or numbers)
                let max = if one_in(8) { 140 } else { 4 };
                let s: Vec<V> = if inner.len() > max { inner[..max].to_vec() } else { inner };
                let want = traces(&m, &s);
                let k = s.len() as u32 + if one_in(8) { *pick(&[12u32, 31, 32, 33, 63, 64, 65, 128, 1 << 20, u32::MAX - 140]) } else { weighted(&[4, 2, 1]) as u32 };
                let arg = shuffled(&s, rt::sub_seed());
                ev!("is_shattered {} {k}", show(&arg));
                let got = no_panic("is_shattered", || match draw(2) {
                    0 => oracle.is_shattered(arg.iter(), k, &g),
                    _ => oracle.is_shattered(items(arg.clone()), k, &g),
                });
                rt::checked();
                let pow = |e: u32| 1usize.checked_shl(e).unwrap_or(usize::MAX);
                let w = want.len() == pow(s.len() as u32) && want.values().all(|c| *c >= pow(k - s.len() as u32));
                rt::count(if w { "outcome.shattered" } else { "outcome.not_shattered" });
                if got != w {
                    ok(Err(format!("is_shattered({},{k}) is {got}, the traces are {}; order {} of {}", show(&s), show(&want), show(&ord), m.show())));
                }
            }
        }
    });
}

const G: &str = "the algorithm, EditGraph, OrdGraph, DegenGraph (and ReachGraph where it applies), iterators; the graph is a stub (trait seam) when it presents itself in a drawn order or fails";
macro_rules! rule {
    ($s:literal) => {
        concat!($s, " 1-3 clients call on one shared graph under the scheduler; one call in six is preceded by an attempt that the graph cuts short. Hash seeds, presentation order, vertex order and history of construction are drawn. Non-trivial: a hash seed, order, switch or cancellation took effect and an answer was compared.")
    };
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", run: c14, quick: 100000, thorough: 600000, real: G, rule: rule!("components of drawn graphs (loops, up to 400, rarely 1600 vertices) against breadth-first search.") },
        Prop { id: "C15", run: c15, quick: 100000, thorough: 600000, real: G, rule: rule!("is_bipartite on drawn graphs (loops, up to 200, rarely 800 vertices): verdict against parity of distances, witness against its definition.") },
        Prop { id: "C16", run: c16, quick: 40000, thorough: 600000, real: G, rule: rule!("degeneracy of drawn graphs, one in forty with degrees of 129-300, against exact minimum-degree removal.") },
        Prop { id: "C17", run: c17, quick: 50000, thorough: 600000, real: G, rule: rule!("reachability sets, sizes, single sets, layers (r 1-5, rarely up to 30 or beyond every distance up to u32::MAX) and compact graphs (depth 1-9) of drawn graphs of up to 50 (rarely 340) vertices and any order against a search from the definition.") },
        Prop { id: "C18", run: c18, quick: 60000, thorough: 600000, real: G, rule: rule!("clique counts of drawn graphs of up to 26 (rarely, when sparse, 340) vertices against two independent counters.") },
        Prop { id: "C19", run: c19, quick: 40000, thorough: 600000, real: G, rule: rule!("dominating sets (r 1-4, rarely up to 24 or beyond every distance; any target) of drawn graphs of up to 130 (rarely 340) vertices against exact distances.") },
        Prop { id: "C20", run: c20, quick: 40000, thorough: 600000, real: G, rule: rule!("greedy and scattered colourings (distance 1-6, rarely up to 36 or beyond every distance; any target) of drawn graphs of up to 90 (rarely 340) vertices against exact distances.") },
        Prop { id: "C23", run: c23, quick: 50000, thorough: 600000, real: G, rule: rule!("query histories on one shared oracle over drawn, shattering and wide graphs of up to 340 vertices against direct counting.") },
    ]
}
