//! C21, C22: augmentations.

use crate::gen::*;
use crate::oracle::*;
use crate::rt::{self, chance, draw, one_in, pick, range, weighted};
use crate::sched::{no_panic, SimMutex};
use crate::Prop;
use graphbench::dtfgraph::{DTFGraph, DTFLayer};
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use std::collections::{BTreeMap, BTreeSet};

fn ok(r: Res) {
    rt::check(r, "wrong-answer")
}

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

type Arcs = BTreeMap<(V, V), usize>;

/// All arcs with their weights, as the augmentation presents them; everything else it says has to agree.
fn check_arcs(h: &DTFGraph, m: &RG, depth: usize) -> Result<Arcs, String> {
    let sh = || format!("augmentation of depth {depth} of {}", m.show());
    ensure!(h.get_depth() == depth, "depth {} instead of {depth}; {}", h.get_depth(), m.show());
    ensure!(h.num_vertices() == m.n(), "{} vertices: {}", h.num_vertices(), sh());
    let vs: Vec<V> = h.vertices().copied().collect();
    let mut sorted = vs.clone();
    sorted.sort();
    ensure!(sorted == m.verts(), "vertices {}: {}", show(&sorted), sh());
    let mut arcs = Arcs::new();
    let mut all: Vec<(V, V)> = vec![];
    for d in 1..=depth {
        let a: Vec<(V, V)> = h.arcs_at(d).collect();
        ensure!(a.len() == h.num_arcs_at_depth(d), "num_arcs_at_depth({d}) is {}, the traversal has {}: {}", h.num_arcs_at_depth(d), a.len(), sh());
        let mut by_node = BTreeSet::new();
        for v in &vs {
            for u in h.in_neighbours_at(v, d) {
                ensure!(by_node.insert((*u, *v)), "in-neighbour {u} of {v} at {d} listed twice: {}", sh());
            }
        }
        ensure!(a.iter().copied().collect::<BTreeSet<_>>() == by_node, "arcs at {d} are {} but the in-neighbours say {}: {}", show(&a), show(&by_node), sh());
        for (u, v) in a {
            ensure!(m.has_v(u) && m.has_v(v) && u != v, "arc {u}->{v}: {}", sh());
            ensure!(arcs.insert((u, v), d).is_none(), "arc {u}->{v} at {d} and an earlier weight: {}", sh());
            all.push((u, v));
        }
    }
    ensure!(h.num_arcs_at_depth(depth + 1) == 0, "arcs beyond the depth: {}", sh());
    let mut listed: Vec<(V, V)> = h.arcs().collect();
    listed.sort();
    all.sort();
    ensure!(listed == all, "arcs() gives {} instead of {}: {}", show(&listed), show(&all), sh());
    ensure!(h.num_edges() == m.m(), "num_edges {}: {}", h.num_edges(), sh());
    // weight one: an orientation of the graph
    for (u, v) in m.edges() {
        let k = [(u, v), (v, u)].iter().filter(|a| arcs.get(a) == Some(&1)).count();
        ensure!(k == 1, "edge {u}-{v} has {k} arcs of weight one: {}", sh());
    }
    let ones = arcs.values().filter(|d| **d == 1).count();
    ensure!(ones == m.m(), "{ones} arcs of weight one: {}", sh());
    let mut ins: BTreeMap<V, u32> = BTreeMap::new();
    let mut outs: BTreeMap<V, u32> = BTreeMap::new();
    for (u, v) in arcs.keys() {
        *outs.entry(*u).or_default() += 1;
        *ins.entry(*v).or_default() += 1;
    }
    for v in &vs {
        let (i, o) = (ins.get(v).copied().unwrap_or(0), outs.get(v).copied().unwrap_or(0));
        ensure!(
            h.in_degree(v) == i && h.out_degree(v) == o && Graph::degree(h, v) == i + o,
            "degrees of {v}: in {} out {} total {} instead of {i}, {o}: {}",
            h.in_degree(v), h.out_degree(v), Graph::degree(h, v), sh()
        );
        let w = vmap_fx(&h.in_neighbours_with_weights(v));
        let want: BTreeMap<V, u32> = arcs.iter().filter(|((_, y), _)| y == v).map(|((x, _), d)| (*x, *d as u32)).collect();
        ensure!(w == want, "in_neighbours_with_weights({v}) is {} instead of {}: {}", show(&w), show(&want), sh());
        let mut l: Vec<V> = h.in_neighbours(v).copied().collect();
        l.sort();
        ensure!(l == want.keys().copied().collect::<Vec<_>>(), "in_neighbours({v}) is {} instead of {}: {}", show(&l), show(&want), sh());
    }
    let pairs: Vec<(V, V)> = if vs.len() <= 12 {
        vs.iter().flat_map(|u| vs.iter().map(move |v| (*u, *v))).collect()
    } else {
        (0..60).map(|_| (*pick(&vs), *pick(&vs))).chain(arcs.keys().copied().take(100)).collect()
    };
    for (u, v) in pairs {
        let d = arcs.get(&(u, v)).copied();
        ensure!(h.has_arc(&u, &v) == d.is_some(), "has_arc({u},{v}) is {}: {}", h.has_arc(&u, &v), sh());
        ensure!(h.get_arc_depth(&u, &v) == d.map(|x| x as u32), "get_arc_depth({u},{v}) is {:?} instead of {d:?}: {}", h.get_arc_depth(&u, &v), sh());
        ensure!(h.adjacent(&u, &v) == (d.is_some() || arcs.contains_key(&(v, u))), "adjacent({u},{v}) is {}: {}", h.adjacent(&u, &v), sh());
        for k in 1..=depth + 1 {
            ensure!(h.has_arc_at(&u, &v, k) == (d == Some(k)), "has_arc_at({u},{v},{k}) is {}: {}", h.has_arc_at(&u, &v, k), sh());
        }
    }
    let mut x = draw(40) as V;
    while m.has_v(x) {
        x += 1;
    }
    ensure!(!h.contains(&x) && !h.has_arc(&x, &x), "absent {x} is present: {}", sh());
    Ok(arcs)
}

fn vmap_fx<S: std::hash::BuildHasher>(m: &std::collections::HashMap<V, u32, S>) -> BTreeMap<V, u32> {
    m.iter().map(|(a, b)| (*a, *b)).collect()
}

fn check_distances(h: &DTFGraph, m: &RG, depth: usize) -> Res {
    let vs = m.verts();
    let from: Vec<V> = if vs.len() <= 40 { vs.clone() } else { (0..20).map(|_| *pick(&vs)).collect() };
    for u in from {
        let d = m.bfs(&[u], |_| true);
        for v in &vs {
            let want = d.get(v).copied().filter(|x| *x as usize <= depth);
            let got = h.small_distance(&u, v);
            ensure!(got == want, "small_distance({u},{v}) is {got:?} instead of {want:?} at depth {depth} of {}", m.show());
        }
    }
    Ok(())
}

fn check_weights(arcs: &Arcs, m: &RG, depth: usize) -> Res {
    for ((u, v), w) in arcs.iter().take(300) {
        let d = dist(m, *u, *v);
        ensure!(d.map_or(false, |d| d as usize <= *w), "arc {u}->{v} has weight {w}, their distance is {d:?}; depth {depth} of {}", m.show());
    }
    Ok(())
}

fn check_layer(l: &DTFLayer, arcs: &Arcs, m: &RG, d: usize) -> Res {
    let sh = || format!("layer {d} of an augmentation of {}", m.show());
    let want: Vec<(V, V)> = arcs.iter().filter(|(_, w)| **w == d).map(|(a, _)| *a).collect();
    ensure!(l.num_edges() == want.len() && l.num_vertices() == m.n(), "num_edges {} num_vertices {}: {}", l.num_edges(), l.num_vertices(), sh());
    let mut vs: Vec<V> = l.vertices().copied().collect();
    vs.sort();
    ensure!(vs == m.verts(), "vertices {}: {}", show(&vs), sh());
    for v in &vs {
        let mut i: Vec<V> = l.in_neighbours(v).copied().collect();
        i.sort();
        let w: Vec<V> = want.iter().filter(|a| a.1 == *v).map(|a| a.0).collect();
        let out = want.iter().filter(|a| a.0 == *v).count();
        ensure!(i == w, "in-neighbours of {v}: {} instead of {}: {}", show(&i), show(&w), sh());
        ensure!(l.in_degree(v) as usize == w.len() && l.out_degree(v) as usize == out, "degrees of {v}: in {} out {} instead of {} {out}: {}", l.in_degree(v), l.out_degree(v), w.len(), sh());
        ensure!(Graph::degree(l, v) as usize == w.len() + out, "degree of {v}: {}: {}", Graph::degree(l, v), sh());
    }
    for (u, v) in arcs.keys().copied().take(60).chain((0..if vs.is_empty() { 0 } else { 10 }).map(|_| (*pick(&vs), *pick(&vs)))) {
        let has = |u, v| arcs.get(&(u, v)) == Some(&d);
        ensure!(l.has_arc(&u, &v) == has(u, v), "has_arc({u},{v}) is {}: {}", l.has_arc(&u, &v), sh());
        ensure!(l.adjacent(&u, &v) == (has(u, v) || has(v, u)), "adjacent({u},{v}) is {}: {}", l.adjacent(&u, &v), sh());
    }
    Ok(())
}

struct Slot {
    h: DTFGraph,
    m: RG,
    depth: usize,
}

fn check_all(s: &Slot) -> Res {
    let arcs = check_arcs(&s.h, &s.m, s.depth)?;
    check_weights(&arcs, &s.m, s.depth)?;
    check_distances(&s.h, &s.m, s.depth)
}

fn dominates(m: &RG, r: u32, got: &Set, depth: usize) -> Res {
    for x in got {
        ensure!(m.has_v(*x), "dominating set contains {x}, not a vertex of {}", m.show());
    }
    let d = m.bfs(&got.iter().copied().collect::<Vec<_>>(), |_| true);
    for v in m.verts() {
        ensure!(d.get(&v).map_or(false, |x| *x <= r), "{v} is at distance {:?} from the {r}-dominating set {}; depth was {depth}; {}", d.get(&v), show(got), m.show());
    }
    Ok(())
}

fn start(m: &RG) -> DTFGraph {
    let src = AnyGraph::new(m);
    match draw(4) {
        0 => {
            let d = draw(5) as usize;
            attempt(&format!("orient_deep {d} {}", src.kind()), || any!(&src, x => DTFGraph::orient_deep(x, d)))
        }
        _ => attempt(&format!("orient {}", src.kind()), || any!(&src, x => DTFGraph::orient(x))),
    }
}

/// How deep it is reasonable to go.
fn limit(m: &RG) -> u64 {
    match m.n() {
        // paths, trees and cycles
        n if m.m() <= n + 1 && n <= 24 => 9,
        0..=14 => 6,
        15..=30 => 4,
        _ => 3,
    }
}

fn op(s: &mut Slot, doms: bool) {
    let lim = limit(&s.m);
    match weighted(&[4, 2, 2, 1, 1, 1, if doms { 12 } else { 1 }]) {
        0 => {
            let (d, f) = (draw(lim + 1) as usize, draw(4) as usize);
            ev!("augment {d} look-ahead {f} at depth {}", s.depth);
            no_panic("augment", || s.h.augment(d, f));
            s.depth = s.depth.max(d);
            rt::count("op.augment");
            if !doms {
                ok(no_panic("queries", || check_all(s)));
            }
        }
        1 => {
            let d = range(1, lim + 1) as usize;
            ev!("layer {d} at depth {}", s.depth);
            let arcs = no_panic("queries", || check_arcs(&s.h, &s.m, s.depth));
            match arcs {
                Err(e) => ok(Err(e)),
                Ok(a) => {
                    let r = no_panic("layer", || {
                        let l = s.h.layer(d);
                        check_layer(&l, &a, &s.m, d)
                    });
                    ok(r);
                }
            }
        }
        2 => ok(no_panic("queries", || check_all(s))),
        3 => {
            // arcs that are there already
            let e = s.m.edges();
            if !e.is_empty() {
                let (u, v) = *pick(&e);
                let (u, v) = if s.h.has_arc_at(&u, &v, 1) { (u, v) } else { (v, u) };
                ev!("add_arc {u} {v} again");
                no_panic("add_arc", || s.h.add_arc(&u, &v, 1));
            }
        }
        4 => {
            let v = if chance(1, 2) && s.m.n() > 0 { *pick(&s.m.verts()) } else { draw(60) as V };
            ev!("add_vertex {v}");
            no_panic("add_vertex", || s.h.add_vertex(v));
            s.m.add_v(v);
        }
        5 => {
            if s.depth == 1 && s.m.n() > 1 {
                let vs = s.m.verts();
                let (u, v) = (*pick(&vs), *pick(&vs));
                if u != v && !s.m.has_e(u, v) {
                    ev!("add_arc {u} {v}");
                    no_panic("add_arc", || s.h.add_arc(&u, &v, 1));
                    s.m.add_e(u, v);
                }
            } else {
                ev!("to_undirected");
                let g: EditGraph = no_panic("to_undirected", || s.h.to_undirected());
                let mut w = RG::new();
                s.m.verts().into_iter().for_each(|v| drop(w.add_v(v)));
                s.h.arcs().for_each(|(u, v)| drop(w.add_e(u, v)));
                ok(check_graph("to_undirected", &g, &w));
            }
        }
        _ => {
            let r = range(1, lim) as u32;
            ev!("domset {r} at depth {}", s.depth);
            let got = no_panic("domset", || s.h.domset(r));
            let before = s.depth;
            s.depth = s.depth.max(r as usize);
            ok(dominates(&s.m, r, &vset(&got), before));
        }
    }
}

fn history(doms: bool, o: Opts) -> Vec<Slot> {
    let m = graph(o);
    ev!("graph {}", m.show());
    let slots: Vec<SimMutex<Slot>> = (0..range(1, 2))
        .map(|i| {
            let m = if i == 1 && chance(1, 2) { sibling(&m) } else { m.clone() };
            SimMutex::new(Slot { h: start(&m), m, depth: 1 })
        })
        .collect();
    let ops = if m.n() > 30 { 2 } else { *pick(&[4u64, 2, 8]) };
    clients(range(1, 2), ops, || pick(&slots).with(|s| op(s, doms)));
    slots.into_iter().map(|s| s.into_inner()).collect()
}

fn c21() {
    setup();
    let slots = history(false, Opts { huge_ids: true, huge: 0, vast: 300, ..Opts::sizes(9, 22, 60, 2) });
    for s in &slots {
        ok(no_panic("queries", || check_all(s)));
    }
    // readers on the finished augmentations
    clients(range(1, 3), 3, || {
        let s = pick(&slots);
        match draw(4) {
            0 => ok(no_panic("queries", || check_all(s))),
            1 => ok(no_panic("small_distance", || check_distances(&s.h, &s.m, s.depth))),
            2 => {
                let d = range(1, s.depth as u64 + 1) as usize;
                ok(no_panic("layer", || check_layer(&DTFLayer::new(&s.h, d), &check_arcs(&s.h, &s.m, s.depth)?, &s.m, d)));
            }
            _ => {
                // a subgraph of the orientation
                let e = s.m.edges();
                let keep: Vec<(V, V)> = e.iter().copied().filter(|_| chance(1, 2)).collect();
                let sub = no_panic("edge_subgraph", || if s.depth == 1 { Some(s.h.edge_subgraph(items(keep.clone()))) } else { None });
                if let Some(sub) = sub {
                    let mut w = RG::new();
                    s.m.verts().into_iter().for_each(|v| drop(w.add_v(v)));
                    keep.iter().for_each(|(u, v)| drop(w.add_e(*u, *v)));
                    ok(no_panic("queries", || check_arcs(&sub, &w, 1).map(|_| ())));
                    for (u, v) in sub.arcs() {
                        ok(if s.h.has_arc_at(&u, &v, 1) { Ok(()) } else { Err(format!("edge_subgraph turned the arc {u}->{v}; {}", s.m.show())) });
                    }
                }
            }
        }
    });
}

fn c22() {
    setup();
    let slots = history(true, Opts { huge_ids: true, huge: 0, vast: 300, ..Opts::sizes(12, 40, 120, 4) });
    for mut s in slots {
        // (the time grows with the square of the radius)
        let r = match s.m.n() {
            0 if chance(1, 2) => *pick(&[255u32, 32767, 32768, 65535, 65536]),
            0..=4 if one_in(40) => range(100, 300) as u32,
            1 if one_in(100) => range(1000, 3000) as u32,
            _ => range(1, limit(&s.m)) as u32,
        };
        ev!("domset {r} at the end, depth {}", s.depth);
        let got = no_panic("domset", || s.h.domset(r));
        ok(dominates(&s.m, r, &vset(&got), s.depth));
        let r = r.min(9);
        // shrinking radii on the same augmentation
        for r in (1..=r).rev() {
            let got = no_panic("domset", || s.h.domset(r));
            ok(dominates(&s.m, r, &vset(&got), s.depth));
        }
    }
}

const G: &str = "DTFGraph, DTFLayer, DTFNode, their iterators, EditGraph, degeneracy; the source graph is a stub (trait seam) when it presents itself in a drawn order or fails";

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", run: c21, quick: 16000, thorough: 200000, real: G,
            rule: "histories of augment (depth 0-6, up to 9 on sparse graphs, look-ahead 0-3), layer, add_vertex, add_arc, domset on 1-2 augmentations of drawn graphs of up to 60 vertices by 1-2 clients, then 1-3 concurrent readers; every arc, weight, degree, count and distance against breadth-first search. Orientation attempts are cut short by a failing source. Non-trivial: a hash seed, order, switch or cancellation took effect and an answer was compared." },
        Prop { id: "C22", run: c22, quick: 28000, thorough: 200000, real: G,
            rule: "as C21 with dominating sets of growing and shrinking radii (1-9) on graphs of up to 120 vertices, each against exact distances." },
    ]
}
