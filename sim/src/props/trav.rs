//! C11-C13: operations, traversals, ordered graphs.

use crate::gen::*;
use crate::oracle::*;
use crate::rt::{self, chance, draw, one_in, pick, range, weighted, Rng};
use crate::sched::{no_panic, SimMutex};
use crate::Prop;
use graphbench::degengraph::DegenGraph;
use graphbench::dtfgraph::DTFGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::operations::GraphOperations;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::ReachGraph;
use std::collections::{BTreeMap, BTreeSet};

// ---- C11 --------------------------------------------------------------------------------------

enum Pair {
    E(EditGraph, EditGraph),
    S(SimGraph, SimGraph),
    O(OrdGraph, OrdGraph),
    D(DegenGraph, DegenGraph),
}
macro_rules! pair {
    ($p:expr, $a:ident, $b:ident => $body:expr) => {
        match $p {
            Pair::E($a, $b) => $body,
            Pair::S($a, $b) => $body,
            Pair::O($a, $b) => $body,
            Pair::D($a, $b) => $body,
        }
    };
}

/// A graph that shares part of its vertices and edges with `g`.
fn related(g: &RG, max: u64) -> RG {
    let mut r = Rng(rt::sub_seed());
    let keep_v = *pick(&[70u64, 100, 30, 0]);
    let keep_e = *pick(&[60u64, 100, 20]);
    let mut h = RG::new();
    for v in g.verts() {
        if r.below(100) < keep_v {
            h.add_v(v);
        }
    }
    for (u, v) in g.edges() {
        if h.has_v(u) && h.has_v(v) && r.below(100) < keep_e {
            h.add_e(u, v);
        }
    }
    let top = g.verts().last().copied().unwrap_or(0);
    for _ in 0..draw(max) {
        let (a, b) = (r.below(top as u64 + 8) as V, r.below(top as u64 + 8) as V);
        if a != b && (h.n() as u64) < max {
            h.add_e(a, b);
        }
    }
    if chance(1, 3) {
        h.add_v(r.below(top as u64 + 8) as V);
    }
    h.obs();
    h
}

fn check_subdivision(g: &RG, times: u32, res: &EditGraph) -> Res {
    let r = read_graph(res)?;
    let sh = || format!("subdivide({times}) of {} gives {}", g.show(), r.show());
    if r.n() != g.n() + g.m() * times as usize || r.m() != g.m() * (times as usize + 1) {
        return Err(format!("wrong number of vertices or edges: {}", sh()));
    }
    if let Some(v) = g.verts().iter().find(|v| !r.has_v(**v)) {
        return Err(format!("original vertex {v} missing: {}", sh()));
    }
    if r.has_loop() {
        return Err(format!("loop: {}", sh()));
    }
    let mut ends: BTreeMap<(V, V), usize> = BTreeMap::new();
    let mut used = Set::new();
    for u in g.verts() {
        for &x in &r.adj[&u] {
            let (mut prev, mut cur, mut inner) = (u, x, 0u32);
            while !g.has_v(cur) {
                if r.adj[&cur].len() != 2 {
                    return Err(format!("inner vertex {cur} has degree {}: {}", r.adj[&cur].len(), sh()));
                }
                used.insert(cur);
                inner += 1;
                let next = *r.adj[&cur].iter().find(|y| **y != prev).unwrap_or(&prev);
                prev = cur;
                cur = next;
                if inner > times {
                    break;
                }
            }
            if inner != times {
                return Err(format!("the path from {u} over {x} has {inner} or more inner vertices: {}", sh()));
            }
            *ends.entry((u, cur)).or_default() += 1;
        }
    }
    if used.len() != g.m() * times as usize {
        return Err(format!("inner vertices are shared or unused: {}", sh()));
    }
    for (u, v) in g.edges() {
        if ends.get(&(u, v)) != Some(&1) || ends.get(&(v, u)) != Some(&1) {
            return Err(format!("edge {u}-{v} is not replaced by exactly one path: {}", sh()));
        }
    }
    Ok(())
}

fn check_product(what: &str, a: &RG, b: &RG, res: &EditGraph, map: &VertexMap<(V, V)>, lexicographic: bool) -> Res {
    let sh = || format!("{what} of {} and {}", a.show(), b.show());
    let map: BTreeMap<V, (V, V)> = map.iter().map(|(k, v)| (*k, *v)).collect();
    let back: BTreeMap<(V, V), V> = map.iter().map(|(k, v)| (*v, *k)).collect();
    if map.len() != back.len() {
        return Err(format!("two vertices stand for the same pair: {}", sh()));
    }
    let pairs: BTreeSet<(V, V)> = a.verts().into_iter().flat_map(|u| b.verts().into_iter().map(move |v| (u, v))).collect();
    if back.keys().copied().collect::<BTreeSet<_>>() != pairs {
        return Err(format!("the map does not name every pair: {}", sh()));
    }
    let mut want = RG::new();
    let p: Vec<(V, V)> = pairs.into_iter().collect();
    for x in &p {
        want.add_v(back[x]);
    }
    for (u, v) in &p {
        let x = back[&(*u, *v)];
        for w in &b.adj[v] {
            if lexicographic {
                a.verts().iter().for_each(|t| drop(want.add_e(x, back[&(*t, *w)])));
            } else {
                want.add_e(x, back[&(*u, *w)]);
            }
        }
        for w in &a.adj[u] {
            want.add_e(x, back[&(*w, *v)]);
        }
    }
    want.obs();
    check_graph(&sh(), res, &want)
}

fn c11() {
    setup();
    let prod = chance(2, 5);
    let o = Opts { huge_ids: true, ..if prod { Opts { huge: 0, ..Opts::sizes(5, 8, 12, 4) } } else { Opts { vast: 200, ..Opts::sizes(8, 25, 70, 2) } } };
    // a product with an operand of some size
    let long = prod && one_in(150);
    let mut a = if long { graph(Opts { vast: 1, huge_ids: true, ..Opts::small(5) }) } else { graph(o) };
    let mut b = if long { graph(Opts::small(4)) } else if chance(2, 3) { related(&a, if prod { 10 } else { 20 }) } else { graph(o) };
    if chance(1, 8) {
        std::mem::swap(&mut a, &mut b);
    }
    let p = match draw(5) {
        0 | 1 => Pair::E(edit_graph(&a), edit_graph(&b)),
        2 => Pair::O(OrdGraph::with_ordering(&SimGraph::new(&a), order(&a).iter()), OrdGraph::with_ordering(&SimGraph::new(&b), order(&b).iter())),
        3 => Pair::D(DegenGraph::with_ordering(&SimGraph::new(&a), order(&a).iter()), DegenGraph::with_ordering(&SimGraph::new(&b), order(&b).iter())),
        _ => Pair::S(SimGraph::new(&a), SimGraph::new(&b)),
    };
    // one object as both operands
    let same = !long && chance(1, 10);
    ev!("operands {} and {}", a.show(), if same { "itself".into() } else { b.show() });
    let (pr, ar, br) = (&p, &a, if same { &a } else { &b });
    clients(range(1, 3), if prod { 2 } else { 4 }, move || {
        if prod {
            if long || chance(1, 2) {
                let (g, m) = attempt("cartesian_product", || pair!(pr, x, y => x.cartesian_product(if same { x } else { y })));
                rt::check(no_panic("product", || check_product("cartesian product", ar, br, &g, &m, false)), "wrong-graph");
            } else {
                let (g, m) = attempt("lexicographic_product", || pair!(pr, x, y => x.lexicographic_product(if same { x } else { y })));
                rt::check(no_panic("product", || check_product("lexicographic product", ar, br, &g, &m, true)), "wrong-graph");
            }
            return;
        }
        let mut w = RG::new();
        let (what, g) = match draw(4) {
            0 => {
                let vs = ar.verts();
                for (i, u) in vs.iter().enumerate() {
                    w.add_v(*u);
                    for v in &vs[i + 1..] {
                        if !ar.has_e(*u, *v) {
                            w.add_e(*u, *v);
                        }
                    }
                }
                ("complement", attempt("invert", || pair!(pr, x, _y => x.invert())))
            }
            1 => {
                for g in [ar, br] {
                    g.verts().iter().for_each(|v| drop(w.add_v(*v)));
                    g.edges().iter().for_each(|(u, v)| drop(w.add_e(*u, *v)));
                }
                ("union", attempt("merge", || pair!(pr, x, y => x.merge(if same { x } else { y }))))
            }
            2 => {
                ar.verts().iter().filter(|v| br.has_v(**v)).for_each(|v| drop(w.add_v(*v)));
                ar.edges().iter().filter(|(u, v)| br.has_e(*u, *v)).for_each(|(u, v)| drop(w.add_e(*u, *v)));
                ("intersection", attempt("intersect", || pair!(pr, x, y => x.intersect(if same { x } else { y }))))
            }
            _ => {
                let t = if one_in(40) && ar.m() < 40 { range(5, 400) } else { draw(5) } as u32;
                let g = attempt("subdivide", || pair!(pr, x, _y => x.subdivide(t)));
                rt::check(no_panic("subdivide", || check_subdivision(ar, t, &g)), "wrong-graph");
                return;
            }
        };
        w.obs();
        rt::check(
            no_panic(what, || check_graph(what, &g, &w)).map_err(|e| format!("{e}; operands {} and {}", ar.show(), br.show())),
            "wrong-graph",
        );
    });
    pair!(&p, x, y => {
        rt::check(no_panic("operand", || check_graph("operand afterwards", x, &a)), "operand-changed");
        rt::check(no_panic("operand", || check_graph("operand afterwards", y, &b)), "operand-changed");
    });
}

// ---- C12 --------------------------------------------------------------------------------------

type VIter<'a> = Box<dyn Iterator<Item = &'a V> + 'a>;
enum Item<'a> {
    V(V),
    P(V, V),
    N(V, VIter<'a>),
    L(V, Vec<V>),
}
type El = (u8, V, V);
fn v(u: V) -> El {
    (0, u, 0)
}
fn p(u: V, v: V) -> El {
    (1, u, v)
}
fn head(u: V) -> El {
    (2, u, 0)
}
fn nb(u: V, x: V) -> El {
    (3, u, x)
}
fn name(e: &El) -> String {
    match e.0 {
        0 => format!("vertex {}", e.1),
        1 => format!("pair ({},{})", e.1, e.2),
        2 => format!("the entry of vertex {}", e.1),
        _ => format!("{} in the entry of {}", e.2, e.1),
    }
}

/// A traversal behind a pointer that still reaches every method the iterator itself has, which
/// `Box<dyn Iterator>` does not.
trait Feed<'a> {
    fn next(&mut self) -> Option<Item<'a>>;
    fn nth(&mut self, k: usize) -> Option<Item<'a>>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Item<'a>>;
    fn fold(self: Box<Self>) -> Vec<Item<'a>>;
    fn collect(self: Box<Self>) -> Vec<Item<'a>>;
    fn for_each(self: Box<Self>) -> Vec<Item<'a>>;
    fn some(&mut self, k: usize) -> Vec<Item<'a>>;
    fn hint(&self) -> (usize, Option<usize>);
}

struct Conv<I, F>(I, F);

impl<'a, I: Iterator, F: FnMut(I::Item) -> Item<'a>> Feed<'a> for Conv<I, F> {
    fn next(&mut self) -> Option<Item<'a>> {
        self.0.next().map(&mut self.1)
    }
    fn nth(&mut self, k: usize) -> Option<Item<'a>> {
        self.0.nth(k).map(&mut self.1)
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(mut self: Box<Self>) -> Option<Item<'a>> {
        self.0.last().map(&mut self.1)
    }
    fn fold(mut self: Box<Self>) -> Vec<Item<'a>> {
        self.0.fold(vec![], |mut l, x| {
            l.push(self.1(x));
            l
        })
    }
    fn collect(self: Box<Self>) -> Vec<Item<'a>> {
        let l: Vec<I::Item> = self.0.collect();
        l.into_iter().map(self.1).collect()
    }
    fn for_each(mut self: Box<Self>) -> Vec<Item<'a>> {
        let mut l = vec![];
        self.0.for_each(|x| l.push(self.1(x)));
        l
    }
    fn some(&mut self, k: usize) -> Vec<Item<'a>> {
        let mut l = vec![];
        self.0.all(|x| {
            l.push(self.1(x));
            l.len() < k
        });
        l
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

fn feed<'a, I: Iterator + 'a>(it: I, f: impl FnMut(I::Item) -> Item<'a> + 'a) -> Box<dyn Feed<'a> + 'a> {
    Box::new(Conv(it, f))
}

struct Trav<'a> {
    what: String,
    it: Box<dyn Feed<'a> + 'a>,
    done: bool,
    /// Elements passed over with `nth`, whose identity the traversal did not show.
    skipped: usize,
    nested: Vec<(V, VIter<'a>)>,
    got: BTreeSet<El>,
    want: BTreeSet<El>,
}

impl<'a> Trav<'a> {
    fn take(&mut self, e: El) {
        rt::checked();
        if !self.want.contains(&e) {
            rt::fail("wrong-element", format!("{}: yields {}, not one of the {} expected elements {}", self.what, name(&e), self.want.len(), show(&self.want)));
        }
        if !self.got.insert(e) {
            rt::fail("repeated", format!("{}: yields {} twice", self.what, name(&e)));
        }
    }
    fn accept(&mut self, i: Option<Item<'a>>) {
        match i {
            None => self.done = true,
            Some(Item::V(u)) => self.take(v(u)),
            Some(Item::P(a, b)) => self.take(p(a, b)),
            Some(Item::N(u, it)) => {
                self.take(head(u));
                self.nested.push((u, it));
            }
            Some(Item::L(u, l)) => {
                self.take(head(u));
                for x in l {
                    self.take(nb(u, x));
                }
            }
        }
    }
    fn over(&self) -> bool {
        self.done && self.nested.is_empty()
    }
    fn step(&mut self) {
        if self.want.len() > 3000 {
            // long ones advance by many elements at a time
            for _ in 0..2000 {
                if let Some((u, mut it)) = self.nested.pop() {
                    while let Some(x) = it.next() {
                        self.take(nb(u, *x));
                    }
                } else if !self.done {
                    let n = self.it.next();
                    self.accept(n);
                }
            }
            if !self.done && chance(1, 24) {
                self.skip(range(0, 6) as usize);
            }
        } else if !self.nested.is_empty() && (self.done || chance(1, 2)) {
            let i = if self.nested.len() > 1 { draw(self.nested.len() as u64) as usize } else { 0 };
            let u = self.nested[i].0;
            match self.nested[i].1.next().copied() {
                Some(x) => self.take(nb(u, x)),
                None => drop(self.nested.swap_remove(i)),
            }
        } else if !self.done {
            if chance(1, 24) {
                self.skip(range(0, 6) as usize);
            } else {
                let n = self.it.next();
                self.accept(n);
            }
        }
        if self.over() {
            self.finish();
        }
    }
    /// Elements of the traversal itself that it has neither shown nor passed over.
    fn left(&self) -> usize {
        self.want.iter().filter(|e| e.0 != nb(0, 0).0 && !self.got.contains(e)).count().saturating_sub(self.skipped)
    }
    /// The announced number of remaining elements includes the real one.
    fn hint(&self, left: usize) {
        rt::checked();
        let (lo, hi) = self.it.hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            rt::fail("count", format!("{}: announces {lo} to {hi:?} elements although {left} are left", self.what));
        }
    }
    /// The next few elements in one call.
    fn some(&mut self, k: usize) {
        let l = self.it.some(k);
        self.done = l.len() < k;
        for i in l {
            self.accept(Some(i));
        }
    }
    fn skip(&mut self, k: usize) {
        let left = self.left();
        self.hint(left);
        if chance(1, 3) {
            return self.some(k + 1);
        }
        match self.it.nth(k) {
            Some(i) => {
                rt::checked();
                if left <= k {
                    rt::fail("repeated", format!("{}: yields another element after {k} more although only {left} were left", self.what));
                }
                self.skipped += k;
                self.accept(Some(i));
            }
            None => {
                rt::checked();
                if left > k {
                    rt::fail("missing", format!("{}: ends within {k} elements although {left} were left", self.what));
                }
                self.skipped += left;
                self.done = true;
            }
        }
    }
    /// Consumes what is left in one call.
    fn rest(mut self) {
        if self.done {
            return;
        }
        let left = self.left();
        self.hint(left);
        let it = std::mem::replace(&mut self.it, feed(std::iter::empty::<V>(), Item::V));
        rt::checked();
        match draw(5) {
            0 => {
                let c = no_panic("count", || it.count());
                if c != left {
                    rt::fail("count", format!("{}: {c} elements left instead of {left}", self.what));
                }
                return;
            }
            1 => {
                let l = no_panic("last", || it.last());
                if l.is_some() != (left > 0) {
                    rt::fail("count", format!("{}: last element of {left} is {}", self.what, if l.is_some() { "some" } else { "none" }));
                }
                self.skipped += left.saturating_sub(1);
                self.accept(l);
                self.done = true;
            }
            k => {
                let l = match k {
                    2 => no_panic("fold", || it.fold()),
                    3 => no_panic("collect", || it.collect()),
                    _ => no_panic("for_each", || it.for_each()),
                };
                for i in l {
                    self.accept(Some(i));
                }
                self.done = true;
            }
        }
        no_panic("traversal", || {
            while !self.over() {
                self.step()
            }
            self.finish()
        });
    }
    fn finish(&self) {
        rt::checked();
        let miss: Vec<&El> = self.want.difference(&self.got).filter(|e| e.0 != nb(0, 0).0).collect();
        if miss.len() > self.skipped {
            let m: Vec<String> = miss.iter().take(5).map(|e| name(e)).collect();
            let sk = if self.skipped > 0 { format!(" ({} passed over)", self.skipped) } else { String::new() };
            rt::fail("missing", format!("{}: never yields {}{sk}; expected {}", self.what, m.join(", "), show(&self.want)));
        }
        if miss.len() < self.skipped {
            rt::fail("repeated", format!("{}: {} elements were passed over but only {} are not shown", self.what, self.skipped, miss.len()));
        }
        for e in self.want.difference(&self.got).filter(|e| e.0 == nb(0, 0).0) {
            if self.got.contains(&head(e.1)) {
                rt::fail("missing", format!("{}: never yields {}; expected {}", self.what, name(e), show(&self.want)));
            }
        }
    }
}

enum Src {
    Any(AnyGraph),
    Di(EditDigraph, RD),
    Ord(AnyOrd, Vec<V>),
    Dtf(DTFGraph),
    Reach(ReachGraph<2>, Vec<V>),
}

fn und(g: &RG) -> BTreeSet<El> {
    g.adj.iter().flat_map(|(u, n)| std::iter::once(head(*u)).chain(n.iter().map(move |x| nb(*u, *x)))).collect()
}

fn generic<'a, G: Graph>(g: &'a G, m: &RG, kind: &str) -> Trav<'a> {
    let verts: BTreeSet<El> = m.verts().into_iter().map(v).collect();
    let edges: BTreeSet<El> = m.edges().into_iter().map(|(a, b)| p(a, b)).collect();
    let t = |what: &str, it: Box<dyn Feed<'a> + 'a>, want| Trav { what: format!("{what} of {kind} {}", m.show()), it, done: false, skipped: 0, nested: vec![], got: BTreeSet::new(), want };
    match weighted(&[2, 2, 4, 4, 4]) {
        0 => t("vertices", feed(g.vertices(), |u| Item::V(*u)), verts),
        1 if m.n() > 0 => {
            let u = *pick(&m.verts());
            t(&format!("neighbours({u})"), feed(g.neighbours(&u), |u| Item::V(*u)), m.adj[&u].iter().map(|x| v(*x)).collect())
        }
        2 => t("neighbourhoods", feed(g.neighbourhoods(), |(u, n)| Item::N(u, n)), und(m)),
        3 => t(
            "vertices_and_edges",
            feed(g.vertices_and_edges(), |x| match x {
                VertexOrEdge::V(u) => Item::V(u),
                VertexOrEdge::E((a, b)) => Item::P(a, b),
            }),
            verts.union(&edges).copied().collect(),
        ),
        _ => t("edges", feed(g.edges(), |(a, b)| Item::P(a, b)), edges),
    }
}

fn lefts<'a, L: LinearGraph>(g: &'a L, m: &RG, ord: &[V], kind: &str) -> Trav<'a> {
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let want = m
        .adj
        .iter()
        .flat_map(|(u, n)| {
            let pos = &pos;
            std::iter::once(head(*u)).chain(n.iter().filter(move |x| pos[*x] < pos[u]).map(move |x| nb(*u, *x)))
        })
        .collect();
    Trav {
        what: format!("left_neighbourhoods of {kind} {} in order {}", m.show(), show(&ord)),
        it: feed(g.left_neighbourhoods(), |(u, l)| Item::L(u, l)),
        done: false,
        skipped: 0,
        nested: vec![],
        got: BTreeSet::new(),
        want,
    }
}

impl Src {
    fn start<'a>(&'a self, m: &RG) -> Trav<'a> {
        let mk = |what: String, it: Box<dyn Feed<'a> + 'a>, want| Trav { what, it, done: false, skipped: 0, nested: vec![], got: BTreeSet::new(), want };
        match self {
            Src::Any(g) => any!(g, x => generic(x, m, g.kind())),
            Src::Ord(g, ord) => {
                if chance(1, 2) {
                    return any_ord!(g, x => lefts(x, m, ord, g.kind()));
                }
                if let (AnyOrd::D(d), true) = (g, chance(1, 2)) {
                    let mut t = lefts(d, m, ord, "DegenGraph::iter");
                    t.it = feed(d.iter(), |(u, l)| Item::L(u, l.to_vec()));
                    return t;
                }
                any_ord!(g, x => generic(x, m, g.kind()))
            }
            Src::Reach(g, ord) => match draw(3) {
                0 => mk(format!("vertices of ReachGraph {}", m.show()), feed(Graph::vertices(g), |u| Item::V(*u)), m.verts().into_iter().map(v).collect()),
                1 => lefts(g, m, ord, "ReachGraph"),
                _ => {
                    let mut t = lefts(g, m, ord, "ReachGraph::iter");
                    let w = wreach(m, ord, 2);
                    t.want = w.iter().flat_map(|(u, n)| std::iter::once(head(*u)).chain(n.keys().map(move |x| nb(*u, *x)))).collect();
                    t.it = feed(g.iter(), |(u, r)| {
                        let mut l = r.at(1).to_vec();
                        l.extend_from_slice(r.at(2));
                        Item::L(u, l)
                    });
                    t
                }
            },
            Src::Di(g, d) => {
                let sh = format!("digraph on {} with arcs {}", show(&d.verts()), show(&d.arcs()));
                match draw(6) {
                    0 => mk(format!("vertices of {sh}"), feed(Graph::vertices(g), |u| Item::V(*u)), d.verts().into_iter().map(v).collect()),
                    1 => {
                        let want = d.out.iter().flat_map(|(u, n)| std::iter::once(head(*u)).chain(n.iter().map(move |x| nb(*u, *x)))).collect();
                        mk(format!("out_neighbourhoods of {sh}"), feed(g.out_neighbourhoods(), |(u, n)| Item::N(u, n)), want)
                    }
                    2 => {
                        let want = d.inns().into_iter().flat_map(|(u, l)| std::iter::once(head(u)).chain(l.into_iter().map(move |x| nb(u, x)))).collect();
                        mk(format!("in_neighbourhoods of {sh}"), feed(g.in_neighbourhoods(), |(u, n)| Item::N(u, n)), want)
                    }
                    3 if !d.out.is_empty() => {
                        let u = *pick(&d.verts());
                        if chance(1, 2) {
                            mk(format!("out_neighbours({u}) of {sh}"), feed(g.out_neighbours(&u), |u| Item::V(*u)), d.out[&u].iter().map(|x| v(*x)).collect())
                        } else {
                            mk(format!("in_neighbours({u}) of {sh}"), feed(g.in_neighbours(&u), |u| Item::V(*u)), d.inn(u).iter().map(|x| v(*x)).collect())
                        }
                    }
                    _ => mk(format!("arcs of {sh}"), feed(g.arcs(), |(a, b)| Item::P(a, b)), d.arcs().into_iter().map(|(a, b)| p(a, b)).collect()),
                }
            }
            Src::Dtf(g) => {
                let depth = g.get_depth();
                let at = if chance(1, 2) { None } else { Some(1 + draw(depth as u64) as usize) };
                let ins = |u: V| -> Vec<V> {
                    match at {
                        None => g.in_neighbours(&u).copied().collect(),
                        Some(d) => g.in_neighbours_at(&u, d).copied().collect(),
                    }
                };
                let sh = format!("augmentation of depth {depth} of {}", m.show());
                if chance(1, 3) {
                    let want = m.verts().into_iter().flat_map(|u| std::iter::once(head(u)).chain(ins(u).into_iter().map(move |x| nb(u, x)))).collect();
                    let it: Box<dyn Feed<'a> + 'a> = match at {
                        None => feed(g.in_neighbourhoods_iter(), |(u, n)| Item::N(u, n)),
                        Some(d) => feed(g.in_neighbourhoods_iter_at(d), |(u, n)| Item::N(u, n)),
                    };
                    mk(format!("in-neighbourhoods at depth {at:?} of {sh}"), it, want)
                } else {
                    let want = m.verts().into_iter().flat_map(|u| ins(u).into_iter().map(move |x| p(x, u))).collect();
                    let it: Box<dyn Feed<'a> + 'a> = match at {
                        None => feed(g.arcs(), |(a, b)| Item::P(a, b)),
                        Some(d) => feed(g.arcs_at(d), |(a, b)| Item::P(a, b)),
                    };
                    mk(format!("arcs at depth {at:?} of {sh}"), it, want)
                }
            }
        }
    }
}

fn traversals(s: &Src, m: &RG, ops: u64) {
    let mut live: Vec<Trav> = vec![];
    for _ in 0..1 + draw(ops) {
        crate::sched::op_boundary();
        if live.is_empty() || (live.len() < 3 && chance(1, 4)) {
            let t = no_panic("start of a traversal", || s.start(m));
            ev!("start {}", t.what);
            live.push(t);
            continue;
        }
        let i = draw(live.len() as u64) as usize;
        match weighted(&[10, 2, 3, 2, 2]) {
            0 => {
                for _ in 0..1 + draw(4) {
                    if !live[i].over() {
                        let t = &mut live[i];
                        no_panic("traversal", || t.step());
                    }
                }
            }
            1 => {
                ev!("abandon {}", live[i].what);
                live.swap_remove(i);
                continue;
            }
            2 => {
                // to the end
                let t = &mut live[i];
                no_panic("traversal", || {
                    while !t.over() {
                        t.step()
                    }
                });
            }
            3 => {
                // the rest at once
                let t = live.swap_remove(i);
                t.rest();
                continue;
            }
            _ => {
                let t = &mut live[i];
                if cancelled("traversal", || {
                    for _ in 0..40 {
                        if !t.over() {
                            t.step()
                        }
                    }
                }) {
                    live.swap_remove(i);
                    continue;
                }
            }
        }
        if live[i].over() {
            live.swap_remove(i);
        }
    }
    for mut t in live {
        no_panic("traversal", || {
            while !t.over() {
                t.step()
            }
        });
    }
}

fn c12() {
    setup();
    let k = draw(8);
    let large = if k == 5 { 40 } else { 150 };
    let m = graph(Opts { loops: k < 3 || k == 7, huge_ids: true, giant: if k == 5 || k == 6 { 0 } else { GIANT }, huge: if k == 5 { 0 } else if k == 6 { 200 } else { 4 * large }, ..Opts::sizes(8, 20, large, 1) });
    let s = match k {
        3 => {
            let o = order(&m);
            Src::Ord(AnyOrd::new(&m, &o), o)
        }
        4 | 7 => {
            let d = RD::from_graph(&m, rt::sub_seed());
            Src::Di(edit_digraph(&d), d)
        }
        5 => {
            let x = AnyGraph::new(&m);
            let depth = range(1, 3) as usize;
            let mut d = any!(&x, g => DTFGraph::orient(g));
            d.augment(depth, draw(2) as usize);
            Src::Dtf(d)
        }
        6 if chance(1, 2) => {
            let o = order(&m);
            Src::Reach(OrdGraph::with_ordering(&SimGraph::new(&m), o.iter()).to_wreach_graph::<2>(), o)
        }
        _ => Src::Any(AnyGraph::new(&m)),
    };
    ev!("graph {}", m.show());
    let ops = *pick(&[10u64, 4, 30]);
    let (s, m) = (&s, &m);
    crate::sched::run_threads((0..range(1, 3)).map(|_| Box::new(move || traversals(s, m, ops)) as Task).collect());
    match s {
        Src::Any(g) => rt::check(no_panic("graph", || any!(g, x => check_graph("traversed graph", x, m))), "graph-changed"),
        Src::Di(g, d) => rt::check(no_panic("graph", || super::edit::check_digraph("traversed digraph", g, d)), "graph-changed"),
        _ => {}
    }
}

// ---- C13 --------------------------------------------------------------------------------------

/// Every query of an ordered graph against graph and order.
pub fn check_linear<L: LinearGraph>(what: &str, g: &L, m: &RG, ord: &[V], positions: bool) -> Res {
    let sh = || format!("{what} with order {} of {}", show(&ord), m.show());
    let vs: Vec<V> = g.vertices().copied().collect();
    if vs != ord {
        return Err(format!("{}: vertices are presented as {}", sh(), show(&vs)));
    }
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut last = None;
    for (i, u) in ord.iter().enumerate() {
        let ix = g.index_of(u);
        if positions && ix != i {
            return Err(format!("{}: index of {u} is {ix} instead of {i}", sh()));
        }
        if last.map_or(false, |l| l >= ix) {
            return Err(format!("{}: index {ix} of {u} is not larger than that of its predecessor", sh()));
        }
        last = Some(ix);
        let left: Set = m.adj[u].iter().copied().filter(|x| pos[x] < i).collect();
        let right = m.adj[u].len() - left.len();
        let l = g.left_neighbours(u);
        let ls: Set = l.iter().copied().collect();
        if ls != left || l.len() != left.len() {
            return Err(format!("{}: left neighbours of {u} are {} instead of {}", sh(), show(&l), show(&left)));
        }
        if g.left_degree(u) as usize != left.len() || g.right_degree(u) as usize != right {
            return Err(format!("{}: {u} has left degree {} and right degree {} instead of {} and {right}", sh(), g.left_degree(u), g.right_degree(u), left.len()));
        }
    }
    let ld = vmap(&g.left_degrees());
    let rd = vmap(&g.right_degrees());
    let want = left_degrees(m, ord);
    if ld.len() != m.n() || rd.len() != m.n() || want.iter().any(|(u, d)| ld.get(u) != Some(&(*d as u32)) || rd.get(u) != Some(&((m.adj[u].len() - d) as u32))) {
        return Err(format!("{}: left degrees {} right degrees {}", sh(), show(&ld), show(&rd)));
    }
    let ml = want.values().max().copied().unwrap_or(0) as u32;
    let mr = want.iter().map(|(u, d)| m.adj[u].len() - d).max().unwrap_or(0) as u32;
    if g.max_left_degree() != ml || g.max_right_degree() != mr {
        return Err(format!("{}: largest left degree {} and right degree {} instead of {ml} and {mr}", sh(), g.max_left_degree(), g.max_right_degree()));
    }
    let some = subset(m, 8);
    let by = |u: &&V| pos[*u];
    let (l, r) = (some.iter().min_by_key(by).copied(), some.iter().max_by_key(by).copied());
    let (gl, gr) = (g.leftmost(some.iter()), g.rightmost(some.iter().copied()));
    if gl != l || gr != r {
        return Err(format!("{}: leftmost and rightmost of {} are {gl:?} and {gr:?} instead of {l:?} and {r:?}", sh(), show(&some)));
    }
    let mut x = draw(40) as V;
    while m.has_v(x) {
        x += 1;
    }
    if g.contains(&x) || g.left_degree(&x) != 0 || g.right_degree(&x) != 0 {
        return Err(format!("{}: absent vertex {x} is reported present", sh()));
    }
    if !ord.is_empty() {
        let u = pick(ord);
        if g.adjacent(u, &x) || g.adjacent(&x, u) || g.adjacent(&x, &x) {
            return Err(format!("{}: {u} is adjacent to the absent vertex {x}", sh()));
        }
    }
    Ok(())
}

pub fn check_ord(what: &str, g: &OrdGraph, m: &RG, ord: &[V]) -> Res {
    check_graph(what, g, m)?;
    check_linear(what, g, m, ord, true)?;
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    for u in ord {
        let r = g.right_neighbours(u);
        let rs: Set = r.iter().copied().collect();
        let want: Set = m.adj[u].iter().copied().filter(|x| pos[x] > pos[u]).collect();
        if rs != want || r.len() != want.len() {
            return Err(format!("{what}: right neighbours of {u} are {} instead of {}; order {} of {}", show(&r), show(&want), show(&ord), m.show()));
        }
    }
    Ok(())
}

pub fn check_degen(what: &str, g: &DegenGraph, m: &RG, ord: &[V]) -> Res {
    check_graph(what, g, m)?;
    check_linear(what, g, m, ord, false)?;
    let sh = || format!("{what} with order {} of {}", show(&ord), m.show());
    let pos: BTreeMap<V, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    if g.first() != ord.first().copied() {
        return Err(format!("{}: first vertex is {:?}", sh(), g.first()));
    }
    for u in ord {
        let want: Set = m.adj[u].iter().copied().filter(|x| pos[x] > pos[u]).collect();
        if vset(g.right_neighbours(u)) != want {
            return Err(format!("{}: right neighbours of {u} are {} instead of {}", sh(), show(&vset(g.right_neighbours(u))), show(&want)));
        }
        let l = g.left_neighbours_slice(u);
        if l.iter().copied().collect::<Set>() != m.adj[u].difference(&want).copied().collect() {
            return Err(format!("{}: left slice of {u} is {}", sh(), show(&l)));
        }
        for x in m.adj[u].iter().take(20) {
            if g.adjacent_ordered(u, x) != (pos[u] < pos[x]) {
                return Err(format!("{}: adjacent_ordered({u},{x}) is {}", sh(), pos[u] > pos[x]));
            }
        }
    }
    if !ord.is_empty() {
        for _ in 0..6 {
            let (a, b) = (*pick(ord), *pick(ord));
            if g.adjacent_ordered(&a, &b) != (m.has_e(a, b) && pos[&a] < pos[&b]) {
                return Err(format!("{}: adjacent_ordered({a},{b}) is wrong", sh()));
            }
        }
        let (u, mut x) = (*pick(ord), draw(40) as V);
        while m.has_v(x) {
            x += 1;
        }
        if g.adjacent_ordered(&u, &x) || g.adjacent_ordered(&x, &u) {
            return Err(format!("{}: adjacent_ordered of {u} and the absent vertex {x} is true", sh()));
        }
    }
    let it: Vec<(V, Set)> = g.iter().map(|(u, l)| (u, l.iter().copied().collect())).collect();
    if it.len() != ord.len() || it.iter().zip(ord).any(|((u, l), o)| u != o || *l != m.adj[o].iter().copied().filter(|x| pos[x] < pos[o]).collect()) {
        return Err(format!("{}: iter() gives {}", sh(), show(&it)));
    }
    Ok(())
}

/// The parts of a reachability graph that describe the underlying ordered graph.
pub fn check_reach<const D: usize>(what: &str, g: &ReachGraph<D>, m: &RG, ord: &[V]) -> Res {
    check_linear(what, g, m, ord, false)?;
    let sh = || format!("{what} with order {} of {}", show(&ord), m.show());
    if g.num_vertices() != m.n() || g.num_edges() != m.m() || g.first() != ord.first().copied() || g.depth() != D {
        return Err(format!("{}: num_vertices {} num_edges {} first {:?} depth {}", sh(), g.num_vertices(), g.num_edges(), g.first(), g.depth()));
    }
    for u in ord {
        if !g.contains(u) || g.degree(u) as usize != m.adj[u].len() {
            return Err(format!("{}: degree of {u} is {}", sh(), g.degree(u)));
        }
        for x in m.adj[u].iter().take(20) {
            if !g.adjacent(u, x) {
                return Err(format!("{}: {u} and {x} are not adjacent", sh()));
            }
        }
    }
    if !ord.is_empty() {
        for _ in 0..10 {
            let (a, b) = (*pick(ord), *pick(ord));
            if g.adjacent(&a, &b) != m.has_e(a, b) {
                return Err(format!("{}: adjacent({a},{b}) is {}", sh(), !m.has_e(a, b)));
            }
        }
    }
    Ok(())
}

fn check_normalized(m: &RG, ord: &[V], d: &DegenGraph) -> Res {
    let mut n = d.clone();
    let map = n.normalize();
    let map = vmap(&map);
    let want: BTreeMap<V, V> = ord.iter().enumerate().map(|(i, v)| (i as V, *v)).collect();
    if map != want {
        return Err(format!("normalize: map {} instead of {}; {}", show(&map), show(&want), m.show()));
    }
    let new: BTreeMap<V, V> = want.iter().map(|(a, b)| (*b, *a)).collect();
    let mut r = RG::new();
    new.values().for_each(|v| drop(r.add_v(*v)));
    m.edges().iter().for_each(|(u, v)| drop(r.add_e(new[u], new[v])));
    let o: Vec<V> = (0..ord.len() as V).collect();
    check_degen("relabelled graph", &n, &r, &o)?;
    for u in &o {
        if n.left_neighbours_slice(u).windows(2).any(|w| w[0] >= w[1]) {
            return Err(format!("relabelled graph: left neighbours of {u} are not sorted: {}", show(&n.left_neighbours_slice(u))));
        }
    }
    check_degen("source of a relabelled graph", d, m, ord)
}

struct OSlot {
    g: OrdGraph,
    m: RG,
    ord: Vec<V>,
}

fn ord_op(s: &mut OSlot) {
    let n = s.ord.len() as u64;
    match weighted(&[10, 3, 2, 2, 2, 1]) {
        0 if n > 0 => {
            let k = weighted(&[4, 3, 1, 1]);
            let i = draw(n) as usize;
            let j = match k {
                0 => draw(n) as usize,
                1 => (i + 1) % n as usize,
                2 => i,
                _ => {
                    // endpoints of an edge
                    let e = s.m.edges();
                    if e.is_empty() {
                        return;
                    }
                    let (u, v) = *pick(&e);
                    no_panic("swap", || s.g.swap(&u, &v));
                    ev!("swap adjacent {u} {v}");
                    let (a, b) = (s.ord.iter().position(|x| *x == u).unwrap_or(0), s.ord.iter().position(|x| *x == v).unwrap_or(0));
                    s.ord.swap(a, b);
                    return;
                }
            };
            let (u, v) = (s.ord[i], s.ord[j]);
            ev!("swap {u} {v}");
            no_panic("swap", || s.g.swap(&u, &v));
            s.ord.swap(i, j);
        }
        1 => {
            // a vertex that is not there
            let mut x = draw(30) as V;
            while s.m.has_v(x) {
                x += 1;
            }
            let u = if n > 0 { *pick(&s.ord) } else { x + 1 };
            ev!("swap with absent {x}");
            no_panic("swap", || if chance(1, 2) { s.g.swap(&u, &x) } else { s.g.swap(&x, &u) });
        }
        2 => {
            ev!("to_degeneracy_graph");
            let d = no_panic("to_degeneracy_graph", || s.g.to_degeneracy_graph());
            rt::check(no_panic("degeneracy graph", || check_degen("derived degeneracy graph", &d, &s.m, &s.ord)), "wrong-derived");
            if chance(1, 2) {
                ev!("normalize");
                rt::check(no_panic("normalize", || check_normalized(&s.m, &s.ord, &d)), "wrong-derived");
            }
        }
        3 => {
            let weak = chance(1, 2);
            ev!("reachability graph, weak {weak}");
            // (around a hub of ten thousands these sets are as good as complete)
            let work: usize = s.m.adj.values().map(|l| l.iter().map(|v| s.m.adj[v].len()).sum::<usize>()).sum();
            let deep = if work > 5_000_000 { 1 } else { 3 };
            let r = match (draw(deep), weak) {
                (0, true) => no_panic("to_wreach_graph", || check_reach("derived wreach graph", &s.g.to_wreach_graph::<1>(), &s.m, &s.ord)),
                (0, false) => no_panic("to_sreach_graph", || check_reach("derived sreach graph", &s.g.to_sreach_graph::<1>(), &s.m, &s.ord)),
                (1, true) => no_panic("to_wreach_graph", || check_reach("derived wreach graph", &s.g.to_wreach_graph::<2>(), &s.m, &s.ord)),
                (1, false) => no_panic("to_sreach_graph", || check_reach("derived sreach graph", &s.g.to_sreach_graph::<2>(), &s.m, &s.ord)),
                (_, true) => no_panic("to_wreach_graph", || check_reach("derived wreach graph", &s.g.to_wreach_graph::<3>(), &s.m, &s.ord)),
                (_, false) => no_panic("to_sreach_graph", || check_reach("derived sreach graph", &s.g.to_sreach_graph::<3>(), &s.m, &s.ord)),
            };
            rt::check(r, "wrong-derived");
        }
        4 => rt::check(no_panic("ordered graph", || check_ord("ordered graph", &s.g, &s.m, &s.ord)), "wrong-answer"),
        _ => {
            // built afresh, from itself or the other way round
            ev!("rebuild");
            let o = order(&s.m);
            match draw(3) {
                0 => s.g = no_panic("with_ordering", || OrdGraph::with_ordering(&s.g, o.iter())),
                1 => {
                    let d = no_panic("with_ordering", || DegenGraph::with_ordering(&s.g, o.iter()));
                    rt::check(no_panic("degeneracy graph", || check_degen("degeneracy graph", &d, &s.m, &o)), "wrong-derived");
                    s.g = no_panic("with_ordering", || OrdGraph::with_ordering(&d, o.iter()));
                }
                _ => {
                    let d = no_panic("from_graph", || DegenGraph::from_graph(&s.g));
                    let k: Vec<V> = d.vertices().copied().collect();
                    rt::check(check_perm(&s.m, &k), "wrong-derived");
                    rt::check(no_panic("degeneracy graph", || check_degen("degeneracy graph", &d, &s.m, &k)), "wrong-derived");
                    rt::check(no_panic("normalize", || check_normalized(&s.m, &k, &d)), "wrong-derived");
                    s.g = no_panic("with_ordering", || OrdGraph::with_ordering(&SimGraph::new(&s.m), items(o.clone())));
                }
            }
            s.ord = o;
        }
    }
}

fn check_perm(m: &RG, o: &[V]) -> Res {
    let s: Set = o.iter().copied().collect();
    if s.len() != o.len() || s != m.verts().into_iter().collect() {
        return Err(format!("order {} is not a permutation of the vertices of {}", show(&o), m.show()));
    }
    Ok(())
}

fn c13() {
    setup();
    let m = graph(Opts { huge_ids: true, giant: GIANT, ..Opts::sizes(8, 20, 60, 2) });
    let slots: Vec<SimMutex<OSlot>> = (0..range(1, 2))
        .map(|_| {
            let o = order(&m);
            let src = AnyGraph::new(&m);
            let (g, ord) = if chance(1, 4) {
                let g = no_panic("by_degeneracy", || any!(&src, x => OrdGraph::by_degeneracy(x)));
                let k: Vec<V> = g.vertices().copied().collect();
                rt::check(check_perm(&m, &k), "wrong-answer");
                (g, k)
            } else {
                (no_panic("with_ordering", || any!(&src, x => OrdGraph::with_ordering(x, o.iter()))), o)
            };
            SimMutex::new(OSlot { g, m: m.clone(), ord })
        })
        .collect();
    ev!("graph {}", m.show());
    let ops = *pick(&[8u64, 3, 16, 40]);
    {
        let slots = &slots;
        clients(range(1, 3), ops, move || pick(slots).with(ord_op));
    }
    for s in slots {
        let s = s.into_inner();
        rt::obs(s.ord.iter().fold(7, |h, v| rt::mix(h, *v as u64)));
        rt::check(no_panic("ordered graph", || check_ord("ordered graph at the end", &s.g, &s.m, &s.ord)), "wrong-answer");
        let d = no_panic("to_degeneracy_graph", || s.g.to_degeneracy_graph());
        rt::check(no_panic("degeneracy graph", || check_degen("degeneracy graph at the end", &d, &s.m, &s.ord)), "wrong-derived");
    }
}

const G: &str = "EditGraph, OrdGraph, DegenGraph with their Graph/LinearGraph implementations and the trait default methods";

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", run: c11, quick: 40000, thorough: 600000,
            real: "GraphOperations on EditGraph, OrdGraph, DegenGraph and (trait seam) simulator-presented graphs; EditGraph as result",
            rule: "operations on drawn pairs of simple graphs sharing vertices and edges (up to 70 vertices; products up to 12x12), 1-3 clients on the same operands, attempts cut short by a failing operand; results compared with the definition. Non-trivial: a hash seed, presentation order, switch or cancellation took effect and a result was compared." },
        Prop { id: "C12", run: c12, quick: 120000, thorough: 600000,
            real: "all iterators of iterators.rs, degengraph.rs and reachgraph.rs over EditGraph, EditDigraph, OrdGraph, DegenGraph, ReachGraph, DTFGraph",
            rule: "1-3 clients advancing up to three traversals each of one shared graph in drawn interleavings, by next, nth, fold, collect, last and count, abandoned, restarted, or failing half way. Non-trivial: as C11." },
        Prop { id: "C13", run: c13, quick: 40000, thorough: 600000, real: G,
            rule: "histories of up to 40 swaps per client (equal, neighbouring, adjacent and absent vertices), with derived static graphs and rebuilding, on graphs of up to 60 vertices with any labels. Non-trivial: as C11." },
    ]
}
