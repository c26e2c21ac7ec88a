From 55f89d5acf095d6cbe8eb1c057fdf603700ba1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 01/24] fix: report read errors from loaders instead of
 panicking

The loaders for VertexSet, Vec<Vertex> and EditGraph unwrapped every line
read, so invalid UTF-8, a corrupt or truncated gzip stream or any other
read error panicked although the functions return io::Result.
---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 07bafb3..866b7c3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -53,7 +53,7 @@ impl LoadFromFile for VertexSet {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = VertexSet::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.insert(u);
         }
@@ -76,7 +76,7 @@ impl LoadFromFile for Vec<Vertex> {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = Vec::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.push(u);
         }
@@ -114,7 +114,7 @@ impl EditGraph {
     fn from_buf_with_estimate<R: BufRead>(reader: &mut R, n_estimate:usize) -> io::Result<EditGraph> {
         let mut G = EditGraph::with_capacity(n_estimate);
         for (lineno, line) in reader.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
@@ -184,7 +184,7 @@ impl LoadFromFile for EditGraph {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut G = EditGraph::with_capacity(500);
         for (lineno, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
-- 
2.43.0


From 9c09b0ce2dfa0308fde076b94cb6791eb4b11310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 02/24] fix: report errors while finishing a gzip file

write_gzipped left the end of the deflate stream and the gzip trailer to the
encoder's destructor, which ignores errors: a save that ran out of space or
hit an I/O error there returned Ok and left an unreadable file.
---
 src/io.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 866b7c3..ab0a1b3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -7,6 +7,8 @@ use std::io;
 use std::io::{BufRead,BufReader,BufWriter,Write};
 use std::fs::File;
 use std::path::Path;
+use std::cell::RefCell;
+use std::rc::Rc;
 use flate2::Compression;
 use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
@@ -22,14 +24,45 @@ pub trait WriteToFile {
 
     fn write_gzipped(&self, filename:&str) -> io::Result<()> {
         let file = File::create(filename)?;
-        let gz = GzEncoder::new(file, Compression::default());
-        let buf = BufWriter::new(gz);
-        self.write_buf(Box::new(buf))
+        let gz = SharedGzEncoder::new(file);
+        let buf = BufWriter::new(gz.clone());
+        self.write_buf(Box::new(buf))?;
+        gz.finish()
     }
 
     fn write_buf(&self, buf:Box<dyn Write>) -> io::Result<()>;
 }
 
+/// Handle to a gzip encoder which lets us finish the stream, and learn whether that
+/// succeeded, after [WriteToFile::write_buf] has consumed the buffer that writes to it.
+#[derive(Clone)]
+struct SharedGzEncoder(Rc<RefCell<GzEncoder<File>>>);
+
+impl SharedGzEncoder {
+    fn new(file:File) -> Self {
+        SharedGzEncoder(Rc::new(RefCell::new(GzEncoder::new(file, Compression::default()))))
+    }
+
+    fn finish(&self) -> io::Result<()> {
+        loop {
+            match self.0.borrow_mut().try_finish() {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                res => return res
+            }
+        }
+    }
+}
+
+impl Write for SharedGzEncoder {
+    fn write(&mut self, buf:&[u8]) -> io::Result<usize> {
+        self.0.borrow_mut().write(buf)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.borrow_mut().flush()
+    }
+}
+
 pub trait LoadFromFile {
     fn from_txt(filename:&str) -> io::Result<Self> where Self: Sized{
         let buf = open_reader_txt(filename)?;
-- 
2.43.0


From 41796ab56df5cac7fbeaf1c105cc76187a0e901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:14 +0000
Subject: [PATCH 03/24] fix: EditDigraph::adjacent ignored arcs from the second
 to the first vertex

---
 src/editdigraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 01f1d73..dd82594 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -59,7 +59,7 @@ impl Graph for EditDigraph {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.has_arc(u, v) || self.has_arc(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-- 
2.43.0


From 77a66d4d408b608aaabbd46437f1fa56b1187463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:48 +0000
Subject: [PATCH 04/24] fix: EditDigraph::normalize and disj_union turned arcs
 towards the larger vertex

Both walked the undirected edges() view, which presents every arc with its
smaller endpoint first, instead of the arcs. The disjoint union now takes a
digraph as its second operand, since an undirected view has no directions.
---
 src/editdigraph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index dd82594..6f6bec4 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -334,22 +334,22 @@ impl EditDigraph {
 
     /// Creates a new graph that is the disjoint union of `self` and `graph`.
     /// The vertices of the second graph are relabelled to avoid index clashes.
-    pub fn disj_union(&self, graph: &impl Graph) -> EditDigraph {
+    pub fn disj_union(&self, graph: &impl Digraph) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(self.len() + graph.len());
 
         let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
 
         res.add_vertices(self.vertices().cloned());
-        res.add_arcs(self.edges());
+        res.add_arcs(self.arcs());
 
         res.add_vertices(graph.vertices().map(|v| v+offset));
-        res.add_arcs(graph.edges().map(|(u,v)| (u+offset,v+offset) ));
+        res.add_arcs(graph.arcs().map(|(u,v)| (u+offset,v+offset) ));
 
         res
     }
 
     /// Computes the disjoint unions of all graphs in the iterator `it`.
-    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Graph + 'a {
+    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Digraph + 'a {
         let mut res = EditDigraph::new();
         for graph in it {
             res = res.disj_union(graph);
@@ -378,7 +378,7 @@ impl EditDigraph {
         for u in self.vertices() {
             res.add_vertex(&vex2id[u]);
         }
-        for (u, v) in self.edges() {
+        for (u, v) in self.arcs() {
             res.add_arc(&vex2id[&u], &vex2id[&v]);
         }
         (res, id2vex)
-- 
2.43.0


From 90baa2191144a391db247dd1bb3b585196d8e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:05 +0000
Subject: [PATCH 05/24] fix: products lost vertices without incident edges

---
 src/operations.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operations.rs b/src/operations.rs
index ae7610b..0a0ca9d 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -81,6 +81,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
                 free_id += 1;
             }
         }
+        res.add_vertices(inverse.keys());
 
         /*
               a ---- b
@@ -124,6 +125,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
                 free_id += 1;
             }
         }
+        res.add_vertices(inverse.keys());
 
         for ((u,v), x) in map.iter() {
             // Fix u, find neighbours of v
-- 
2.43.0


From d2f34618c650da5d0e1c288bc51672b03d5a586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:05 +0000
Subject: [PATCH 06/24] fix: vertices_and_edges skipped loops

---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index f57fa17..04e52cd 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -230,7 +230,7 @@ impl<G> Iterator for MixedIterator<'_, G> where G: Graph {
             // Otherwise return edge
             for u in it.by_ref() {
                 // Tie-break so we do not return edges multiple times
-                if v < *u {
+                if v <= *u {
                     return Some(VertexOrEdge::E( (v,*u) ));
                 }
             }
-- 
2.43.0


From af2a6227aa2d4c22e8b8fc43a7a7193ff7ef1a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:05 +0000
Subject: [PATCH 07/24] fix: OrdGraph::swap of adjacent vertices

---
 src/ordgraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ordgraph.rs b/src/ordgraph.rs
index 2b656cd..79946cc 100644
--- a/src/ordgraph.rs
+++ b/src/ordgraph.rs
@@ -135,7 +135,8 @@ impl OrdGraph {
 
         // Recompute left/right neighbours of u and v for u when moved to iv
         // and for v when moved to iu.
-        for (s,old_i,new_i) in [(u,iu,iv), (v,iv,iu)]{
+        // The other vertex `t` of the swap ends up at the position that `s` leaves.
+        for (s,t,old_i,new_i) in [(u,v,iu,iv), (v,u,iv,iu)]{
             let mut needs_update:Vec<usize> = Vec::new();            
             {   // Update vertex itself
                 let n = &mut self.nodes[old_i];
@@ -143,6 +144,7 @@ impl OrdGraph {
                 for x in n.neighbours() {
                     let ix = self.indices.get(x).unwrap();
                     needs_update.push(*ix);
+                    let ix = if x == t { &old_i } else { ix };
                     if ix < &new_i {
                         new_left.insert(*x);
                     } else {
-- 
2.43.0


From 271f1c0a609528aa3960def9504d8d0c713707f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:05 +0000
Subject: [PATCH 08/24] fix: DegenGraph::normalize read out of bounds on the
 empty graph

---
 src/degengraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/degengraph.rs b/src/degengraph.rs
index cea5b5e..1de3582 100644
--- a/src/degengraph.rs
+++ b/src/degengraph.rs
@@ -69,6 +69,9 @@ impl DegenGraph {
         let mut ix = 0;
         let mut new_to_old = VertexMap::default();
         let mut old_to_new = VertexMap::default();
+        if self.contents.is_empty() {
+            return new_to_old;
+        }
         unsafe {
             loop {
                 let u = *self.contents.get_unchecked(i); // contents[i]
-- 
2.43.0


From 3a69db9ace199d60b3f25c95e62bcf6263d171b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 09/24] fix: DTFArcIterator dropped arcs and reversed the
 others

---
 src/iterators.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 04e52cd..305b03a 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -419,12 +419,9 @@ impl Iterator for DTFArcIterator<'_> {
                 continue;
             }
 
-            // Tie-breaking so we only return every edge once
+            // `u` is an in-neighbour of `curr_v`
             let u = *uu.unwrap();
-            if self.curr_v > u {
-                continue;
-            }
-            return Some((self.curr_v, u));
+            return Some((u, self.curr_v));
         }
 
         None
-- 
2.43.0


From 29ff9f6e0441d2e4ede63c7fef65efce0a8dac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 10/24] fix: degeneracy reported bucket numbers as bounds and
 core numbers

---
 src/algorithms/graph.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index b14cfe5..fe2e137 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -97,6 +97,7 @@ impl<G> GraphAlgorithms for G where G: Graph {
         }
 
         let mut core_num = 0;
+        let mut max_bucket = 0;
         for _ in 0..self.num_vertices() {
             // Find non-empty bucket. If this loop executes, we
             // know that |G| > 0 so a non-empty bucket must exist.
@@ -105,7 +106,7 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 d += 1
             }
 
-            core_num = max(core_num, d as u32);
+            max_bucket = max(max_bucket, d as u32);
 
             if !buckets.contains_key(&d) {
                 break;
@@ -114,6 +115,9 @@ impl<G> GraphAlgorithms for G where G: Graph {
             let v = *buckets[&d].iter().next().unwrap();
             buckets.get_mut(&d).unwrap().remove(&v);
 
+            // Buckets can contain vertices of different degrees
+            core_num = max(core_num, deg_dict[&v]);
+
             for u in self.neighbours(&v) {
                 if core_numbers.contains_key(u) {
                     // Vertex u has already been removed
@@ -142,12 +146,12 @@ impl<G> GraphAlgorithms for G where G: Graph {
             order.push(v);
         }
 
-        // Compute lower bound for core number. 
-        let ix = calc_index(core_num) as u32; 
-        let lower = if ix <= 129 {       
-            ix
+        // The smallest degree contained in the largest bucket we took a vertex from
+        // is a lower bound for the degeneracy.
+        let lower = if max_bucket <= 128 {
+            max_bucket
         } else {
-            129 + (1 << ((ix - 129 - 1) as u32 ))
+            128 + (1 << (max_bucket - 129))
         };
         let upper = core_num;                  
 
-- 
2.43.0


From 77eb1efe90be296ad51e820cae0f1c6704c56c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 11/24] fix: odd cycle of is_bipartite could repeat vertices

---
 src/algorithms/graph.rs | 42 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index fe2e137..2b56517 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -200,9 +200,9 @@ impl<G> GraphAlgorithms for G where G: Graph {
 
         // If the colouring failed we construct an odd path witness
         if let Some((parent1, v, parent2)) = conflict {       
-            // The first path starts at v and follows it until
-            // the 'root' of the colouring via parent1
-            let mut path1:Vec<Vertex> = vec![v, parent1];
+            // The first path starts at parent1 and follows the parents until
+            // the 'root' of the colouring
+            let mut path1:Vec<Vertex> = vec![parent1];
             loop {
                 let last = *path1.last().unwrap();                
                 let par = colours.get(&last).unwrap().1;
@@ -213,9 +213,12 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
-            // The first path starts at parent2 and follows it until
-            // the 'root' of the colouring
-            let mut path2:Vec<Vertex> = vec![parent2];
+            // The second path starts at v and follows it until
+            // the 'root' of the colouring via parent2
+            let mut path2:Vec<Vertex> = vec![v];
+            if v != parent2 {
+                path2.push(parent2);
+            }
             loop {
                 let last = *path2.last().unwrap();                
                 let par = colours.get(&last).unwrap().1;
@@ -226,32 +229,23 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
-            // path1: v parent1 ... root
-            // path1: parent2 ... root
+            // path1: parent1 ... root
+            // path2: v ... root
             assert_eq!(path1.last(), path2.last());
 
-            // If v == parent2 then path1 is already an odd cycle
-            if path1.len() > 1 && path1.first() == path1.last() {
+            // Remove the shared part of both paths, except for the vertex `x` at which they meet
+            while path1.len() > 1 && path2.len() > 1 && path1[path1.len()-2] == path2[path2.len()-2] {
                 path1.pop();
-                return BipartiteWitness::OddCycle(path1);   
-            }
-
-            // If v == parent1 then path2 is already an odd cycle
-            if path2.len() > 1 && path2.first() == path2.last() {
                 path2.pop();
-                return BipartiteWitness::OddCycle(path2);   
-            }            
-
-            // path2 = parent2 ... x root  (for some vertex x, potentially x = parent2)
-            path2.pop();     
+            }
 
-            // path2 = parent2 ... x
+            // path1 = parent1 ... x
+            // path2 = v ... x
+            path2.pop();
             path2.reverse(); 
-            // path2 = x ... parent2
-        
 
             // Create odd cycle by concatenating paths
-            path1.append(&mut path2); // root ... parent1 v parent2 ... x
+            path1.append(&mut path2); // parent1 ... x ... v
 
             return BipartiteWitness::OddCycle(path1);
         };
-- 
2.43.0


From 28fa19dcf4c443d8f33ec62827e83a9ef0d31e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 12/24] fix: colour_greedy left vertices without a colour

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9ec46ab..c8c0d84 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -222,7 +222,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut colours:VertexColouring<u32> = VertexColouring::default();
         let mut used_colours:Vec<u32> = vec![];
         for (v, N) in self.left_neighbourhoods() {
-            let Ncols:Vec<u32> = N.iter().map(|x| colours[x]).collect();
+            let Ncols:FxHashSet<u32> = N.iter().map(|x| colours[x]).collect();
             if Ncols.len() == used_colours.len() {
                 let new_colour = used_colours.len() as u32;
                 used_colours.push(new_colour);
-- 
2.43.0


From 15a101315bc9ff02a5bfaf51657effa582d131eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 13/24] fix: scattered_colouring merged classes at too small
 odd distances

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index c8c0d84..acdd7a9 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -520,7 +520,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
                     let dist = small_distance_sets(&wreach, distance, set1.iter(), set2.iter());
                     if let Some(dist) = dist {
-                        if dist < 2*radius {
+                        if dist < distance {
                             // Cannot merge these two classes
                             continue;
                         }
-- 
2.43.0


From ac01433fa92a08934d310f6f5187328635c98f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 14/24] fix: count_max_cliques recursed into the pivot's
 neighbours instead of the vertex's

---
 src/algorithms/lineargraph.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index acdd7a9..162b5e8 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -645,14 +645,20 @@ fn bk_pivot_count<L: LinearGraph>(graph:&L, v:&Vertex, vertices:&[Vertex], inclu
             continue
         }
 
+        // Compute w's neighbourhood inside of `vertices`. No vertex right of the
+        // pivot is contained in `maybe` or `exclude`.
+        let w_neighbours:Vec<Vertex> = vertices[0..=iu].iter()
+                .filter(|x| graph.adjacent(w, x)).copied().collect();
+        let w_neighbours_set:VertexSet = w_neighbours.iter().cloned().collect();
+
         // Recursion
         include.insert(*w);
         bk_pivot_count(graph,
                 v,
-                &left_neighbours,
+                &w_neighbours,
                 include,
-                maybe.intersection(&left_neighbours_set).cloned().collect(),
-                exclude.intersection(&left_neighbours_set).cloned().collect(),
+                maybe.intersection(&w_neighbours_set).cloned().collect(),
+                exclude.intersection(&w_neighbours_set).cloned().collect(),
                 results);
         include.remove(w);
 
-- 
2.43.0


From 81d86732b58ad9341ab1b0a34f57e7e56f21bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 15/24] fix: DTFGraph::layer claimed a depth that was never
 computed

---
 src/dtfgraph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 2c9d107..ee2ca4d 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -163,7 +163,7 @@ impl DTFNode {
     }
 
     pub fn in_neighbours_at(&self, depth:usize) ->  Box<dyn Iterator<Item=&Vertex> + '_> {
-        Box::new(self.in_arcs.get(depth-1).unwrap().iter())
+        Box::new(self.in_arcs.get(depth-1).into_iter().flat_map(|N| N.iter()))
     }
 
     pub fn in_degree(&self) -> u32 {
@@ -269,7 +269,6 @@ impl DTFGraph {
     }
 
     pub fn layer(&mut self, depth:usize) -> DTFLayer {
-        self.reserve_depth(depth);
         DTFLayer{ graph: self, depth }
     }
 
-- 
2.43.0


From a3527427b76909ce639fc30f8cb1edfeddc75718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 16/24] fix: DTFGraph::add_arc lowered the depth of an
 augmentation

---
 src/dtfgraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index ee2ca4d..76a8b93 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -343,9 +343,9 @@ impl DTFGraph {
             for (_, node) in self.nodes.iter_mut() {
                 node.reserve_depth(depth);
             }
-            self.ms.push(0);
+            self.ms.resize(depth, 0);
+            self.depth = depth;
         }
-        self.depth = depth;
     }
 
     pub fn add_arc(&mut self, u:&Vertex, v:&Vertex, depth:usize) {
-- 
2.43.0


From fa4b171990896daacfd793bb075bcd87078941bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 17/24] fix: small_distance of a vertex to itself

---
 src/dtfgraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 76a8b93..309c73c 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -412,6 +412,10 @@ impl DTFGraph {
     /// Returns the distance between the vertices `u` and `v` if it
     /// it smaller than the depth of the augmentation. Otherwise returns `None`.
     pub fn small_distance(&self, u:&Vertex, v:&Vertex) -> Option<u32> {
+        if u == v {
+            return Some(0)
+        }
+
         let mut dist = u32::MAX;
 
         if let Some(d) = self.get_arc_depth(u, v) {
-- 
2.43.0


From caeaaaef7a5280ac88c6180f354f4e2abdd82979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 18/24] fix: DTFLayer reported degrees and adjacency of the
 whole augmentation

---
 src/dtfgraph.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 309c73c..672c59b 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -61,11 +61,12 @@ impl Graph for DTFLayer<'_> {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.graph.adjacent(u, v)
+        // Returns whether there is an arc uv or vu in this layer
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-        self.graph.degree(u)
+        self.in_degree(u) + self.out_degree(u)
     }
 
     fn vertices<'b>(&'b self) -> Box<dyn Iterator<Item=&'b Vertex> + 'b> {
@@ -85,11 +86,11 @@ impl Digraph for DTFLayer<'_> {
     }
 
     fn in_degree(&self, u:&Vertex) -> u32 {
-        self.graph.in_degree(u)
+        self.graph.nodes.get(u).unwrap().in_degree_at(self.depth)
     }
 
     fn out_degree(&self, u:&Vertex) -> u32 {
-        self.graph.out_degree(u)
+        self.graph.nodes.get(u).unwrap().out_degree_at(self.depth)
     }
 
     fn neighbours<'a>(&'a self, _:&Vertex) -> Box<dyn Iterator<Item=&'a Vertex> + 'a> {
@@ -174,6 +175,14 @@ impl DTFNode {
         self.out_degs.iter().sum1::<u32>().unwrap() 
     }
 
+    pub fn in_degree_at(&self, depth:usize) -> u32 {
+        self.in_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
+    pub fn out_degree_at(&self, depth:usize) -> u32 {
+        self.out_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
     pub fn degree(&self) -> u32 {
         self.out_degree()+self.in_degree()
     }
-- 
2.43.0


From 24fd371dfd3123149f26d3e7c191a11db23b1f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:53 +0000
Subject: [PATCH 19/24] fix: radii beyond the number of vertices overflow or
 exhaust memory

---
 src/algorithms/lineargraph.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 162b5e8..084f766 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -134,6 +134,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn sreach_set(&self, u:&Vertex, r:u32) -> VertexMap<u32> {
+        let r = clamp_distance(self, r);
         let bfs = self.right_bfs(u, r-1);
         let mut res = VertexMap::default();
 
@@ -156,6 +157,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn wreach_sets(&self, r:u32) -> VertexMap<VertexMap<u32>> {
+        let r = clamp_distance(self, r);
         let mut res = VertexMap::default();
         for u in self.vertices() {
             res.insert(*u, VertexMap::default());
@@ -172,6 +174,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn wreach_sizes(&self, r:u32) -> VertexMap<u32> {
+        let r = clamp_distance(self, r);
         let mut res = VertexMap::default();
         for u in self.vertices() {
             res.insert(*u, 0);
@@ -259,12 +262,13 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
             }
         }
 
+        let radius = clamp_distance(self, radius);
         let mut domset = VertexSet::default();
         let mut scattered = VertexSet::default();
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
@@ -379,13 +383,14 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
         let mut colouring = VertexColouring::default();
 
+        let distance = clamp_distance(self, distance);
         let radius = distance / 2;
         let wreach = self.wreach_sets(distance);
         let undominated = radius+1;
 
         // Sort by _decreasing_ in-degree, tie-break by
         // total degree.
-        let cutoff = distance.pow(2);
+        let cutoff = distance.saturating_pow(2);
         let n = self.num_vertices() as i64;
         let order:Vec<Vertex> = self.vertices()
                 .cloned()
@@ -546,6 +551,12 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 }
 
+/// Distances in a graph are smaller than its number of vertices, therefore larger bounds
+/// can be lowered to that number without changing which vertices are close enough.
+fn clamp_distance<G:Graph>(graph:&G, distance:u32) -> u32 {
+    distance.min(graph.num_vertices() as u32)
+}
+
 // TODO: These methods should probably go into its own dedicated 'WReach' struct
 fn small_distance_sets<V,I1,I2>(wreach:&VertexMap<VertexMap<u32>>, distance:u32, X:I1, Y:I2) -> Option<u32>
     where V: Borrow<Vertex>, I1: IntoIterator<Item=V>, I2: IntoIterator<Item=V> {
-- 
2.43.0


From 3c053688137b76f9caec33b99ab45639c2373481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:11 +0000
Subject: [PATCH 20/24] fix: subdivide overflowed next to the largest vertex id

---
 src/operations.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 0a0ca9d..7e712bc 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -53,17 +53,16 @@ impl<G> GraphOperations<G> for G where G: Graph {
             res.add_vertex(u);
             max_id = Vertex::max(max_id, *u);
         }
-        let mut free_id = max_id + 1;
+        // Continue after the largest id and, should the ids run out, with unused smaller ones
+        let mut free_ids = (max_id..=Vertex::MAX).chain(0..max_id).filter(|s| !self.contains(s));
 
         for (u,v) in self.edges() {
             let mut last = u;
-            for s in free_id..free_id+times {
-                debug_assert!(!self.contains(&s));
+            for s in free_ids.by_ref().take(times as usize) {
                 res.add_edge(&last, &s);
                 last = s;
             }
             res.add_edge(&last, &v);
-            free_id += times;
         }
 
         res
-- 
2.43.0


From a89a8c9bec5bddf10b28adbabd85c4a3d4436483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 21/24] fix: disjoint_extend reused or overflowed colours for
 signed or large colours

---
 src/graph.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 49b858d..9b0037d 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -188,17 +188,22 @@ impl<T> VertexColouring<T> where T: Copy + Hash + Eq {
     }
 
     pub fn disjoint_extend(&mut self, other:&VertexColouring<T>) where T: num::Integer {
-        let colours:FxHashSet<T> = self.colouring.values().cloned().collect();
-        let offset:T = if colours.is_empty() {
-            T::zero()
-        } else {
-            let mut res = *colours.iter().max().unwrap();
-            res.inc();
-            res
-        };
+        let mut colours:FxHashSet<T> = self.colouring.values().cloned().collect();
+
+        // Colours of added vertices become the smallest colours that are not in use
+        let mut renamed:FxHashMap<T, T> = FxHashMap::default();
+        let mut free = T::zero();
+        let added = other.iter().filter(|(u, _)| !self.contains(u));
+        for c in added.map(|(_, c)| *c).sorted().dedup() {
+            while colours.contains(&free) {
+                free.inc();
+            }
+            colours.insert(free);
+            renamed.insert(c, free);
+        }
 
         for (u, c) in other.iter() {
-            self.colouring.entry(*u).or_insert(*c+offset);
+            self.colouring.entry(*u).or_insert_with(|| renamed[c]);
         }
     }
 
-- 
2.43.0


From 0d4636ea5ea43120a527af43dbe9b9dd123f413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 22/24] fix: disjoint unions overflowed for ids close to the
 largest one

---
 src/editdigraph.rs |  6 +++---
 src/editgraph.rs   |  6 +++---
 src/graph.rs       | 13 +++++++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 6f6bec4..bdab40e 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -337,13 +337,13 @@ impl EditDigraph {
     pub fn disj_union(&self, graph: &impl Digraph) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(self.len() + graph.len());
 
-        let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
+        let labels = disjoint_labels(self, graph);
 
         res.add_vertices(self.vertices().cloned());
         res.add_arcs(self.arcs());
 
-        res.add_vertices(graph.vertices().map(|v| v+offset));
-        res.add_arcs(graph.arcs().map(|(u,v)| (u+offset,v+offset) ));
+        res.add_vertices(graph.vertices().map(|v| labels[v]));
+        res.add_arcs(graph.arcs().map(|(u,v)| (labels[&u],labels[&v]) ));
 
         res
     }
diff --git a/src/editgraph.rs b/src/editgraph.rs
index 3a710ac..e81e6d2 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -427,13 +427,13 @@ impl EditGraph {
     pub fn disj_union(&self, graph: &impl Graph) -> EditGraph {
         let mut res = EditGraph::with_capacity(self.len() + graph.len());
 
-        let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
+        let labels = disjoint_labels(self, graph);
 
         res.add_vertices(self.vertices().cloned());
         res.add_edges(self.edges());
 
-        res.add_vertices(graph.vertices().map(|v| v+offset));
-        res.add_edges(graph.edges().map(|(u,v)| (u+offset,v+offset) ));
+        res.add_vertices(graph.vertices().map(|v| labels[v]));
+        res.add_edges(graph.edges().map(|(u,v)| (labels[&u],labels[&v]) ));
 
         res
     }
diff --git a/src/graph.rs b/src/graph.rs
index 9b0037d..8e43996 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -473,6 +473,19 @@ pub trait MutableGraph: Graph{
     }
 }
 
+/// Labels for the vertices of `right` which do not occur in `left`. All labels of `right` are
+/// shifted by the same amount, unless this leads beyond the largest vertex id.
+pub(crate) fn disjoint_labels(left:&impl Graph, right:&impl Graph) -> VertexMap<Vertex> {
+    let offset = left.vertices().max().map_or(0, |v| *v as u64 + 1);
+    let largest = right.vertices().max().map_or(0, |v| *v as u64);
+    if offset + largest <= Vertex::MAX as u64 {
+        right.vertices().map(|v| (*v, *v + offset as Vertex)).collect()
+    } else {
+        let unused = (0..=Vertex::MAX).filter(|v| !left.contains(v));
+        right.vertices().copied().sorted().zip(unused).collect()
+    }
+}
+
 /// Trait for static digraphs. The trait inherits the [Graph] trait, all methods from that trait
 /// are treating the digraph as an undirected graph. For example, the (undirected) neighbourhood of
 /// a vertex is the union of its in-neighbourhood and its out-neighbourhood in the digraph.
-- 
2.43.0


From b6e7234cd012eab105de50cd011d9ed1f333083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:34 +0000
Subject: [PATCH 23/24] fix: is_shattered overflowed for 64 or more vertices
 and for huge multiplicities

Debug builds panicked; release builds computed a threshold of zero and reported sets as shattered.
---
 src/datastructures/sreach_trace_oracle.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/sreach_trace_oracle.rs b/src/datastructures/sreach_trace_oracle.rs
index cd53061..cd50e36 100644
--- a/src/datastructures/sreach_trace_oracle.rs
+++ b/src/datastructures/sreach_trace_oracle.rs
@@ -274,8 +274,10 @@ impl SReachTraceOracle {
         let traces = self.compute_traces(&inner, graph);
 
         assert!(k >= inner.len() as u32);
-        let multiplicity = 2usize.pow(k - inner.len() as u32);
-        let num_neighbourhoods = 2usize.pow(inner.len() as u32);
+        let (Some(multiplicity), Some(num_neighbourhoods)) =
+                (2usize.checked_pow(k - inner.len() as u32), 2usize.checked_pow(inner.len() as u32)) else {
+            return false // More than any graph can have
+        };
 
         if traces.len() < num_neighbourhoods {
             return false
-- 
2.43.0


From 4f52af053269891de04a100eed085262c935d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:21 +0000
Subject: [PATCH 24/24] fix: DTFGraph::domset overflowed for radii of 32768 and
 more

---
 src/dtfgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 672c59b..7c65f84 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -576,7 +576,7 @@ impl DTFGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
-- 
2.43.0

