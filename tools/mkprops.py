import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

IO="src/io.rs"
p("C01","A save that reports success has stored the object completely",
 "Whenever saving a graph, a vertex set or a vertex sequence as plain text or gzip reports success, loading the resulting file yields exactly the saved object: the same edges (with exactly the vertices that occur in them), the same set, or the same sequence in the same order. This holds however the disk splits or interrupts the individual writes, whatever the target file contained before, and for objects much larger than any internal buffer. No other file is changed by the save.",
 ["inputs","schedules","fault_sequences"],
 "For every object, every representation it is saved from, every previous content of the target, and every legal sequence of short writes, interrupted calls and interleavings with other savers.",
 "The io tests save four tiny objects onto a healthy disk and ignore the result of the save; no test produces a short write, an EINTR, a pre-existing longer file or more than one buffer of data.",
 [IO,"src/iterators.rs","src/editgraph.rs"],
 [("write_txt/write_gzipped/write_buf","src/io.rs WriteToFile"),("edge iteration yields each edge once","src/iterators.rs EdgeIterator"),("from_txt/from_gzipped/from_file","src/io.rs LoadFromFile")],
 observe=["the simulated disk at the system-call boundary","the Result of the save","the object returned by a later load"])
p("C02","A save the storage did not accept is reported as an error",
 "If the storage refuses any byte of the output (no space, I/O error, a sink that accepts nothing more) or refuses to open the target, saving returns an error of that cause; it never reports success, panics or hangs. A failed save leaves no file handle open, leaves every other file untouched, and once the storage works again the same save succeeds and stores the complete object.",
 ["fault_sequences","inputs"],
 "For every object, output path (text, gzip, caller-supplied sink) and every position and kind of failing open, write or flush, including failures of the very last bytes.",
 "No test ever makes a write fail; the result of the save is discarded in all three io tests.",
 [IO],[("errors of write_all/flush are propagated","src/io.rs write_buf"),("compressor is finished and its error propagated","src/io.rs write_gzipped")],
 observe=["system calls of the save","open descriptors afterwards","the Result of the save"])
p("C03","What a load returns does not depend on how the bytes arrive",
 "Loading the same bytes always gives the same outcome: for a valid file exactly the listed edges (duplicates and either orientation counting once), set or sequence, and an error for an invalid one. It makes no difference how reads are split, interrupted or delayed, what file size the system reports, which entry point (by text path, gzip path, extension, or caller-supplied reader) is used, or which other loads run concurrently.",
 ["schedules","inputs","fault_sequences"],
 "For every file content and every legal delivery: short reads down to one byte, EINTR at any call, misreported sizes, interleaved loaders, and all entry points.",
 "The tests read five small files from a local disk, which always delivers a whole buffer per read.",
 [IO],[("line based parsing over a buffered reader","src/io.rs from_buf, from_buf_with_estimate"),("capacity estimate from the reported size","src/io.rs EditGraph::from_txt/from_gzipped"),("extension dispatch","src/io.rs open_reader")],
 observe=["objects and errors returned by the loads"])
p("C04","An unreadable or malformed source gives an error, never a panic or a part",
 "If the source cannot be opened, fails part way, ends inside a compressed stream, or contains anything but valid lines (wrong token count, a number that is not a vertex id, bytes that are not text), loading returns an error. It never panics, never hangs, never returns an object built from the part read so far, and closes the file.",
 ["fault_sequences","inputs"],
 "For every kind of object and entry point and every position at which a read fails or the content becomes invalid.",
 "No test loads a bad file or makes a read fail.",
 [IO],[("errors from the line reader are propagated","src/io.rs from_buf, from_buf_with_estimate"),("parse_vertex / token count check","src/io.rs")],
 observe=["the Result of the load","open descriptors afterwards"])
p("C05","A damaged compressed file never loads as a different object",
 "After any corruption of a saved gzip file - flipped bits, lost, torn, duplicated, reordered or zeroed blocks, truncation at any byte - loading it either reports an error or returns exactly the object that was saved. It never returns a different object and never panics.",
 ["fault_sequences","inputs"],
 "For every saved object and every damage to the stored bytes, through every entry point that reads compressed files.",
 "No test damages a file; a checksum protects the data only if every path reads to the end of the stream and looks at every error.",
 [IO],[("stream is read to its end so that checksum and length are verified","src/io.rs from_buf, from_buf_with_estimate"),("decoder errors are propagated","src/io.rs")],
 observe=["the Result of the load"])
p("C06","A crash during a save costs at most that file, and never silently for gzip",
 "If the process dies at any instant during a save, the target afterwards holds its old content, a prefix of the new content, or all of it, and every other file is untouched. Loading what is left of an interrupted gzip save gives the old object, the complete new object or an error, never a part; loading what is left of any interrupted save never panics. After the restart, repeating the save succeeds and stores the complete object.",
 ["crash_points","inputs","schedules"],
 "For every object and every crash point between or inside the system calls of a save, with other files and other savers present.",
 "No test stops a save half way.",
 [IO],[("output is produced strictly in order through one writer","src/io.rs write_txt/write_gzipped/write_buf"),("gzip trailer is written last","src/io.rs write_gzipped")],
 observe=["the simulated disk after the crash","loads after the restart"])
EG="src/editgraph.rs"
p("C07","The editable graph behaves like an abstract graph under every edit history",
 "After any history of edits by any number of interleaved clients - adding and removing vertices and edges, singly or in bulk, removing loops and isolates, copying - every query (membership, adjacency, degree, vertex and edge counts, neighbours, equality) answers as an abstract set of vertices and undirected edges would. Every edit reports exactly whether, or how much, it changed the graph, and edits of a copy never show in the original.",
 ["histories","schedules","inputs"],
 "For every finite history of operations and every interleaving of clients on shared and copied graphs, whatever the internal iteration order.",
 "The tests replay a handful of fixed sequences; counters that are maintained separately from the adjacency go wrong only after specific multi-step histories (loops, re-adding, removing hubs).",
 [EG,"src/graph.rs"],[("degree map and edge counter kept in step with adjacency","src/editgraph.rs add_edge/remove_edge/remove_vertex"),("bulk operations","src/graph.rs MutableGraph")],
 state=[("adj/degs/m","adjacency, degrees and edge count kept redundantly","src/editgraph.rs EditGraph")],
 observe=["return values of every operation","full query sweep after steps"])
p("C08","The editable digraph behaves like an abstract digraph under every edit history",
 "After any history of edits by interleaved clients, every query on the digraph (arcs, in- and out-degrees, in- and out-neighbours and -neighbourhoods, counts, equality, and the undirected view in which two vertices are adjacent if an arc joins them in either direction) answers as an abstract set of vertices and arcs would. Every edit reports exactly what it changed, and copies, relabelled copies and disjoint unions keep the direction of every arc.",
 ["histories","schedules","inputs"],
 "For every finite history of operations and every interleaving of clients, whatever the internal iteration order.",
 "Four unit tests use fixed sequences and never compare the undirected view, the derived copies or the in- and out-structures after mixed histories.",
 ["src/editdigraph.rs","src/graph.rs","src/iterators.rs"],[("in- and out-adjacency and degrees kept in step","src/editdigraph.rs add_arc/remove_arc/remove_vertex"),("undirected view","src/editdigraph.rs impl Graph"),("arc iteration","src/iterators.rs ArcIterator")],
 state=[("in_adj/out_adj/in_degs/out_degs/m","arcs stored from both ends plus counters","src/editdigraph.rs EditDigraph")],
 observe=["return values of every operation","full query sweep after steps"])
p("C09","An aborted bulk edit has applied exactly the items delivered before the abort",
 "If the caller's sequence of vertices, edges or arcs fails (panics or is cancelled) in the middle of a bulk insertion, the graph afterwards equals the one obtained by inserting exactly the items delivered before the failure, and it remains fully consistent and usable. Operations that read their whole argument before acting (contraction, building a subgraph or a graph from a sequence) leave the existing graph unchanged when the argument fails.",
 ["fault_sequences","histories","schedules"],
 "For every bulk operation, every prefix length at which the supplied sequence fails, every history before and after, and every interleaving with other clients.",
 "No test supplies a failing iterator.",
 ["src/graph.rs",EG,"src/editdigraph.rs"],[("items are applied one at a time, each completely","src/graph.rs add_vertices/add_edges/add_arcs"),("arguments are collected before the first change","src/editgraph.rs contract_into, src/graph.rs subgraph")],
 observe=["graph state after the unwind","later operations on the same graph"])
p("C10","Contraction, relabelling and sub-/union graphs preserve adjacency exactly",
 "Contracting or identifying vertices leaves one vertex adjacent to exactly the outside neighbours of the contracted ones, removes the others and creates no loops at the surviving vertex. Induced subgraphs, relabelled copies (labels 0 to n-1 in the original order, with a correct map back) and disjoint unions contain exactly the expected vertices and edges and leave their sources unchanged. All this holds at every point of an edit history and for every iteration order of the graphs involved.",
 ["histories","inputs","schedules"],
 "For every history of edits, every choice of vertices (repeated, already contracted, in any order) and every iteration order.",
 "Tests contract three vertices in two fixed graphs and build one disjoint union.",
 [EG,"src/graph.rs"],[("contract/contract_into/contract_pair","src/editgraph.rs"),("subgraph","src/graph.rs"),("normalize/disj_union(s)","src/editgraph.rs")],
 observe=["resulting graphs and maps","the source graphs afterwards"])
p("C11","Graph operations produce exactly the defined graph in any iteration order",
 "Complement, union, intersection, edge subdivision, cartesian and lexicographic product have exactly the vertices and edges of their definition on simple graphs; subdividing replaces each edge by a path of fresh vertices, and the map returned with a product names every new vertex's pair. The results do not depend on the order in which the operands present their vertices, neighbours and edges, nor on other callers using the same operands, and the operands are unchanged.",
 ["inputs","schedules","histories"],
 "For every pair of loop-free graphs however they were built, every presentation order, and every interleaving of callers sharing the operands.",
 "Each operation has one test on one or two fixed graphs in the one order the default hash function gives.",
 ["src/operations.rs"],[("invert/merge/intersect/subdivide/products","src/operations.rs GraphOperations")],
 observe=["resulting graphs and maps"])
p("C12","Every traversal yields each element exactly once, however it is consumed",
 "Traversing the vertices, neighbourhoods, edges, arcs, left-neighbourhoods or the mixed vertex-and-edge sequence of any graph yields each element exactly once and nothing else, undirected edges with the smaller endpoint first and each arc in its direction. This holds for any number of traversals of the same graph advanced in any interleaving, abandoned at any point and restarted, and for every presentation order of the underlying graph.",
 ["schedules","inputs","histories"],
 "For every graph (with loops and isolated vertices), every graph representation that supports the traversal, and every interleaving of partial traversals by several callers.",
 "Tests run one traversal at a time to the end on fixed graphs without loops.",
 ["src/iterators.rs","src/degengraph.rs","src/reachgraph.rs"],[("tie-breaking so each edge is reported once","src/iterators.rs EdgeIterator/MixedIterator/ArcIterator"),("linked layout of ordered graphs","src/degengraph.rs DegenOrderIterator/DegenIterator, src/reachgraph.rs ReachOrderIterator/ReachIterator"),("augmentation arcs","src/iterators.rs DTFArcIterator")],
 observe=["sequence of items of every traversal"])
p("C13","Ordered graphs stay consistent under every history of order swaps",
 "After any history of position swaps by interleaved clients, an ordered graph still represents the same graph; its indices form the permutation obtained by applying the swaps, and each vertex's left and right neighbours, degrees and the leftmost and rightmost queries are exactly those induced by that permutation. Static ordered representations derived from it at any point agree with it, and relabelling one by its order preserves the graph and the order.",
 ["histories","schedules","inputs"],
 "For every loop-free graph, every initial ordering, every history of swaps (equal, adjacent, absent vertices included) and every point at which a derived representation is built.",
 "No test inspects the neighbourhoods after a swap.",
 ["src/ordgraph.rs","src/degengraph.rs","src/graph.rs"],[("swap","src/ordgraph.rs"),("with_ordering/to_degeneracy_graph","src/ordgraph.rs, src/degengraph.rs"),("normalize","src/degengraph.rs")],
 state=[("indices/nodes.left/nodes.right","position map and split adjacency kept redundantly","src/ordgraph.rs OrdGraph")],
 observe=["all ordered queries after each step"])
AG="src/algorithms/graph.rs"; AL="src/algorithms/lineargraph.rs"
p("C14","Connected components are exact for every hash seed and edge order",
 "The reported components are exactly the connected components of the graph: they partition its vertices, and two vertices share a component precisely when a path joins them. The answer is the same for every random hash seed, every presentation order of the graph and every interleaving with other callers.",
 ["schedules","inputs","histories"],
 "For every graph (loops and isolated vertices included), every per-process random hash seed, every presentation order and any concurrent callers.",
 "The union-find used underneath hashes with a random per-process seed, so a test run samples one order; a known defect of that dependency is papered over and shows only in some merge orders.",
 [AG],[("union-find with a guard against a known defect of the dependency","src/algorithms/graph.rs components")],
 observe=["list of components"])
p("C15","Bipartiteness verdict and witness are valid in every search order",
 "The test reports a bipartition exactly when the graph has no odd cycle. A reported bipartition places every vertex on exactly one side with no edge inside a side, and a reported odd cycle is a sequence of an odd number of distinct vertices in which consecutive vertices, and the last and first, are adjacent (a single vertex with a loop counting as an odd cycle).",
 ["schedules","inputs","histories"],
 "For every graph, connected or not and with or without loops, and every order in which the search meets vertices and neighbours.",
 "Which cycle is found, and which of the three construction branches runs, depends on the iteration order; the test samples one order on a few graphs.",
 [AG],[("two-colouring search with parent pointers and witness construction","src/algorithms/graph.rs is_bipartite")],
 observe=["the returned witness"])
p("C16","Degeneracy bounds, ordering and core numbers are sound for every tie-break",
 "For a loop-free graph the returned ordering contains every vertex exactly once, the lower bound never exceeds and the upper bound never falls below the true degeneracy, and no vertex has more earlier neighbours in the ordering than the upper bound. Core numbers are exact, and both bounds equal the degeneracy, whenever no vertex has degree above 128; larger degrees may only loosen core numbers upwards and the bounds apart; graphs ordered by degeneracy have no left degree above it in that range. This holds for every order in which ties are broken and for interleaved or cancelled computations on the same graph.",
 ["schedules","inputs","histories"],
 "For every loop-free graph including ones with large degrees, every presentation order and tie-breaking.",
 "No unit test calls it directly; it is exercised only through other structures in one iteration order and never compared with true core numbers.",
 [AG],[("bucket queue with exponentially growing buckets above degree 128","src/algorithms/graph.rs degeneracy")],
 observe=["bounds, ordering and core numbers"])
p("C17","Weak and strong reachability sets and their compact forms are exact",
 "For a loop-free graph under any vertex ordering, the weakly and strongly r-reachable sets contain exactly the vertices of the definition with exactly the least distances, for every r of at least one, and the size-only variants agree with them. The compact reachability graphs list for every vertex the same sets grouped by distance and sorted by position, in the order of the graph. All of it is independent of presentation order and stays correct after any history of order swaps and under concurrent callers.",
 ["inputs","histories","schedules"],
 "For every graph, ordering, radius, swap history, and presentation order of neighbours.",
 "Tests compare implementations with each other on a few fixed graphs and radii, not with the definition.",
 [AL,"src/ordgraph.rs","src/reachgraph.rs"],[("right_bfs/wreach_sets/sreach_set","src/algorithms/lineargraph.rs"),("to_wreach_graph/to_sreach_graph","src/ordgraph.rs"),("compact layout","src/reachgraph.rs ReachGraphBuilder::append")],
 observe=["reachability maps and compact graphs"])
p("C18","The number of maximal cliques is exact for every ordering",
 "The count of maximal cliques of a loop-free graph equals the true number, isolated vertices counting one each, for every vertex ordering, every representation of the ordered graph and every presentation order, also when several callers count at the same time or an earlier count was cancelled.",
 ["inputs","schedules","histories"],
 "For every loop-free graph, every ordering reached by any swap history, and every iteration order.",
 "Tests count cliques in a few fixed graphs under their default ordering.",
 [AL],[("pivoting enumeration per left neighbourhood","src/algorithms/lineargraph.rs count_max_cliques, bk_pivot_count")],
 observe=["the count"])
p("C19","Dominating sets dominate and their scattered witness is scattered",
 "For any ordered loop-free graph, radius r of at least one and target set, the returned set has a member within distance r of every target, and for every target the reported distance is at most r and never smaller than its true distance to the set. The optional witness is a colouring of target members of the set in which any two vertices of equal colour are more than 2r apart. This holds for every ordering, tie-breaking order and interleaving of callers.",
 ["inputs","schedules","histories"],
 "For every graph, ordering, radius, target (empty, partial, full, repeated), iteration order.",
 "Two tests check domination on two fixed graphs under one ordering and do not check distances or the witness in general.",
 [AL],[("domset_with_target","src/algorithms/lineargraph.rs")],
 observe=["set, distances and colouring"])
p("C20","Colourings are proper, complete and scattered as promised",
 "The greedy colouring gives every vertex of a loop-free ordered graph a colour, never gives adjacent vertices the same one, and uses at most one colour more than the largest left degree. The scattered colouring partitions the target into non-empty classes in which any two vertices are at distance at least the requested distance, for every requested distance of at least one. This holds for every ordering, iteration order and interleaving of callers.",
 ["inputs","schedules","histories"],
 "For every graph, ordering, requested distance (odd and even), target set and iteration order.",
 "One test per algorithm on fixed graphs; classes are merged in hash order, so a wrong merge shows only for some orders.",
 [AL],[("colour_greedy","src/algorithms/lineargraph.rs"),("scattered_colouring and its class merging","src/algorithms/lineargraph.rs")],
 observe=["colour maps and classes"])
p("C21","Distance queries on an augmentation are exact up to its depth",
 "An augmentation of depth d built over any loop-free graph answers the distance of any two of its vertices exactly when that distance is at most d (zero for a vertex and itself) and reports none otherwise. Its arcs of weight one orient every edge of the graph exactly once, its depth and per-weight arc counts match its arcs, a layer shows exactly the arcs of its weight, and augmenting in one step or in several steps, with any look-ahead, changes none of these answers.",
 ["inputs","histories","schedules"],
 "For every loop-free graph, every sequence of augmentation steps and look-ahead values, and every iteration order of vertices and arcs.",
 "Tests check distance two on one fixed graph; which arcs exist depends on the iteration order.",
 ["src/dtfgraph.rs","src/iterators.rs"],[("augment/_trans_tails/_frat_pairs","src/dtfgraph.rs"),("small_distance","src/dtfgraph.rs"),("orient/orient_deep","src/dtfgraph.rs")],
 observe=["distances, arcs, counts"])
p("C22","Dominating sets from an augmentation dominate at every radius and history",
 "The dominating set computed from an augmentation for radius r of at least one has a member within distance r of every vertex of the underlying graph and contains only its vertices. This holds whatever depth the augmentation had before, for repeated computations with growing or shrinking radii on the same augmentation, and for every iteration order.",
 ["histories","inputs","schedules"],
 "For every loop-free graph, every sequence of radii and augmentation steps, and every tie-breaking order.",
 "One test checks a few radii on fixed graphs in increasing order.",
 ["src/dtfgraph.rs"],[("domset","src/dtfgraph.rs")],
 observe=["the set"])
p("C23","The neighbourhood-trace oracle agrees with direct counting",
 "For every ordered loop-free graph and every set of its vertices, the oracle's trace table gives for each subset occurring as a neighbourhood trace of an outside vertex exactly the number of outside vertices with that trace (other entries being zero), the neighbour count equals the number of outside vertices with a neighbour in the set, and the shattering test answers by those counts. The answers do not depend on hash order, earlier queries or concurrent queries.",
 ["inputs","histories","schedules"],
 "For every graph, ordering, query set, query history, and hash order.",
 "Tests sample one network and one ordering; unchecked subtraction and unchecked map access make errors silent.",
 ["src/datastructures/sreach_trace_oracle.rs","src/degengraph.rs"],[("compute_traces/compute_neighbour_count/is_shattered","src/datastructures/sreach_trace_oracle.rs")],
 state=[("contexts","per-vertex counts of left-neighbourhood prefixes","src/datastructures/sreach_trace_oracle.rs")],
 observe=["trace tables, counts, verdicts"])
p("C24","Computations do not influence one another, even when one is cancelled",
 "Any number of threads may run any mix of read-only computations (queries, traversals, algorithms, saves and loads) on shared or separate graphs in any interleaving, and each obtains an answer that is valid for the graph it was given, as if it ran alone. If one of them is cancelled by a failure of its input or graph at any point, every other computation, and every later one in the same thread, is unaffected and the shared graphs are unchanged.",
 ["schedules","fault_sequences","histories"],
 "For every mix of computations, every interleaving down to individual container operations, and every cancellation point.",
 "No test uses more than one thread per graph or cancels a computation; any cache or scratch space shared between calls would pass all tests.",
 ["src/algorithms/graph.rs",AL,"src/dtfgraph.rs","src/io.rs","src/graph.rs"],[("all working state is local to a call","src/algorithms/*, src/io.rs"),("graphs have no interior mutability","src/editgraph.rs, src/ordgraph.rs, src/degengraph.rs")],
 observe=["answers of all computations","shared graphs afterwards"])
NA="src/graph.rs"
p("C25","Named generators produce the named graphs",
 "Each named generator (path, cycle, matching, star, clique, independent set, biclique, complete k-partite graph, grid) produces the graph of that name with the stated vertex numbering.",
 ["inputs"],"For every size parameter.","Tests check one size each.",
 [EG,"src/editdigraph.rs"],[("constructors","src/editgraph.rs, src/editdigraph.rs")])
p("C26","Comparison, vertex maps and colourings are exact under any order and history",
 "Comparing two loop-free graphs reports equal, sub-, super- or incomparable exactly by containment of their vertices and edges. Vertex maps and colourings answer, after any history of insertions, restrictions and merges by interleaved clients, as an abstract map would: inverting groups exactly the vertices of each value, the majority set is one of the largest groups (none for an empty map), and merging a colouring into another keeps every existing colour and gives the added vertices colours the other did not use, equal precisely where they were equal before. The intersection of two vertex-or-edge objects is exactly what they share, and none of this depends on hash order, on the order in which graphs and sequences present their elements, or on an earlier call that was cancelled.",
 ["histories","inputs","schedules"],"For every history of colouring operations, every pair of graphs, every hash seed and presentation order.","Tests check a few arguments each in one hash order; ties in the majority set and merges of overlapping colourings depend on iteration order.",
 [NA,"src/compare.rs"],[("VertexOrEdge, VertexMapOperations, VertexColouring","src/graph.rs"),("compare_subgraph","src/compare.rs")])
p("C27","An answer always describes the graph and files as they are when it is asked for",
 "Whatever was computed before, and however the graph was changed in between (edits that keep all counts, edges exchanged, vertices contracted or replaced, another graph put in the same place, swaps of an order, deeper augmentation, files overwritten), every query, traversal, algorithm, derived structure, save and load answers for the contents of that moment. An answer handed out earlier does not change when the graph it came from is edited or dropped, and repeating a question with nothing changed in between gives an answer that is equally right.",
 ["histories","schedules","inputs"],
 "For every history of edits and computations, including edits that restore every size, count and address a cache could be keyed by.",
 "Each test builds a graph, asks once and drops it; none edits a graph between two computations, so any result remembered by size, address or identity passes them all.",
 ["src/editgraph.rs","src/ordgraph.rs","src/dtfgraph.rs","src/algorithms/graph.rs",AL,"src/io.rs"],[("no structure remembers answers; derived structures are copies","src/*.rs")],
 observe=["answers of all computations after each change","structures derived before a change"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
from jsonschema import validate
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: validate(x,s); assert x["statement"].count(". ")<=3,(x["id"])
print(len(P))
