#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CFG = "every configuration with 1 <= min_children <= max_children/2"

p("C01", "The tree behaves as a multimap: no entry lost, duplicated or invented",
  "After any sequence of inserts, unique inserts and removals, on any configuration with 1 <= min_children <= max_children/2, iteration, the length, the emptiness test and key lookups show exactly the entries that were inserted and not yet removed. A removal returns the value of one entry with that key (or nothing if there is none) and takes exactly that entry out; a unique insert replaces the value of one existing entry with that key and returns the old value, or adds exactly one entry and returns nothing. No such operation panics.",
  ["histories", "inputs", "configurations"], "all operation histories over overlapping, nested, touching and duplicate keys, in 1, 2 and 3 dimensions, for " + CFG,
  "The unit tests run one pseudo-random 50-key history at max 4/min 2 with distinct keys; splits, cascading underflow, root collapse, duplicate keys and other configurations depend on the exact history.",
  ["src/lib.rs", "src/node.rs", "src/split.rs", "src/select.rs", "src/fc_vec.rs"],
  [("insertion, overflow and root growth", "src/node.rs insert, self_insert, branch"), ("removal, underflow and reinsertion", "src/node.rs remove, try_unbranch"), ("unique insertion", "src/node.rs insert_unique"), ("splitting", "src/split.rs")],
  [("root", "the hierarchy of nodes that holds the entries", "src/lib.rs")], ["RTree::iter", "RTree::len", "RTree::get", "return values"])

p("C02", "Every node's bounds are exactly the union of what lies below it",
  "After any sequence of inserts, unique inserts and removals, the bounds of every node, as shown to query filters, are exactly the union of the bounds of the keys stored below that node, with axis-aligned boxes as bounds. They are never too small (which would hide entries from queries) and never stale or too large after a removal or a split.",
  ["histories", "configurations"], "all histories of inserts, unique inserts and removals from the empty tree and from grown trees, for " + CFG,
  "The debug assertion for this is only run on one random history of distinct keys at one configuration; stale bounds need particular split and removal orders.",
  ["src/node.rs", "src/split.rs", "src/bounds.rs"],
  [("bounds maintenance", "src/node.rs insert, insert_unique, remove, branch"), ("bounds of split halves", "src/split.rs split")],
  [("bounds", "bounding volume of a node", "src/node.rs Node")], ["Debug output of the tree", "SpatialFilter::test_bounds arguments"])

p("C03", "Nodes keep the configured fill and all leaves stay at the same depth",
  "After any sequence of operations no node has more than max_children children, every node other than the root has at least min_children children, a root that is not a leaf has at least two children, and all leaves are at the same depth. This holds for every configuration with 1 <= min_children <= max_children/2, whatever was inserted and removed before.",
  ["histories", "configurations"], "all histories of inserts, unique inserts and removals, for " + CFG,
  "The minimum is asserted by one test on one random insert-only history; no test asserts it after removals, asserts the height, or looks at other configurations.",
  ["src/node.rs", "src/split.rs"],
  [("split distribution", "src/split.rs split"), ("underflow handling", "src/node.rs remove"), ("root growth and collapse", "src/node.rs branch, try_unbranch")],
  None, ["Debug output of the tree"])

p("C04", "A filtered query yields exactly the matching entries, each once",
  "In every reachable tree, and for every filter whose bounds test never rejects bounds that contain a matching key, filtered iteration, shared or mutable, yields every entry whose key matches the filter exactly once and no other entry, and unfiltered iteration yields every entry exactly once.",
  ["histories", "inputs"], "all reachable trees within the bounds, all subsets of the key alphabet as filters with the tightest permitted bounds test, and loose ones",
  "No unit test checks the result of a filtered query at all; the benchmark only consumes one.",
  ["src/iter.rs", "src/iter_stack.rs", "src/filter.rs"],
  [("depth-first traversal with pruning", "src/iter.rs Iter::next, IterMut::next"), ("stack of per-level iterators", "src/iter_stack.rs")], None, ["RTree::filter_iter", "RTree::filter_iter_mut", "RTree::iter", "RTree::iter_mut"])

p("C05", "Rejected subtrees are never searched and nothing is examined twice",
  "Once a filter has rejected the bounds of a node, a query examines nothing below that node: no bounds and no key there is passed to the filter; and no node or entry is examined more than once per query. The same holds for joins: nothing below a rejected pair of nodes is combined, and a pair of nodes or keys is examined only if a pair that it lies in was accepted before. Lookups, mutable lookups and unique inserts compare keys only in leaves where the bounds of every node on the path below the root contain the key's bounds.",
  ["histories", "inputs"], "all reachable trees within the bounds, all choices of rejected node bounds (and pairs of bounds)",
  "Pruning changes no result when it is missing, so no result-checking test can see it; it depends on the tree shape.",
  ["src/iter.rs", "src/join.rs", "src/left_join.rs", "src/node.rs"],
  [("bounds test before descent", "src/iter.rs, src/join.rs, src/left_join.rs"), ("containment test before descent", "src/node.rs get, into_get_mut")], None, ["arguments of SpatialFilter, JoinFilter and Eq calls"])

p("C06", "Ranked iteration is complete and in ascending order",
  "In every reachable tree and for every ranking whose bounds metric is a lower bound of the metrics of the contained keys, ascending iteration yields every entry exactly once in non-decreasing metric order; its filtering form yields exactly the entries with a metric, in the same order, and the minimum queries return the first entry of the corresponding iteration. Shared and mutable forms agree.",
  ["histories", "inputs"], "all reachable trees within the bounds, rankings with ties, tight, loose and constant lower bounds, and all thresholds of the filtering form",
  "One test ranks one grid from one point with the built-in ranking; ties between nodes and entries, loose bounds, the filtering and the mutable forms are untested.",
  ["src/iter.rs", "src/ranking.rs", "src/lib.rs"],
  [("priority queue over nodes and entries", "src/iter.rs SortedIter, FilterSortedIter and mutable forms")], None, ["RTree::iter_asc_by", "filter_iter_asc_by", "min_by", "filter_min_by and _mut forms"])

p("C07", "Ranked search is best-first: it opens no node beyond the answer",
  "While ranked iteration has yielded entries only up to some metric, it has looked inside no node whose lower bound is greater than that metric, and it asks for the metric of each node and each key at most once. In particular a minimum query does not open a node whose lower bound exceeds the minimum.",
  ["histories", "inputs"], "all reachable trees within the bounds, every prefix of every ranked iteration",
  "Opening too many nodes changes no result, so tests of results cannot see it.",
  ["src/iter.rs", "src/ranking.rs"],
  [("order of the priority queue", "src/iter.rs IterHeap")], None, ["arguments of Ranking::bounds_min and rank_key between yields"])

p("C08", "A join yields exactly the matching pairs, each once",
  "For any two reachable trees, of equal or different heights and configurations, and any join filter whose bounds test never rejects a pair of bounds that contain a matching pair of keys, the join yields every pair of a left and a right entry whose keys match exactly once and nothing else. Filtering one tree by a key of the other and the same join filter yields exactly that key's partners.",
  ["histories", "inputs", "configurations"], "all pairs from a family of reachable trees of heights 1 to 5 and configurations, for join filters from all-pairs to none",
  "The pairwise join is never run by a unit test; only the product of two slices is.",
  ["src/join.rs", "src/iter_stack.rs", "src/filter.rs"],
  [("simultaneous descent with padding of the shorter tree", "src/join.rs start_join, next")], None, ["RTree::join"])

p("C09", "A left join yields every left entry once with exactly its right matches",
  "For any two reachable trees and any sound join filter, the left join yields every left entry exactly once, each with an iterator over exactly the right entries that match it, each once. Those inner iterators give the same results however they are interleaved with each other and with the outer iterator: consumed at once, kept and consumed later, partly consumed, dropped early, or used after the outer iterator is gone.",
  ["histories", "schedules", "configurations"], "all pairs from a family of trees of heights 1 to 5, and all interleavings of the outer and the inner iterators and their drops up to a depth",
  "One test joins one random pair of trees of similar height and consumes each inner iterator at once; the buffer shared between the iterators is only exercised in one order.",
  ["src/left_join.rs", "src/rc_mut.rs", "src/iter_stack.rs"],
  [("rewindable right-hand stack", "src/left_join.rs next, rewind"), ("buffer reuse", "src/rc_mut.rs RcMutAlloc, RcMut")],
  [("shared", "whether the buffer is referenced by both the outer and an inner iterator", "src/rc_mut.rs RcMutBox")], ["RTree::left_join"])

p("C10", "A clone is an equal tree and the two never affect each other",
  "Cloning any reachable tree yields a tree with the same entries in the same structure; afterwards any operation on one of them leaves the other unchanged, the same operations applied to both produce identical results and identical structures, and either can be dropped first.",
  ["histories"], "all reachable trees within the bounds and all following operations on either copy",
  "One test clones one tree and compares; nothing is done to the copies afterwards.",
  ["src/node.rs", "src/fc_vec.rs", "src/lib.rs"],
  [("deep clone of nodes", "src/node.rs clone_node, clone_children"), ("clone of leaves", "src/fc_vec.rs Alloc::clone")], None, ["RTree::clone", "Debug output"])

p("C11", "Memory is managed exactly: no leak, double drop or invalid access",
  "Over any history of operations, queries, joins and clones, with iterators consumed fully, partly or not at all, every key, value and bounds object is dropped exactly once, objects removed or replaced are released at once, and after the trees are gone all heap memory has been returned. No operation reads or writes memory that is not its own, freed or uninitialised, and this includes keys and values of size zero.",
  ["histories", "inputs"], "all histories within the bounds on instrumented keys, values and bounds, including zero-sized and over-aligned ones",
  "One test counts drops after 50 inserts; removals, replaced values, reinsertions, clones, iterators and zero-sized entries are not covered, and plain tests do not notice invalid accesses.",
  ["src/fc_vec.rs", "src/node.rs", "src/iter_stack.rs", "src/rc_mut.rs", "src/left_join.rs", "src/util.rs"],
  [("manual allocation of child vectors", "src/fc_vec.rs"), ("untagged child unions and ownership wrappers", "src/node.rs"), ("iterator stacks of unions", "src/iter_stack.rs")], None, ["drop counts", "allocator", "Miri"])

p("C12", "A panic in user code never corrupts memory",
  "If any user-supplied callback (key comparison, key bounds, bounds union, containment, intersection, volume, clone, filter or ranking) panics at any point of any operation and the panic is caught, no object is ever dropped twice or used after it was dropped, and the tree can still be iterated, yielding only entries that were in it or being inserted, each at most once, and dropped. Operations that only read leave the tree exactly as it was.",
  ["fault_sequences", "histories"], "for every operation from a family of states, a panic injected at every single callback invocation",
  "No test injects a panic; which moves are in flight when it strikes depends on the invocation.",
  ["src/node.rs", "src/split.rs", "src/fc_vec.rs", "src/iter_stack.rs"],
  [("ownership wrappers that drop on unwind", "src/fc_vec.rs FCVecContainer, src/node.rs NodeContainer"), ("bounds computed before moves", "src/node.rs branch")], None, ["drop registry", "tree contents after catch_unwind"])

p("C13", "All key operations agree on which duplicate is the first",
  "When several entries have equal keys, lookup, mutable lookup, unique insert and removal all act on the same one of them: the one that iteration yields first. All other entries with that key keep their values.",
  ["histories", "inputs"], "all reachable trees within the bounds that contain duplicate keys",
  "No unit test stores two entries with the same key.",
  ["src/lib.rs", "src/node.rs"],
  [("search order", "src/node.rs get, into_get_mut, insert_unique, remove")], None, ["values returned"])

p("C14", "Mutable access reaches each value once and changes nothing else",
  "Every mutable query (by key, full, filtered, ranked, filtered ranked and minimum) hands out references to exactly the values of the entries that its shared form yields, no two of them to the same value, and a value written through one is what every later query shows for that entry and for no other. Neither mutable nor shared queries change the set of entries, the bounds or the structure.",
  ["histories", "inputs"], "all reachable trees within the bounds, every mutable query over them",
  "One test writes one value through one lookup in a tree with one entry.",
  ["src/iter.rs", "src/node.rs", "src/lib.rs"],
  [("mutable traversal", "src/iter.rs IterMut, SortedIterMut, FilterSortedIterMut"), ("mutable lookup", "src/node.rs into_get_mut")], None, ["values seen by later queries", "Debug output before and after"])

p("C15", "Box and point predicates and box unions are geometrically exact",
  "A box contains a point or another box, and intersects a point or another box, exactly when this is true of the closed regions, also when asked from the point's side; a box touching another at a face, edge or corner intersects it. The union of boxes is the smallest box containing them, the empty box is its identity, and the bounds and the volume of points and boxes are exact, in every dimension.",
  ["inputs"], "all points and pairs of boxes over a small integer grid in one to six dimensions and a reduced set in up to 65, signed, unsigned and floating-point coordinates",
  "One test asks whether two particular boxes overlap.",
  ["src/bounds.rs", "src/vector.rs", "src/contains.rs", "src/intersects.rs"],
  [("box predicates", "src/bounds.rs Contains and Intersects for AABB"), ("componentwise comparisons", "src/vector.rs")], None, ["return values"])

p("C16", "Segment, ray and sphere tests agree with exact geometry",
  "A line segment intersects a box exactly when some point of the closed segment lies in the closed box, and a ray exactly when some point at or ahead of its origin does, including touching, axis-parallel, degenerate and flat cases; a sphere intersects a point exactly when the point is within its radius. The bounds of segments and spheres are the smallest boxes around them and the length of a segment is its Euclidean length; all of this holds for coordinates that differ by less than 2^26, and beyond that for touching shapes, too, while shapes separated by less than the rounding error may be taken to touch.",
  ["inputs"], "all segments, rays, spheres, boxes and points over a small integer grid in one to six dimensions and a reduced set in up to 65, plus longer segments, for signed, unsigned and floating-point coordinates",
  "Three hand-picked segments are tested, rays and spheres not at all; boundary cases turn on zero direction components and on rounding.",
  ["src/intersects.rs", "src/geom/line.rs", "src/geom/ray.rs", "src/geom/sphere.rs"],
  [("slab method", "src/intersects.rs"), ("sphere test and bounds", "src/geom/sphere.rs")], None, ["return values"])

p("C17", "The provided filters answer spatial queries exactly on any tree",
  "In every reachable tree, a query with one of the provided filters (intersects or contains, by shape or by shape and its bounds, for the shape and key types the crate supports) yields exactly the entries whose keys intersect, or are contained in, the query shape.",
  ["histories", "inputs"], "all trees of a family of histories over a grid, all query boxes, points, spheres, segments and rays on the grid, for box, point and segment keys",
  "No unit test checks the result of any filter; a wrong bounds test only shows for particular combinations of shape and node bounds.",
  ["src/filter.rs", "src/bounds.rs", "src/intersects.rs", "src/geom/line.rs"],
  [("bounds test is implied by the key test", "src/filter.rs")], None, ["RTree::filter_iter results against brute force"])

p("C18", "Distances are exact and nearest-neighbour queries return the nearest",
  "The squared distance from a point to a point or a box and between two boxes is the exact Euclidean value, zero when they touch or overlap; the distance to a node's bounds is never greater than the distance to any key inside (as long as the metric type can represent these values). Ranking any reachable tree by distance to a point therefore yields its entries from nearest to farthest.",
  ["histories", "inputs"], "all points and boxes over a small integer grid in one to six dimensions and a reduced set in up to 65, and all query points against a family of trees",
  "One ranked test on one grid of points from one centre; box keys and box-to-box distances are only used in one join.",
  ["src/ranking.rs", "src/bounds.rs", "src/vector.rs"],
  [("closest point of a box", "src/ranking.rs dist_sq"), ("box distance", "src/bounds.rs sq_dist_to")], None, ["return values", "RTree::iter_asc_by, min_by"])

p("C19", "Every query on an empty tree is answered with nothing, without panicking",
  "On a tree that is empty, whether new or emptied by removals, every query, ranked query and join on either side, with any provided filter, ranking or distance test, yields nothing (a left join with an empty right side yields each left entry with no matches) and does not panic. The tree then accepts entries as usual.",
  ["histories", "inputs", "configurations"], "every query kind on every way of reaching an empty tree within the bounds, at every configuration",
  "No test queries an empty tree.",
  ["src/iter.rs", "src/join.rs", "src/left_join.rs", "src/node.rs"],
  [("handling of an empty root", "src/iter.rs, src/join.rs, src/left_join.rs")], None, ["results of all queries"])

p("C20", "The whole coordinate range is usable, signed, unsigned and floating",
  "With 32-bit signed, unsigned or floating-point coordinates anywhere in their range, including the extreme values, and in few enough dimensions (seven) for volumes to be finite, inserting, removing, looking up, querying by box or point, testing segments, rays and spheres against boxes and points, and measuring lengths, volumes and box distances do not panic or overflow and give the right result, up to the rounding of 64-bit floating point (the bounds of a sphere are cut off at the ends of the range).",
  ["inputs", "histories"], "all histories up to a depth over keys at the extremes and around zero of each coordinate type, and all predicate arguments over those values",
  "Tests use coordinates from 0 to about 1000 only.",
  ["src/bounds.rs", "src/intersects.rs", "src/geom/sphere.rs", "src/split.rs", "src/select.rs"],
  [("volume and distance arithmetic", "src/bounds.rs"), ("predicate arithmetic", "src/intersects.rs, src/geom/sphere.rs")], None, ["results and panics"])

p("C21", "Iterators are independent, resumable and stay finished",
  "Every iterator yields the same sequence whether it is run at once or stepped in any interleaving with other iterators over the same tree, and can be abandoned after any number of steps without affecting anything; once it has reported the end it keeps reporting the end. Skipping, counting, folding, searching and collecting, from any position, agree with stepping, and size hints are right.",
  ["schedules", "histories"], "all interleavings of two and three iterators of all kinds over a family of trees, all prefixes, repeated calls after the end",
  "Tests run one iterator at a time, to its end, once.",
  ["src/iter.rs", "src/join.rs", "src/left_join.rs", "src/iter_stack.rs"],
  [("iterator-owned stacks", "src/iter_stack.rs"), ("termination of traversal", "src/iter.rs, src/join.rs, src/left_join.rs next")], None, ["sequences yielded"])

p("C22", "Lookups by a borrowed form of the key match lookups by the key",
  "When keys can be borrowed as another type with equal bounds and equality, lookup, mutable lookup, removal, filtered queries and joins given the borrowed type find and affect exactly the entries that they would with the owned key.",
  ["histories", "inputs"], "all histories within the bounds mixing owned and borrowed access over sized and unsized borrowed types, also borrowed forms that lie within the owned key, at the same address for different keys",
  "No test uses a borrowed key of a different type.",
  ["src/lib.rs", "src/node.rs", "src/iter.rs", "src/join.rs", "src/left_join.rs"],
  [("Borrow-based access", "src/lib.rs get, get_mut, remove, filter_iter, join, left_join")], None, ["results of all of these"])

p("C23", "Any lawful bounds type works, also one whose unions over-approximate",
  "With a user-defined bounds type whose unions contain their arguments but may be larger than necessary, and whose containment and intersection tests are consistent with that, every node's bounds contain the bounds of every key below it, and all operations, queries, ranked queries and joins give the same results as with exact bounds.",
  ["histories", "inputs", "configurations"], "all histories within the bounds with several over-approximating bounds types, one whose unions depend on the order, sets of labels, and bounds that are all the same",
  "All tests use exact axis-aligned boxes.",
  ["src/bounds.rs", "src/node.rs", "src/split.rs", "src/select.rs"],
  [("reliance on the documented contract of bounds only", "src/node.rs, src/split.rs, src/select.rs")], None, ["results", "SpatialFilter::test_bounds arguments"])

p("C24", "A tree can be shared between threads exactly when its contents can",
  "A tree may be sent to, or shared with, another thread if and only if its bounds, keys and values all may; its iterators may be sent or shared only if what they hand out may, and those of left joins, which share a buffer, never. Queries that run at the same time on several threads over a shared tree give the same results as when run alone and leave the tree unchanged. Operations on different trees never influence each other, and neither does the thread on which an operation on a tree runs.",
  ["schedules", "programs"], "all combinations of contents that can or cannot be sent and shared; all schedules of two and three threads, switching at every callback and every item, up to a number of switches",
  "No test uses threads, and a program that shares what must not be shared compiles or not without any test noticing.",
  ["src/fc_vec.rs", "src/node.rs", "src/iter.rs", "src/join.rs", "src/left_join.rs", "src/rc_mut.rs"],
  [("Send and Sync of the manually allocated vectors", "src/fc_vec.rs"), ("unsynchronised flag shared by iterators", "src/rc_mut.rs"), ("queries without shared mutable state", "src/iter.rs, src/join.rs, src/left_join.rs")], None, ["auto traits of trees and iterators", "results on threads"])

p("C25", "Operations without effect change nothing, and entries stay whole",
  "Removing a key that is not in the tree changes nothing: not the structure, the bounds, the order of iteration or any value. A unique insert of a key that is in the tree changes nothing but the value of one entry, which keeps its own key object. Through all operations each entry keeps the key object and the value that belong together. (Bounds may grow if the union of bounds with something that they contain does.)",
  ["histories"], "all reachable trees within the bounds, with all absent keys and all present ones; histories over keys with an identity that equality does not see",
  "Restructuring that leaves the entries as they are, or an exchange of equal keys, changes no result that a test compares.",
  ["src/node.rs", "src/lib.rs"],
  [("search before any change", "src/node.rs remove, insert_unique"), ("replacement in place", "src/node.rs insert_unique")], None, ["structure before and after", "identity of the keys yielded"])

p("C26", "An insertion or removal changes one path of the tree only",
  "An insertion puts the entry into one leaf, which is reached from the root through children whose bounds grow least in volume by it (a plain insertion takes the smallest of those that grow equally), splits a node, in two, only if it would otherwise have more than max_children children, adds a level only if the root is split, and leaves the structure of everything beside this path as it was. A removal from a leaf that is the root or keeps at least min_children entries changes that leaf and the bounds above it, and nothing else. (With axis-aligned boxes whose volumes are exact; with other bounds, the same holds except for the choice of the children.)",
  ["histories", "configurations"], "all transitions of the reachable trees within the bounds, for " + CFG,
  "Tests compare results, which are the same for any tree shape; the shape is what makes queries fast.",
  ["src/node.rs", "src/select.rs", "src/split.rs"],
  [("choice of the child", "src/select.rs"), ("overflow and split", "src/node.rs self_insert, src/split.rs"), ("removal without underflow", "src/node.rs remove")], None, ["structure before and after each operation"])

p("C27", "Vectors act component by component",
  "Sums, differences, extremes, comparisons, indexing, mapping and zipping of vectors are those of their components, each with its own index, in every dimension and for every coordinate type, whenever the results are representable; the squared magnitude is the sum of the squares; equality, order and hash agree with those of the components in order; the delta of a segment leads from its start to its end.",
  ["inputs"], "all pairs of vectors over tables of typical and extreme coordinates in one to five dimensions, a reduced set in up to 65 dimensions, and six coordinate types",
  "No test covers vectors by themselves; mistakes in one dimension or for one sign show on few inputs only.",
  ["src/vector.rs", "src/geom/line.rs"],
  [("componentwise operations", "src/vector.rs"), ("Line::delta", "src/geom/line.rs")], None, ["results"])

p("C28", "Queries are lazy",
  "Creating a filtered query, a join or a left join examines no key, and when its iterator yields an entry (a join: a pair of entries), the last thing that was examined is the key of that entry (the keys of that pair): nothing is searched ahead. The outer iterator of a left join combines no keys by itself; its inner iterators do, one step at a time.",
  ["histories", "inputs", "schedules"], "all reachable trees and pairs of trees within the bounds, all filters and relations, each step; inner iterators stepped at once, later and at the end",
  "Searching ahead changes no result, only what a query costs that is abandoned early.",
  ["src/iter.rs", "src/join.rs", "src/left_join.rs"],
  [("traversal on demand", "src/iter.rs, src/join.rs, src/left_join.rs next")], None, ["order of the arguments of filters and the items yielded"])

p("C29", "Destructors that panic or never run corrupt nothing",
  "If the destructor of a key, value or bounds object panics during an operation, nothing is dropped twice, used after it was dropped or invented, and the trees that are left can go on being used and dropped; memory may be leaked. Forgetting an iterator of any query, instead of dropping it, at any point leaves its trees unchanged and usable, and every inner iterator of a left join that is still there goes on correctly when its outer iterator or others were forgotten.",
  ["histories", "fault_sequences", "schedules"], "all reachable trees within the bounds, every operation, each destructor that it runs panicking in a run of its own; every query forgotten after every number of steps; all schedules of stepping, dropping and forgetting the iterators of a left join",
  "A test would have to place a panic in each single destructor call, and to forget iterators at each point; no existing test does either.",
  ["src/node.rs", "src/fc_vec.rs", "src/rc_mut.rs", "src/left_join.rs"],
  [("order of moving out, overwriting and dropping", "src/node.rs remove, insert_unique, Drop; src/fc_vec.rs"), ("shared buffer of the left join", "src/rc_mut.rs")], None, ["objects alive", "allocations", "results of later operations"])

p("C30", "No configuration makes the tree unsound, and none with two children wrong",
  "With any max_children of at least 2 and any min_children, also 0 or more than half of max_children, all operations work without panicking and have the results of a multimap, no node has more than max_children children, no node of a tree with entries is empty, and all leaves are at the same depth. With a max_children of 0 or 1, or one that is too large for memory to be addressed, operations may panic, but no entry is ever dropped twice, used after it was dropped, or yielded twice.",
  ["configurations", "histories"], "all configurations with max_children from 0 to 5 and min_children from 0 to 7 and at the end of the range, and capacities whose size in bytes overflows, for all short histories; growing and draining histories up to 8 children; larger nodes in walks",
  "The existing tests use two configurations, max 4/min 2 and one for a data set.",
  ["src/node.rs", "src/fc_vec.rs", "src/split.rs", "src/lib.rs"],
  [("capacity checks before moving", "src/node.rs branch; src/fc_vec.rs push, alloc_buf"), ("underfull nodes", "src/node.rs remove")], None, ["results, panics, objects alive, allocations"])

p("C31", "User code that breaks its contracts never makes the tree unsound",
  "If bounds, keys, filters, rankings or metrics answer wrongly or inconsistently (equality, containment, intersection, unions, volumes, tests, metrics and their order, in any combination), results may be wrong and operations may panic, but memory stays sound: nothing is dropped twice, used after it was dropped, leaked or invented. As long as nothing has panicked, entries are conserved: the tree has exactly those that were inserted and not returned, and every query yields each of them (a join: each pair) at most once.",
  ["inputs", "histories"], "all short histories with one or two single wrong answers at any point, long histories with one, and all combinations of constantly wrong kinds of answers",
  "Tests use correct types only, so that unsafe code that relies on what user code answers is never exercised with wrong answers.",
  ["src/node.rs", "src/iter.rs", "src/split.rs", "src/fc_vec.rs", "src/left_join.rs"],
  [("unsafe code that does not depend on answers", "src/node.rs, src/fc_vec.rs, src/iter_stack.rs")], None, ["objects alive", "allocations", "entries yielded"])

p("C32", "Running out of memory ends in the handler of allocation errors",
  "If any memory allocation fails while an operation, a query or a clone is running, the process is ended by the handler of allocation errors (or the operation panics). It never goes on with memory that was not allocated, and never returns a result.",
  ["fault_sequences", "histories"], "each allocation of each history of a bounded length, and of growing and draining histories with each kind of query at the end, failing in a process of its own",
  "Allocations do not fail in tests; code that does not check for it works everywhere until memory runs out.",
  ["src/fc_vec.rs", "src/iter.rs", "src/left_join.rs"],
  [("null check of new buffers", "src/fc_vec.rs alloc_buf")], None, ["exit status of the process"])

p("C33", "Equal trees behave equally, whatever their past",
  "Two trees with the same configuration and the same nodes, bounds and keys in the same order have the same future, whatever operations they have been through before and whatever other trees exist: each operation has the same result for both (for queries: the entries at the same positions, in the same order, also where a ranking has ties) and leaves equal trees. The types and contents of the values, and the size of keys, have no influence on structure or order.",
  ["histories", "inputs"], "all pairs of histories found to lead to equal trees within the bounds (by search, preambles that are drained again, clones, writes, failed operations), all operations and queries on both; all short histories with seven types of keys and values",
  "A test compares a result with an expectation for one history; a dependence on hidden state needs two histories with equal trees.",
  ["src/node.rs", "src/lib.rs", "src/split.rs", "src/select.rs", "src/iter.rs"],
  [("operations on nodes only", "src/node.rs")], None, ["results by position", "Debug output of the tree"])

p("C34", "Insertions and removals work along paths of the tree",
  "An insertion uses no bounds and keys of the tree but those of the children of the nodes on a single path from the root, and how often is bounded by the height of the tree and the square of the number of children of a node, not by the number of entries. Except for the root, a removal that dissolves no node, and the search of a unique insertion, use only children of nodes whose bounds, like those of all nodes above them, intersect the bounds of the key.",
  ["histories", "configurations"], "every operation in every reachable state within the bounds, and every step of growing and draining histories of up to 160 entries, for all configurations of the other structural checks",
  "Looking at more of the tree than necessary changes no result; no test counts what an operation examines.",
  ["src/node.rs", "src/select.rs", "src/split.rs"],
  [("descent", "src/node.rs insert, insert_unique, remove; src/select.rs")], None, ["calls of Bounds, Volume, Bounded and Eq"])

p("C35", "User code may use trees and iterators while the library calls it",
  "Code that the library calls (bounds, keys, values and their destructors, filters, rankings, metrics) may itself use the library: any operation on another tree, any query on a tree that is only being read, and any other iterators, also the inner iterators of the left join that is being stepped and, from a step of an inner iterator, the left join itself: step them, drop them. The interrupted operation and the nested one each have the results, and leave the trees, that they would on their own; memory stays sound and nothing leaks.",
  ["schedules", "histories"], "each callback of each operation and query, on all trees within the bounds, with each nested operation; all callbacks with nested operations by turns; left joins in three ways of stepping with their inner iterators and one other iterator stepped or dropped within each callback",
  "User code in tests is pure; shared scratch space, borrowed state or a flag that is updated too late only shows when a callback comes back into the library.",
  ["src/left_join.rs", "src/rc_mut.rs", "src/iter.rs", "src/node.rs"],
  [("buffer shared by the left join and its inner iterators", "src/rc_mut.rs"), ("operations without shared state", "src/node.rs, src/iter.rs, src/join.rs")], None, ["results of both operations", "Debug output of the trees", "objects alive", "allocations"])

p("C36", "Memory follows the contents",
  "A tree holds memory for the nodes it consists of and nothing else, whatever it has been through: growing and shrinking leaves nothing behind, a clone needs no more than its original, an emptied tree no more than a new one. Operations and queries need a bounded number of nodes' worth of memory per level of the tree while they run, a ranked query in addition as much as the things it has looked at, a left join as much again for each inner iterator that is alive; all of it is released when they end.",
  ["histories", "schedules"], "every operation in every reachable state within the bounds, every step of growing and draining histories of up to several hundred entries for all configurations of the structural checks, every step of every query, left joins with inner iterators dropped at once, kept, or dropped later",
  "Memory that is kept too long or reserved too generously changes no result and is freed in the end, so that neither tests nor leak detection see it.",
  ["src/fc_vec.rs", "src/iter_stack.rs", "src/iter.rs", "src/rc_mut.rs", "src/left_join.rs", "src/node.rs"],
  [("buffers of nodes", "src/fc_vec.rs"), ("stacks of iterators", "src/iter_stack.rs"), ("buffers of the left join", "src/rc_mut.rs")], None, ["bytes held and peak bytes of the allocator"])

p("C37", "The compiler lets users do what is sound, and nothing else",
  "A tree is borrowed by a query exactly as long as the query's iterator, or an entry it handed out, is going to be used: by shared queries so that the tree can still be read and not be changed, by mutable ones so that it can not be used at all. Entries outlive the iterators that yielded them, those of a join are tied only to the tree they come from, and none of them is tied to the filter, ranking or key that was asked for. What keys and values refer to has to outlive what is obtained from the tree, and nothing more. Programs that keep to this compile, and programs that do not are rejected.",
  ["inputs"], "all programs of a bounded number of steps (uses of the iterator, of an item, changes and reads of the trees, moves and drops) for each kind of query, and hand-enumerated families for what keys, values and filters refer to",
  "A program that has to be rejected cannot be a unit test, and which programs are accepted depends on signatures, not on what any run does.",
  ["src/lib.rs", "src/iter.rs", "src/join.rs", "src/left_join.rs"],
  [("lifetimes in signatures", "src/lib.rs"), ("lifetimes of items", "src/iter.rs, src/join.rs, src/left_join.rs impl Iterator")], None, ["verdict of the compiler on client programs"])

p("C38", "Results do not depend on how the crate is built",
  "Built with or without debug assertions and overflow checks, and at any level of optimisation, all operations and queries have the same results, make the same calls of user code in the same order and leave the same trees, and geometry gives the same answers, for coordinates whose differences and volumes are finite as 64-bit floating-point numbers.",
  ["inputs", "histories", "configurations"], "all reachable states within the bounds with every operation and query on them, prefixes of growing and draining histories, and blocks of shapes over tables of coordinates, each recorded in both builds",
  "Tests run in one build only; code in a debug assertion, or arithmetic that wraps without checks, differs in the build users ship.",
  ["src/node.rs", "src/fc_vec.rs", "src/iter.rs", "src/bounds.rs", "src/geom", "src/intersects.rs"],
  [("checks of capacities and levels", "src/fc_vec.rs, src/node.rs"), ("unsafe code", "src/node.rs, src/iter_stack.rs, src/rc_mut.rs"), ("arithmetic", "src/bounds.rs, src/intersects.rs")], None, ["digest of results, calls and Debug output"])

p("C39", "Keys without extent are entries like others",
  "Keys whose bounds are those of nothing (inverted boxes such as the empty box, empty sets of labels) are entries like others, alone and among others with an extent: they are stored, counted, found by lookups, replaced, removed, iterated in the same order as others, found by the filters, rankings and joins of users that accept the bounds of nothing, and they leave the bounds of nodes as those of the other keys below. No operation panics on them; the volume of empty bounds is zero.",
  ["histories", "inputs"], "all histories within the bounds in which a third, two thirds or all of the keys are empty, boxes in one to three dimensions of signed, unsigned and floating-point coordinates and sets of labels; keys without an extent that differ from each other",
  "Bounds::empty is part of the public interface, and what a key without extent does to the heuristics and to the search for a path depends on where in the tree it ended up.",
  ["src/node.rs", "src/bounds.rs", "src/lib.rs", "src/split.rs"],
  [("search for the path of a key", "src/node.rs get, remove, insert_unique"), ("volume and union of empty bounds", "src/bounds.rs")], None, ["contents", "lookups", "Debug output", "results of queries"])

p("C40", "Coordinates and vectors of the user's own",
  "Trees, geometry, filters, rankings and joins work with any coordinate type that has an order, bounds, arithmetic and a conversion to a 64-bit floating-point number, and with any vector type: types that own memory and have to be cloned, that are ordered against their numeric value, whose differences vanish in floating point, that are only 8 or 16 bits wide, vectors whose components differ in type. Relations of shapes are those of the same shapes made of integers; every property of trees holds as for the library's own types. Coordinates are compared by their own order, arithmetic on them stays within the extent of the operands, and each coordinate that is made is dropped exactly once.",
  ["inputs", "histories", "configurations"], "shapes over tables of coordinates in one to three dimensions, histories, queries and pairs of trees within the bounds, for each of eight types of coordinates and vectors; joins between trees of different key types",
  "Tests use integers and floats of the standard library, for which Copy, the default order and conversions hide wrong assumptions about a generic type.",
  ["src/bounds.rs", "src/vector.rs", "src/contains.rs", "src/intersects.rs", "src/geom", "src/ranking.rs", "src/filter.rs"],
  [("generic arithmetic and comparisons", "src/bounds.rs, src/contains.rs, src/intersects.rs, src/ranking.rs"), ("vectors", "src/vector.rs")], None, ["relations of shapes", "results of operations and queries", "coordinates alive", "verdict of the compiler on the checker itself"])

p("C41", "The Debug output shows the tree as it is",
  "The Debug output of a tree shows each entry once, key and value together, in the order of iteration and all at the same depth, and the bounds of each node once; options of formatting reach the bounds, keys and values, and change the layout only. When the writer, or a bound, key or value fails, formatting stops there and reports it, and what was written is the beginning of the whole output; a panic goes through. Formatting does not change the tree.",
  ["histories", "fault_sequences", "inputs"], "all trees reached by sequences of operations of a bounded length and along growing and draining histories up to tall trees, five sets of options, writers that fail at each byte, each object failing or panicking",
  "The output is what a user debugs with, and what tests of clients compare; a part that is missing or shown twice only in some states is not seen by a test of one output.",
  ["src/node.rs", "src/lib.rs", "src/fc_vec.rs"],
  [("Debug of nodes", "src/node.rs impl Debug"), ("Debug of the tree", "src/lib.rs")], None, ["output", "calls of Debug of bounds, keys and values and their options", "what a filter is shown"])

p("C42", "Splits and removals keep together what lies together",
  "A node that is split, whose children lie in a row and form two groups with a gap that is wider than either group, is split into these groups if each of them has at least the fewest children allowed. When a removal dissolves nodes, what is left of them is put back undivided, nodes with all that is below them, each into the nodes whose volume grows the least (among those, the smallest), and everything else stays where it was.",
  ["histories", "configurations"], "every insertion and removal in every state within the bounds, with keys in groups of groups, at all levels of the tree; removals are explained by trying all orders in which parts can have been put back",
  "A tree whose nodes mix distant entries answers all queries correctly and only gets slower; which parts are put back where depends on histories that dissolve inner nodes.",
  ["src/split.rs", "src/select.rs", "src/node.rs"],
  [("seeds and distribution of a split", "src/split.rs worst_combination, QuadraticSplitter"), ("selection", "src/select.rs"), ("putting back of underfull nodes", "src/node.rs NodeContainer::remove")], None, ["Debug output before and after each operation"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
