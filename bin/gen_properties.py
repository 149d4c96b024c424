#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A nearest-neighbour query returns the true nearest data point",
 "For every non-empty finite data set and every finite query point, the non-periodic nearest-neighbour query returns the smallest Euclidean distance from the query to any data point, together with the index of a data point lying at that distance. This holds for every dimension, for f32 and f64, for every leaf size, and however the tree was built.",
 ["inputs", "configurations"],
 "all data sets (duplicates, ties, collinear, clustered, very small, larger than 100000 points), all leaf sizes including zero and leaf sizes exceeding the data, all dimensions, both float widths, both builders, all finite queries inside or far outside the data (squared distances that neither overflow nor underflow)",
 "The tests use one uniform random cloud per run, D=3, f64, one leaf size, queries inside the cloud; ties, degenerate geometry, other dimensions, f32, tiny trees and far queries are never sampled.",
 ["src/query.rs", "src/distance.rs", "src/lib.rs"],
 [("descent, sibling ledger and pruning by distance to the sibling's bounding box", "src/query.rs Tree::check_stem/check_child"),
  ("candidate comparison", "src/distance.rs new_best"),
  ("node bounds written during the build", "src/lib.rs build_nodes, build_nodes_parallel")],
 [("current best", "squared distance and point of the best candidate so far", "src/query.rs"), ("ledger", "siblings still to be visited with distance to their box", "src/query.rs")],
 ["return value of query_nearest"])

prop("C02", "A k-nearest query returns exactly the k nearest data points, in order",
 "For every non-empty finite data set, every finite query and every k, the non-periodic k-nearest query returns min(k, number of data points) neighbours in non-decreasing distance, whose distances are the k smallest distances to the data. The reported indices are distinct, and each one names a data point lying at the distance reported beside it.",
 ["inputs", "configurations"],
 "all data sets, queries, dimensions, float widths, leaf sizes and builders as for C01; all k including 0, 1, the number of points and more than that",
 "The tests use k=80 of 100 uniform points with leaf size 1 (and k=80 of 1000 with 32); k=0, k at or above the data size, ties at the k-th place, degenerate geometry and other dimensions are not reached.",
 ["src/query_k.rs", "src/query_k/container.rs", "src/distance.rs"],
 [("bounded max-heap of candidates", "src/query_k/container.rs Container::push/best_dist2/index"),
  ("pruned traversal", "src/query_k.rs check_stem_k"), ("candidate comparison", "src/distance.rs new_best_kth")],
 [("candidate heap", "the best candidates so far, largest on top", "src/query_k/container.rs")],
 ["return value of query_nearest_k"])

prop("C03", "A periodic nearest-neighbour query uses the minimum-image distance",
 "Once a box size has been accepted, for every query inside the box the nearest-neighbour query returns the smallest distance from the query to any data point or any periodic copy of a data point (copies displaced by whole box sides along any subset of the axes), and the index of a data point having a copy at that distance.",
 ["inputs", "configurations"],
 "all data inside the box including points exactly on its faces, boxes with unequal sides and boxes larger than the data, queries anywhere in the closed box including faces, edges, corners and the exact centre, all dimensions, both float widths",
 "The tests use the unit cube in 3D with uniform data and queries; non-cubic boxes, boundary points, corners, sparse data (where several images matter at once) and other dimensions are not reached.",
 ["src/query.rs", "src/lib.rs"],
 [("selection of images by distance to the nearest side, edge or vertex", "src/query.rs query_nearest_periodic"), ("per-axis shift towards the nearer side", "src/query.rs query_nearest_periodic")],
 [("images_to_check", "shifted queries that can still improve the answer", "src/query.rs")],
 ["return value of query_nearest on a tree with a box size"])

prop("C04", "A periodic k-nearest query returns the k smallest image distances",
 "Once a box size has been accepted, for every query inside the box the k-nearest query returns, in non-decreasing order, the min(k, number of data points) smallest distances among all data points taken against the query and its 2^D-1 nearest periodic images, where an image moves the query along some non-empty subset of the axes by one box side, up if its coordinate is below half the side and down otherwise. Each reported index names a data point lying at the reported distance from one of those images, and no (point, image) pair is reported twice.",
 ["inputs", "configurations"],
 "all data inside the box, all queries inside the closed box, all k, dimensions, float widths, unequal box sides, single and batch entry points",
 "The tests cover the unit cube in 3D with uniform data and one k per entry point; unequal sides, boundary points, few points with many images, ties and other dimensions are not reached.",
 ["src/query_k.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/container.rs"],
 [("image selection bounded by the k-th best real distance", "src/query_k.rs query_nearest_k_periodic and its copies in parallel*.rs"), ("one heap shared by all images", "src/query_k/container.rs")],
 None, ["return value of query_nearest_k, query_nearest_k_parallel, query_nearest_k_parallel_with on a tree with a box size"])

prop("C05", "Batch queries equal the individual queries, row by row, on any pool",
 "For every batch of valid queries and every k, each parallel batch k-nearest query returns one row of min(k, number of data points) distances and indices per query, in query order, and each row answers its own query exactly as the individual k-nearest query would (indices may differ only between equidistant neighbours). This holds for every number of worker threads, every schedule and every batch size, with or without a box size, and no entry of the result is ever missing, duplicated into another row or left unwritten.",
 ["schedules", "inputs", "configurations"],
 "all batches (empty, one, many more than threads), all k, all thread-pool sizes, calls from inside and outside a pool, all interleavings of the workers, both batch entry points",
 "The tests run one uniform batch on the default global pool with k below the data size; schedules, other pool sizes, empty batches and k beyond the data are never varied.",
 ["src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/container.rs"],
 [("raw writes at query_index * row width into a shared buffer", "src/query_k/container.rs index_into"), ("one scratch container per worker thread", "src/query_k/parallel_with.rs")],
 [("result buffers", "distances and indices written by many workers through raw pointers", "src/query_k/parallel*.rs")],
 ["return values of query_nearest_k_parallel and query_nearest_k_parallel_with"])

prop("C06", "Axis queries return the k nearest neighbours split along the axis",
 "For every batch of valid queries, every k and every valid axis, the parallel axis query returns for each query, in query order, the min(k, number of data points) nearest neighbours ordered by total distance, as a component along the axis and a component perpendicular to it whose squares add up to the squared total distance (and the neighbour's index where the configuration returns it). With a box size set, the components are those of the nearest periodic images; an axis that does not exist is rejected.",
 ["inputs", "schedules", "configurations"],
 "all data sets, batches, k, axes, dimensions, float widths, box sizes and pool sizes",
 "No test calls the axis query at all.",
 ["src/query_k/parallel_axis.rs", "src/query_k/container_axis.rs", "src/distance.rs"],
 [("axis decomposition", "src/distance.rs squared_euclidean_axis"), ("heap ordered by total distance", "src/query_k/container_axis.rs"), ("duplicated traversal and image code", "src/query_k/parallel_axis.rs")],
 None, ["return value of query_nearest_k_parallel_axis"])

prop("C07", "The built tree holds every data point exactly once, correctly partitioned",
 "After a successful build every data point is held exactly once, either as a split point or in a leaf, leaves hold at most the requested number of points, and every node's recorded bounds enclose everything below it. At every split, everything on the left is at most and everything on the right is at least the split value along the split dimension, the reported size is the number of nodes, and the data view returned by the tree is the caller's input, unmodified.",
 ["inputs", "schedules", "configurations"],
 "all data sets, leaf sizes, dimensions, both builders, all parallel split levels and thread schedules",
 "The unit tests check only the number of nodes of a few trivial trees; no test looks at the contents, bounds or partition of any tree.",
 ["src/lib.rs", "src/moms.rs"],
 [("recursive build and node append", "src/lib.rs build_nodes, build_nodes_parallel"), ("median selection", "src/moms.rs moms_seq"), ("node vector shared under a lock", "src/lib.rs new_parallel")],
 [("nodes", "all nodes but the root, children by index", "src/lib.rs Tree::nodes")],
 ["public node list of the tree, size(), get_data()"])

prop("C08", "Build parameters and build schedule never change the answers",
 "For one data set, the serial build and the parallel build at every split level, on every thread pool and under every schedule, and with every leaf size, yield trees that give the same distances to every query, and indices that differ only between equidistant points. Serial and parallel builds with the same leaf size have the same number of nodes when the data set has fewer than 100000 points, and reordering the rows of the data only renames indices accordingly.",
 ["schedules", "configurations", "inputs"],
 "all pairs of (builder, split level, leaf size, pool size, schedule) and all row permutations for all data sets",
 "Each test builds one tree one way on one schedule; no test compares two builds of the same data.",
 ["src/lib.rs", "src/moms.rs"],
 [("scoped threads above the split level, node appends under a lock", "src/lib.rs build_nodes_parallel"), ("serial recursion", "src/lib.rs build_nodes")],
 [("nodes", "append order depends on the schedule; child indices must still be right", "src/lib.rs")],
 ["query results and size() of the built trees"])

prop("C09", "Non-finite or empty input is rejected, never answered",
 "Building from data that contains a NaN or infinite component anywhere, or from no data, fails in both builders with the error for that cause, and the invalid-data error names a row that really is invalid; it never panics and never yields a tree. Every single or batch query containing a non-finite component fails with the invalid-data error naming an invalid query row and returns no partial result, all finite input is accepted, and after any rejected query the tree still answers correctly.",
 ["inputs", "schedules"],
 "every position of the offending component, every kind (NaN of either sign and any payload, +inf, -inf), every data and batch size (one point to more than 100000), both builders, single, batch and axis queries, periodic or not, every schedule of the concurrent validation",
 "No test passes invalid input.",
 ["src/lib.rs", "src/utils.rs", "src/query.rs", "src/query_k.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs"],
 [("validation of the data before the tree is returned", "src/lib.rs new, new_parallel; src/utils.rs check_data"), ("validation of each query", "src/utils.rs check_point_return")],
 None, ["Result of new, new_parallel and of every query entry point"])

prop("C10", "A box size is accepted exactly when it is finite and holds the data",
 "Setting a box size succeeds exactly when no data coordinate is negative, every side is finite, and every side is at least the largest data coordinate along its axis; otherwise it fails with the error for a cause that is present (negative data, non-finite side, side too small). After it succeeds, all queries use exactly that box, and setting another box replaces it.",
 ["inputs"],
 "all data sets and all box vectors, defects placed on any axis and in any combination, sides equal to the largest coordinate, one ulp above and below it",
 "The tests set only the unit box on data inside it; no rejection is exercised.",
 ["src/lib.rs", "src/utils.rs"],
 [("comparison of the root bounds with the box", "src/lib.rs with_boxsize")],
 [("root bounds", "componentwise extremes of the data", "src/lib.rs")],
 ["Result of with_boxsize and the periodic answers that follow"])

prop("C11", "No call through the safe API causes undefined behaviour",
 "No sequence of calls through the safe public interface of the tree (building, setting a box, single, batch and axis queries, dropping, with any data, query, leaf size, split level, k, axis and any finite or non-finite floats) reads or writes memory out of bounds or after it is freed, exposes uninitialised memory in a result, or otherwise executes undefined behaviour.",
 ["inputs", "programs", "configurations"],
 "all call sequences and arguments, including k of 0, k beyond the data, leaf sizes of 0 or beyond the data, one-point data, coordinates whose squared distances overflow, non-finite input, empty batches, and error returns",
 "The crate uses unchecked indexing, raw pointers and uninitialised buffers throughout, and the tests neither pass such arguments nor run under any memory checker.",
 ["src/lib.rs", "src/point.rs", "src/query.rs", "src/query_k.rs", "src/query_k/container.rs", "src/query_k/container_axis.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs", "src/moms.rs", "src/utils.rs"],
 [("get_unchecked, unwrap_unchecked, raw point pointers", "everywhere"), ("set_len on buffers filled through raw pointers", "src/query_k/container.rs, src/query_k/parallel*.rs")],
 None, ["sanitizer and interpreter reports; result buffers under a poisoning allocator"])

prop("C12", "Concurrent builds and queries are free of data races",
 "No schedule of the threads of a parallel build, of a parallel batch query, or of any number of user threads querying one shared tree (or building and dropping different trees over the same data) contains a data race.",
 ["schedules"],
 "all interleavings of the internal workers and of user threads sharing a tree by reference, for all pool sizes",
 "A race does not have to change the answer of a test run, and no test shares a tree between user threads or runs under a race detector.",
 ["src/lib.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs", "src/point.rs"],
 [("write lock around node appends", "src/lib.rs build_nodes_parallel"), ("disjoint rows, one scratch slot per worker", "src/query_k/parallel_with.rs"), ("unsafe Send/Sync implementations", "src/lib.rs, src/point.rs")],
 [("nodes", "shared vector during a parallel build", "src/lib.rs"), ("per-thread scratch", "SyncUnsafeCell slots indexed by worker number", "src/query_k/parallel_with.rs")],
 ["race reports of ThreadSanitizer and Miri"])

prop("C13", "Every tree that builds answers every valid query, within bounded stack",
 "Every tree that builds successfully answers every valid single, batch or axis query without panicking, aborting or running out of stack, and every non-empty finite data set (of one dimension or more) builds. (A periodic query may take time and memory for 2^D images.) In particular this holds for one-point data, leaf sizes of zero and of at least the data size, every split level, k of zero and beyond the data, and for queries that must visit the whole tree; the call stack a query needs does not grow in proportion to the number of nodes visited.",
 ["inputs", "configurations"],
 "all data sets and valid queries, including adversarial geometry (points equidistant from the query, exhaustive k) on large trees with small leaves, and finite coordinates so large that distances overflow",
 "The tests query only mid-sized uniform trees with more points than the leaf size.",
 ["src/lib.rs", "src/query.rs", "src/query_k.rs", "src/query_k/parallel_axis.rs", "src/query_k/container.rs"],
 [("initial candidate", "src/query.rs, src/query_k*.rs"), ("traversal of the ledger", "src/query.rs check_stem, src/query_k.rs check_stem_k, src/query_k/parallel_axis.rs check_stem_k_axis"), ("size estimate for allocation", "src/lib.rs size_of_tree")],
 None, ["outcome of each call; stack depth seen from inside the scalar operations"])

prop("C14", "Large and duplicate-heavy data still split into a balanced tree",
 "The split step used by the build, for non-empty slices of any length and any content, rearranges the points without losing or duplicating any, into those at most the pivot, the pivot, and those at least the pivot along the axis. For every data set, however many coordinates coincide and however large it is, the build terminates with a depth and a number of scalar comparisons that stay logarithmic and linearithmic in the number of points, and its answers remain exact.",
 ["inputs", "schedules"],
 "slices below and above the 100000-point switch to the approximate median, all value distributions (all equal, few distinct values, sorted, reversed, organ-pipe, half equal, constant along some axes), every axis, every pool size",
 "The tests of the split step are commented out; one external example builds 100000 uniform points, where the approximate median runs once on distinct values.",
 ["src/moms.rs", "src/lib.rs"],
 [("median of medians and three-way partition through raw pointers", "src/moms.rs moms_seq"), ("quickselect below the threshold", "src/moms.rs moms_seq")],
 [("left/eq/right cursors", "raw pointers of the three-way partition", "src/moms.rs")],
 ["moms_seq's three parts; depth of the node list; comparison counts; query results"])

prop("C15", "Every feature configuration gives the same neighbours in its own format",
 "In every combination of the crate's features, builds and queries return the same neighbours: distances are Euclidean where square-rooting is enabled and their squares where it is not, consistently over every entry point; returned positions are exactly the coordinates of the data point with the returned index; and returned indices always refer to rows of the input. Builds without the parallel feature give the same answers as builds with it.",
 ["configurations", "inputs"],
 "all supported feature combinations (parallel, no-position, no-index, sqrt-dist2), all inputs of the query properties",
 "The tests run two of the combinations on one uniform cloud each, and never relate the outputs of different configurations.",
 ["src/utils.rs", "src/query.rs", "src/query_k/container.rs", "src/query_k/container_axis.rs", "src/point.rs", "Cargo.toml"],
 [("result post-processing", "src/utils.rs process_result, process_dist2"), ("conditional result types", "src/utils.rs"), ("index and position from the point pointer", "src/point.rs")],
 None, ["results of the same case stream in each configuration"])

prop("C16", "The Python trees return the same neighbours as an exhaustive search",
 "For 2D and 3D float32 and float64 arrays, the Python tree classes return from query the distances (Euclidean) and row indices of the nearest neighbours, or of the min(k, number of rows) nearest neighbours per query in non-decreasing order, or the along-axis and perpendicular components when an axis is given, with one row per query in order. This holds with and without a box size, for every leaf size and parallel split level, and the arrays returned have the matching shape and dtype.",
 ["inputs", "configurations"],
 "all contiguous arrays, both classes, both dimensions, k absent, 1, and up to beyond the number of rows, periodic or not, empty query batches",
 "The Python test runs one 3D float64 nearest-neighbour batch, plain and periodic; k queries, axis queries, float32 and 2D are never called.",
 ["pyfnntw/src/lib.rs"],
 [("reinterpretation of array memory as fixed-size rows", "pyfnntw/src/lib.rs slice_as_chunks"), ("raw copies of each row into the result", "pyfnntw/src/lib.rs query_k"), ("unchecked reshaping", "pyfnntw/src/lib.rs query")],
 None, ["arrays returned to Python"])

prop("C17", "Invalid Python input raises an ordinary exception and nothing else",
 "Invalid input to the Python classes - NaN or infinite data or queries, empty data, unsupported or mismatched dimensions, bad box sizes, a nonexistent axis, non-contiguous or wrongly typed arrays - raises a Python exception instead of returning results, crashing or hanging the interpreter. For non-finite values, empty data, bad box sizes and a nonexistent axis it is a ValueError in both classes and for every query kind; afterwards existing and new trees still work.",
 ["inputs", "histories"],
 "all kinds of invalid argument at any position, to both classes and every query kind, interleaved with valid calls",
 "The Python test passes only valid input.",
 ["pyfnntw/src/lib.rs"],
 [("error mapping", "pyfnntw/src/lib.rs tree constructors and query methods")],
 None, ["exception type raised, process survival, later answers"])

prop("C18", "A Python tree stays valid when the caller drops its arrays",
 "A Python tree keeps answering correctly after every other reference to the data, box and query arrays it was given has been dropped and their memory reused, for as long as the tree lives, and result arrays stay valid after the tree itself is gone. Once the last tree using an array is dropped, the array is released.",
 ["histories"],
 "all orders of dropping data arrays, trees and results, with arbitrary allocation in between",
 "The Python test keeps every array alive until the end.",
 ["pyfnntw/src/lib.rs"],
 [("tree stored beside a reference to the array's memory", "pyfnntw/src/lib.rs Tree2, Tree3, Treef32, Treef64")],
 None, ["query results and process survival after the arrays are dropped"])

prop("C19", "Queries leave the tree unchanged and are independent of each other",
 "Any history of queries of all kinds on one tree, interleaved on one thread or issued concurrently from many threads, gives each query the answer it would get on a freshly built tree; repeating a query gives the identical answer. Neither building, querying nor failing modifies the caller's data or queries.",
 ["histories", "schedules"],
 "all sequences and interleavings of single, batch, axis, failing and periodic queries from any number of threads sharing a tree",
 "The tests query each tree in one pass from one thread and never repeat or interleave queries.",
 ["src/query.rs", "src/query_k.rs", "src/query_k/parallel_with.rs", "src/query_k/container.rs"],
 [("scratch state allocated per query or reset after each use", "src/query_k/container.rs index, index_into"), ("shared references only", "src/query.rs, src/query_k.rs")],
 None, ["recorded histories of (thread, call, answer) checked against the exhaustive model"])

prop("C20", "The distance primitives are exact and the box distance is a lower bound",
 "The public distance functions return the squared Euclidean distance, symmetric, non-negative and zero exactly when the points coincide (up to underflow); its split along an axis adds up to it; and the squared distance to a box is zero inside it, never exceeds the squared distance to any point in it - with no rounding slack - and is attained by some point of it. The candidate update functions replace the current best exactly when the candidate is strictly nearer.",
 ["inputs"],
 "all points, boxes, axes, dimensions and float widths, including points on box faces, degenerate boxes and widely different magnitudes",
 "Four unit tests check four hand-picked points in 2D and 3D.",
 ["src/distance.rs"],
 [("squared_euclidean, squared_euclidean_axis, calc_dist_sq_to_space, new_best, new_best_short", "src/distance.rs")],
 None, ["return values of the public functions of the distance module"])

prop("C21", "Queries prune: they do only a small part of an exhaustive search",
 "On uniformly distributed data in up to three dimensions the scalar work of a nearest or k-nearest query (periodic or not, single, batch or axis) stays within a constant factor of k + leaf size + log n and so far below the number of points; and no query on any data does more distance evaluations than a constant times one pass over all points and nodes per image examined. A periodic query far from every face does no more work than the non-periodic one.",
 ["inputs", "configurations"],
 "all uniform data sets large enough for pruning to matter, all queries in them, all entry points; for the worst-case bound all data sets",
 "The tests check answers only; a query that visits the whole tree passes them all.",
 ["src/query.rs", "src/query_k.rs", "src/query_k/parallel_axis.rs", "src/distance.rs"],
 [("pruning by box distance", "check_stem, check_stem_k, check_stem_k_axis"), ("skipping images farther than the current best", "query_nearest_periodic and its copies")],
 None, ["operation counts of an instrumented scalar type"])

prop("C22", "Building, querying, failing and dropping leak nothing and stay small",
 "After a tree and its results are dropped, every byte allocated for it has been released exactly once, also when the build or a query fails; and a single query needs scratch memory proportional to k plus the depth of the tree and the images examined, not to the number of points.",
 ["histories", "inputs"],
 "all sequences of build, query (valid and failing) and drop, in any order and number",
 "The tests never observe the allocator.",
 ["src/lib.rs", "src/query.rs", "src/query_k.rs", "src/query_k/container.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs"],
 [("ownership of nodes and scratch vectors", "src/lib.rs Tree"), ("set_len on raw-filled buffers", "src/query_k/container.rs")],
 None, ["allocation log of a counting global allocator"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
