"""What each check runs, for how many seconds, under which monitors."""
FEATURES = "parallel,no-position,sqrt-dist2,no-index"
POSITIONS = "parallel"  # positions returned, squared distances, no batches
SQUARED = "parallel,no-position"  # squared distances, batches, axis queries with indices

WORKLOAD = "element type f32 or f64, dimension 1-5 or 7, 19 kinds of data (uniform, clustered, lattices, duplicates, flat axes, wide scales, sorted, ...), 1 to 6000 points and now and then 100000 and more, leaf sizes from 0 to beyond the data, serial and parallel builds, queries on points, planes, corners, midpoints, faces and far away"
TRUST = ["the harness's exhaustive search in f64, with a tolerance of a few roundings of the element type", "only executed inputs and schedules are judged"]


def steps(b, quick, thorough, second=POSITIONS, chk=True):
    s = [dict(bin=b, quick=quick, thorough=thorough)]
    if second:
        s.append(dict(bin=b, features=second, quick=max(4, quick // 2), thorough=thorough // 2))
    if chk:
        s.append(dict(bin=b, variant="chk", quick=0, thorough=thorough // 3))
    return s


def p(steps, non, how=WORKLOAD, extra=()):
    return dict(steps=steps, rule=dict(how=how, non=non), assumptions=TRUST + list(extra))


PLAN = {
    "C01": p(steps("c01", 20, 300), "the tree has at least one split"),
    "C02": p(steps("c02", 20, 300), "the tree has a split and 1 < k"),
    "C03": p(steps("c03", 20, 300), "the answer is through a periodic image", WORKLOAD + "; data in, near and on the faces of boxes"),
    "C04": p(steps("c04", 22, 300), "some neighbour is through a periodic image", WORKLOAD + "; data in, near and on the faces of boxes"),
    "C05": p(steps("c05", 24, 300, SQUARED), "a batch with queries and neighbours", WORKLOAD + "; pools of 1 to 32 threads, batches of 0 to 70000 queries, delays injected through the scalar type"),
    "C06": p(steps("c06", 20, 300, SQUARED), "a batch with more than one neighbour among more than one point"),
    "C07": p(steps("c07", 18, 300), "the tree has at least one split"),
    "C08": p(steps("c08", 22, 350), "the trees compared have splits", WORKLOAD + "; the same data built serially and in parallel at several levels, on several pools, with several leaf sizes, with delays injected through the scalar type, and with its rows reordered"),
    "C09": p(steps("c09", 14, 250, SQUARED) + [dict(bin="c09", features=POSITIONS, quick=5, thorough=60)], "a non-finite value at a row of its own", WORKLOAD + "; NaNs of five bit patterns and infinities at any component of any rows of data, query or batch"),
    "C10": p(steps("c10", 14, 250), "an accepted or rejected box with a cause of its own", WORKLOAD + "; boxes valid, too small by one unit in the last place, non-finite, zero, negative and replaced"),
    "C11": p([
        dict(bin="c11", variant="chk", quick=10, thorough=120),
        dict(bin="c11", variant="chk", features=POSITIONS, quick=5, thorough=60),
        dict(bin="c11", variant="asan", quick=15, thorough=180),
        dict(bin="c11", variant="msan", quick=0, thorough=120),
        dict(bin="c11", variant="miri", mode="tiny", workers=1, procs=8, quick=0, thorough=240, grace=200, min=5, group="miri"),
        dict(bin="c11", variant="miri", features=POSITIONS, mode="tiny", workers=1, procs=1, quick=0, thorough=0, grace=200, min=5, group="miri"),
    ], "every sequence of calls, by its parameters and length", "sequences of builds, boxes, single, batch and axis queries and drops with ordinary and hostile arguments, run with the standard library's checks of unsafe preconditions, under AddressSanitizer, MemorySanitizer and Miri", ["the sanitizers and Miri report what they define as undefined behaviour and no more"]),
    "C12": p([
        dict(bin="c12", variant="tsan", quick=30, thorough=300),
        dict(bin="c12", variant="tsan", features=SQUARED, quick=0, thorough=100),
        dict(bin="c12", variant="miri", mode="tiny", workers=1, procs=8, quick=0, thorough=200, grace=250, min=3),
    ], "every parallel build with users sharing its tree, by its parameters", "parallel builds at levels 1 to 5 and beyond 100000 points on pools of several sizes, trees shared by 2 to 6 user threads asking single, batch, axis and invalid queries, while other trees over the same data are built and dropped; watched by ThreadSanitizer (std included) and Miri", ["ThreadSanitizer's happens-before analysis of the executed schedules"]),
    "C13": p([
        dict(bin="c13", quick=12, thorough=200),
        dict(bin="c13", variant="chk", quick=10, thorough=200),
        dict(bin="c13", features=POSITIONS, quick=6, thorough=100),
        dict(bin="c13", mode="threads", workers=1, procs=1, quick=4, thorough=60),
    ], "a tree answered by every kind of query on a small stack"),
    "C14": p([
        dict(bin="c14", quick=10, thorough=150),
        dict(bin="c14", mode="cost", workers=1, procs=6, quick=16, thorough=250),
        dict(bin="c14", features="", quick=5, thorough=60),
        dict(bin="c14", features="", mode="cost", workers=1, procs=6, quick=6, thorough=60),
    ], "slices and data sets of several points", "slices and data sets of 1 to hundreds of thousands of points, all distinct to all equal, sorted, reversed, and with adversarial orders; scalar operations counted by an instrumented number type"),
    "C15": p([dict(bin="c15", features=f, quick=4, thorough=45) for f in
              ["", "parallel", "no-position", "sqrt-dist2", "parallel,no-position", "parallel,sqrt-dist2", "no-position,sqrt-dist2", "parallel,no-position,sqrt-dist2",
               "no-position,no-index", "parallel,no-position,no-index", "no-position,sqrt-dist2,no-index", FEATURES, "timing," + FEATURES]],
             "the tree has at least one split", WORKLOAD + "; the same workload in all 12 combinations of features that compile, and with timing"),
    "C16": p([dict(bin="c16", variant="py", procs=8, quick=20, thorough=300), dict(bin="c16", variant="pyasan", procs=8, quick=0, thorough=150)],
             "the tree has a split", "2D and 3D arrays of both dtypes, all kinds of data, leaf sizes, levels, k and axes, with and without a box"),
    "C17": p([dict(bin="c17", variant="py", procs=8, quick=20, thorough=200), dict(bin="c17", variant="pyasan", procs=8, quick=0, thorough=200)],
             "an invalid call of a kind, with its parameters", "25 kinds of invalid calls in random order on random trees, with valid queries in between"),
    "C18": p([dict(bin="c18", variant="py", procs=8, quick=10, thorough=150), dict(bin="c18", variant="pyasan", procs=8, quick=15, thorough=250)],
             "a tree that was asked after its arrays were dropped", "arrays of six origins, dropped in several orders, their memory given to others"),
    "C19": p(steps("c19", 22, 300) + [dict(bin="c19", features=SQUARED, quick=0, thorough=100)], "a history of several queries", "histories of single, batch, axis, failing and repeated queries from one and from many threads on one tree, each answer compared with a tree built for it and with the exhaustive model"),
    "C20": p(steps("c20", 12, 200, ""), "a pair of points, or a point and a box, of its own", "points of all magnitudes, equal, close, axis-aligned, on faces, edges and corners of boxes, underflowing; candidate updates on random sequences"),
    "C21": p(steps("c21", 16, 300, SQUARED, chk=False), "a tree of at least several thousand points", "uniform data in up to 3 dimensions for the average, all kinds of data for the bound on single queries; scalar operations counted by an instrumented number type"),
    "C22": p([dict(bin="c22", workers=1, procs=8, quick=16, thorough=250), dict(bin="c22", features=POSITIONS, workers=1, procs=8, quick=6, thorough=100), dict(bin="c22", variant="py", procs=8, quick=12, thorough=120)],
             "a life of a tree, by its parameters", "whole lives of trees: building, failing to build, boxes, all queries, failing queries, drops; every allocation counted by the global allocator"),
}
