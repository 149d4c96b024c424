# C16: answers of the Python trees against exhaustive search.
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import pyfnntw
from fx import *

CLS = {np.float32: pyfnntw.Treef32, np.float64: pyfnntw.Treef64}


def case(r, i, st, a):
    dt = [np.float32, np.float64][i % 2]
    d = int(r.integers(2, 4))
    big = i % 200 == 57
    n = 100_000 + int(r.integers(5000)) if big else int(r.choice([1, 2, 3, r.integers(1, 30), r.integers(10, 300), r.integers(100, 1500)]))
    if r.random() < 0.45:
        data, bx, kind = boxed(r, n, d, dt)
    else:
        (data, kind), bx = points(r, n, d, dt), None
    lf = 16 if big else leaf(r, n)
    psl = None if r.random() < 0.5 else int(r.integers(0, 5))
    if psl is not None and n <= 40 and r.random() < 0.2:
        psl = int(r.choice([20, 1000, 2**63]))
    kw = {} if psl is None and r.random() < 0.5 else {"par_split_level": psl}
    if bx is not None:
        kw["boxsize"] = bx
    what = f"{np.dtype(dt)} {n}x{d} {kind} leaf {lf} {kw}"
    keep = data.copy()
    t = call(what, CLS[dt], data, lf, **kw)
    for _ in range(2 if big else int(r.integers(2, 6))):
        m = int(r.choice([0, 1, 2, 5, 20, 60]))
        if i % 150 == 31 and n < 300:
            m = int(r.choice([1000, 5000, 20000, 70000]))
        q = queries(r, data, bx, m)
        k = [None, 1, int(r.integers(0, n + 3)), int(r.integers(1, 20)), n, n + 5, 2 * n + 1, int(r.choice([2**16, 2**32 + 1, 2**63 - 1])) + int(r.integers(2))][int(r.integers(8))]
        if k is not None and (m > 200 or big):
            k = min(k, 8)
        axis = int(r.integers(d)) if r.random() < 0.4 else None
        w = f"{what} k={k} axis={axis}"
        qk = q.copy()
        args = {} if k is None and r.random() < 0.5 else {"k": k}
        if axis is not None:
            args["axis"] = axis
        ans = call(w, t.query, q, **args)
        rows = None if m <= 60 and not big or not m else sorted(set(r.integers(0, m, 25 if not big else 4).tolist()) | {0, m - 1})
        check_answer(w, data, bx, q, k, axis, ans, st, rows if m else None)
        ensure(q.tobytes() == qk.tobytes(), f"{w}: the queries were modified")
        st.add("queries", m)
        st.add(f"{'axis' if axis is not None else 'k' if k not in (None, 1) else 'nearest'} batches{' in a box' if bx is not None else ''}")
        if k is not None and k > n:
            st.add("batches with more neighbours asked for than there are rows")
        if n > max(lf, 1):
            st.nontrivial(str(dt), n, d, kind, lf, psl, k, axis, m)
    if i % 10 == 3 and not big:
        # several Python threads ask the same tree, and make trees of their own
        jobs = []
        for _ in range(24):
            k = [None, 1, int(r.integers(0, 8))][int(r.integers(3))]
            jobs.append((queries(r, data, bx, int(r.integers(1, 9))), k, int(r.integers(d)) if r.random() < 0.3 else None, r.random() < 0.2))

        def work(j):
            q, k, axis, fresh = j
            return call(what, call(what, CLS[dt], data, lf, **kw).query if fresh else t.query, q, k=k, axis=axis)

        with ThreadPoolExecutor(4) as ex:
            for (q, k, axis, _), ans in zip(jobs, ex.map(work, jobs)):
                check_answer(f"{what} k={k} axis={axis}, asked by one of several threads", data, bx, q, k, axis, ans, st)
        st.add("batches asked by several threads", len(jobs))
    ensure(data.tobytes() == keep.tobytes(), f"{what}: the data was modified")
    st.add("trees built " + ("serially" if psl is None else "in parallel"))
    st.sample(what)


main("C16", case)
