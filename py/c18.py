# C18: trees and results outlive the arrays they were made from.
import gc
import weakref
import numpy as np
import pyfnntw
from fx import *

CLS = {np.float32: pyfnntw.Treef32, np.float64: pyfnntw.Treef64}


def source(r, v):
    """v as a C-contiguous array that owns its memory, or is a view of some other object."""
    w = int(r.integers(6))
    if w == 0:
        return v.copy(), "own"
    if w == 1:
        return np.vstack([v[:1], v, v[:1]])[1:-1], "view of rows"
    if w == 2:
        return np.frombuffer(bytearray(v.tobytes()), v.dtype).reshape(v.shape), "buffer of a bytearray"
    if w == 3:
        return np.frombuffer(v.tobytes(), v.dtype).reshape(v.shape), "buffer of bytes"
    if w == 4:
        return v.reshape(-1).copy().reshape(v.shape), "reshaped view"
    return np.array(v, order="C", copy=True)[:], "full view"


def layout(r, v):
    """v with its rows laid out otherwise than one after the other."""
    n, d = v.shape
    w = int(r.integers(8))
    if w == 0:
        return np.array(v, order="F", copy=True), "Fortran-ordered array"
    if w == 1:
        x = np.empty((n, d + 2), v.dtype)
        x[:, 1:-1] = v
        return x[:, 1:-1], "view of columns"
    if w == 2:
        return np.repeat(v, 2, 0)[::2], "view of every other row"
    if w == 3:
        return v[::-1].copy()[::-1], "reversed view"
    if w == 4:
        return v[:, ::-1].copy()[:, ::-1], "view with its columns reversed"
    if w == 5:
        return np.ascontiguousarray(v.T).T, "transposed view"
    if w == 6:
        x = v.copy()
        x.flags.writeable = False
        return x, "read-only array"
    x = np.empty(v.nbytes + 1, np.uint8)[1:].view(v.dtype).reshape(v.shape)
    x[...] = v
    return x, "unaligned array"


def other_layouts(r, i, st, a):
    """Arrays which a tree may refuse, but if it takes them then they are its data."""
    dt = [np.float32, np.float64][i % 2]
    d = int(r.integers(2, 4))
    n = int(r.choice([1, 2, 5, 40, 300, 2000]))
    if r.random() < 0.5:
        keep, bx, kind = boxed(r, n, d, dt)
    else:
        (keep, kind), bx = points(r, n, d, dt), None
    data, how = layout(r, keep)
    psl = None if r.random() < 0.6 or n < 8 else int(r.integers(0, 3))
    what = f"{np.dtype(dt)} {n}x{d} {kind} level {psl}, data is a {how}"
    ensure((data == keep).all(), "harness: layout")
    nbytes = data.nbytes
    try:
        tree = CLS[dt](data, int(r.choice([1, 4, 16, n])), par_split_level=psl, boxsize=None if bx is None else bx.copy())
    except (Exception, BaseException) as e:
        # refused as a whole: that is for the caller to deal with, who still has the array
        ensure(not isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)), repr(e))
        ensure((data == keep).all(), f"{what}: refused, but the array changed")
        st.add("layouts refused")
        st.nontrivial(str(dt), n, d, kind, how, "refused")
        st.evals += 1
        return
    st.add("layouts taken")
    st.add("layout taken: " + how)
    results = []
    for step in range(3):
        if step == 1:
            w = weakref.ref(data)
            del data
            gc.collect()
        junk = churn(r, nbytes)
        q = queries(r, keep, bx, int(r.choice([1, 5, 20])))
        q2, hq = layout(r, q) if r.random() < 0.5 else (q.copy(), "")
        k = [None, 1, 3, min(n, 50)][int(r.integers(4))]
        axis = int(r.integers(d)) if r.random() < 0.3 else None
        try:
            ans = tree.query(q2, k=k, axis=axis)
        except BaseException as e:
            ensure(hq != "", f"{what}: query raised {type(e).__name__}: {str(e)[:200]}")
            st.add("query layouts refused")
            continue
        del q2
        junk += churn(r, q.nbytes)
        check_answer(f"{what} (step {step}, queries {hq})", keep, bx, q, k, axis, ans, st)
        results.append((ans, [x.tobytes() for x in ans]))
        del junk
    del tree
    gc.collect()
    junk = churn(r, nbytes)
    for ans, raw in results:
        ensure([x.tobytes() for x in ans] == raw, f"{what}: a result changed after the tree was dropped")
    ensure(w() is None, f"{what}: the tree is gone but its data array is still alive")
    st.nontrivial(str(dt), n, d, kind, how)


def churn(r, nbytes):
    """Gives freed memory to others: blocks of the same and other sizes, filled."""
    out = []
    for s in (nbytes, nbytes, nbytes, nbytes + 16, max(nbytes - 16, 1), nbytes // 2 + 1, 2 * nbytes, 64, 32, 24, 16):
        for _ in range(2):
            a = np.empty(s, np.uint8)
            a[:] = r.choice([0, 0x41, 0x7F, 0xFF])
            out.append(a)
    for s in (nbytes, nbytes + 33):
        out.append(bytearray(b"\x3f" * s))
        out.append(b"\x40" * s)
    return out


def spoil(r, data, bx, d, dt):
    """Arrays of which no tree can be built, or (the last ones) that a query refuses."""
    w = int(r.integers(9))
    data = data.copy()
    box = None if bx is None else bx.copy()
    n = len(data)
    if w <= 1:
        data[int(r.integers(n)), int(r.integers(d))] = [np.nan, np.inf, -np.inf][int(r.integers(3))]
        return data, box, "non-finite data"
    if w == 2:
        return data, np.full(d, data.max(0).min() / 2 - 1, dt), "too small a box"
    if w == 3:
        box = np.abs(data).max(0) + 1
        box[int(r.integers(d))] = [np.nan, np.inf][int(r.integers(2))]
        return np.abs(data), box.astype(dt), "non-finite box"
    if w == 4:
        return data, np.full(d + [1, -1][int(r.integers(2))], np.abs(data).max() + 1, dt), "box of the wrong length"
    if w == 5:
        data = -np.abs(data) - dt(1)
        return data, np.full(d, 10, dt), "negative data in a box"
    if w == 6:
        return np.ones((n, [1, 4, 5][int(r.integers(3))]), dt), None, "data of an unsupported dimension"
    if w == 7:
        return np.empty((0, d), dt), None, "no data"
    return np.ones((n, d), [np.int64, np.complex128, object][int(r.integers(3))]), None, "data of another type"


def failures(r, i, st, a):
    """Builds and queries that fail do not keep the arrays they were given."""
    dt = [np.float32, np.float64][i % 2]
    d = int(r.integers(2, 4))
    n = int(r.choice([1, 2, 7, 50, 600]))
    if r.random() < 0.5:
        keep, bx, kind = boxed(r, n, d, dt)
    else:
        (keep, kind), bx = points(r, n, d, dt), None
    psl = None if r.random() < 0.6 or n < 8 else int(r.integers(0, 3))
    lf = int(r.choice([1, 4, 16, n]))
    for _ in range(6):
        data, box, why = spoil(r, keep, bx, d, dt)
        what = f"{np.dtype(dt)} {n}x{d} {kind} leaf {lf} level {psl}: a build refused for {why}"
        refs = [weakref.ref(x) for x in (data, box) if x is not None]
        raised = False
        try:
            CLS[dt](data, lf, par_split_level=psl, boxsize=box)
        except BaseException as e:
            ensure(not isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)), repr(e))
            raised = True
        ensure(raised, what + " was not refused")
        del data, box
        gc.collect()
        ensure(all(w() is None for w in refs), what + " keeps an array it was given")
        st.evals += 1
        st.add("arrays released after a refused build", len(refs))
        st.nontrivial("build", str(dt), n, d, why, psl)
    data = keep.copy()
    tree = CLS[dt](data, lf, par_split_level=psl, boxsize=None if bx is None else bx.copy())
    wd = weakref.ref(data)
    del data
    refs = []
    for _ in range(8):
        q = queries(r, keep, bx, int(r.choice([1, 5, 20])))
        k = [None, 1, 3, n + 2][int(r.integers(4))]
        axis = int(r.integers(d)) if r.random() < 0.4 else None
        w = int(r.integers(4))
        if w == 0:
            q[int(r.integers(len(q))), int(r.integers(d))] = np.nan
        elif w == 1:
            axis = d + int(r.integers(3))
        elif w == 2:
            q = np.ones((3, d + 1), dt)
        raised = False
        try:
            tree.query(q, k=k, axis=axis)
        except BaseException as e:
            ensure(not isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)), repr(e))
            raised = True
        ensure(raised == (w < 3), f"{np.dtype(dt)} {n}x{d}: query {w} with k={k} axis={axis} raised: {raised}")
        refs.append(weakref.ref(q))
        del q
        st.nontrivial("query", str(dt), n, d, w, k, axis)
    gc.collect()
    ensure(wd() is not None, "harness: the tree keeps its data")
    del tree
    gc.collect()
    ensure(wd() is None, f"{np.dtype(dt)} {n}x{d} {kind} leaf {lf} level {psl}: the tree is gone after failing queries but its data array is still alive")
    ensure(all(w() is None for w in refs), f"{np.dtype(dt)} {n}x{d} {kind}: the tree is gone but an array of queries is still alive")
    st.evals += 1
    st.add("arrays released after refused queries", len(refs))


def case(r, i, st, a):
    if r.random() < 0.15:
        return failures(r, i, st, a)
    if r.random() < 0.3:
        return other_layouts(r, i, st, a)
    dt = [np.float32, np.float64][i % 2]
    d = int(r.integers(2, 4))
    n = int(r.choice([1, 3, 20, 150, 600, 2000, 20000])) if a.mode != "small" else int(r.choice([1, 3, 20, 150, 600]))
    if r.random() < 0.5:
        keep, bx, kind = boxed(r, n, d, dt)
    else:
        (keep, kind), bx = points(r, n, d, dt), None
    data, how = source(r, keep)
    lf = int(r.choice([1, 4, 16, n, n + 1]))
    psl = None if r.random() < 0.6 or n < 8 else int(r.integers(0, 3))
    what = f"{np.dtype(dt)} {n}x{d} {kind} leaf {lf} level {psl}, data is a {how}"
    args = {"par_split_level": psl}
    if bx is not None:
        args["boxsize"] = bx.copy()
    nbytes = data.nbytes
    trees = [call(what, CLS[dt], data, lf, **args)]
    if r.random() < 0.3:
        # a second tree on the same array; one of them goes first
        trees.append(call(what, CLS[dt], data, lf, **args))
    owners = []
    x = data
    while isinstance(x, np.ndarray):
        owners.append(weakref.ref(x))
        x = x.base
    results = []
    rounds = int(r.integers(1, 4))
    for step in range(rounds):
        if step == 0 or r.random() < 0.3:
            if step == 0:
                del data, args, x
            gc.collect()
        junk = churn(r, nbytes)
        t = trees[int(r.integers(len(trees)))]
        m = int(r.choice([1, 5, 20]))
        q = queries(r, keep, bx, m)
        k = [None, 1, 3, min(n, 50), n + 2][int(r.integers(5))]
        if n > 2000 and k:
            k = min(k, 50)
        axis = int(r.integers(d)) if r.random() < 0.3 else None
        q2, _ = source(r, q)
        ans = call(what, t.query, q2, k=k, axis=axis)
        del q2
        junk += churn(r, q.nbytes)
        check_answer(f"{what} (after its arrays were dropped)", keep, bx, q, k, axis, ans, st, None if n <= 2000 else range(min(m, 3)))
        st.add("queries after the arrays were dropped", m)
        results.append((q, k, axis, ans, [x.tobytes() for x in ans]))
        if len(trees) > 1:
            trees.pop(int(r.integers(2)))
            st.add("trees dropped while another used the same array")
        del junk
    st.add("data as " + how)
    if r.random() < 0.3:
        # replaced while alive: a failing build on the side leaves it alone
        try:
            CLS[dt](np.full((4, d), np.nan, dt), 4)
        except Exception:
            pass
    del trees, t
    gc.collect()
    junk = churn(r, nbytes) + churn(r, 800)
    for q, k, axis, ans, raw in results:
        ensure([x.tobytes() for x in ans] == raw, f"{what}: a result changed after the tree was dropped")
        for x in ans:
            if x.size:
                x[...] = 7  # results belong to the caller
        st.evals += 1
        st.add("results read after the tree was gone")
    ensure(all(w() is None for w in owners), f"{what}: the tree is gone but its data array is still alive")
    st.nontrivial(str(dt), n, d, kind, lf, psl, how, rounds)
    st.sample(what)


main("C18", case)
