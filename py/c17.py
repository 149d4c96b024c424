# C17: invalid input raises an ordinary exception, and nothing else happens.
import numpy as np
import pyfnntw
from fx import *

CLS = {np.float32: pyfnntw.Treef32, np.float64: pyfnntw.Treef64}


def poison(r, v, count=None):
    v = v.copy()
    for _ in range(count or int(r.integers(1, 3))):
        v[tuple(r.integers(s) for s in v.shape)] = r.choice([np.nan, np.inf, -np.inf, -np.nan])
    return v


def must(what, f, kinds, st):
    """f must raise one of kinds; kinds None: any ordinary exception."""
    try:
        x = f()
    except Exception as e:
        ensure(kinds is None or isinstance(e, kinds), lambda: f"{what}: raised {type(e).__name__} ({str(e)[:150]}), expected {kinds}")
        st.add(f"{type(e).__name__} raised")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({str(e)[:150]}), which is no ordinary exception")
    else:
        raise Violation(f"{what}: returned {x!r:.200} instead of raising")
    st.evals += 1


def works(what, r, t, data, bx, st):
    q = queries(r, data, bx, 3)
    k = [None, 3][int(r.integers(2))]
    axis = [None, 0][int(r.integers(2))]
    check_answer(what + ", a later query", data, bx, q, k, axis, call(what, t.query, q, k=k, axis=axis), st)


def case(r, i, st, a):
    dt = [np.float32, np.float64][i % 2]
    other = [np.float64, np.float32][i % 2]
    cls, d = CLS[dt], int(r.integers(2, 4))
    n = int(r.choice([1, 2, 5, 40, 300]))
    if i % 50 == 13:
        n = 3000
    periodic = r.random() < 0.4
    if periodic:
        data, bx, kind = boxed(r, n, d, dt)
    else:
        (data, kind), bx = points(r, n, d, dt), None
    kw = {} if bx is None else {"boxsize": bx}
    lf = leaf(r, n)
    psl = None if r.random() < 0.5 else int(r.integers(0, 3))
    if psl is not None:
        kw["par_split_level"] = psl
    base = f"{cls.__name__} {n}x{d} {kind} leaf {lf} psl {psl} box {bx}"
    t = call(base, cls, data, lf, **kw)
    for _ in range(int(r.integers(4, 12))):
        w = int(r.integers(26))
        m = int(r.choice([1, 2, 7, 60, 400]))
        q = queries(r, data, bx, m)
        k = [None, 1, 2, n, n + 3][int(r.integers(5))]
        axis = [None, None, 0, d - 1][int(r.integers(4))]
        ask = lambda q, k=k, axis=axis: (lambda: t.query(q, k=k, axis=axis))
        new = lambda data=data, lf=lf, kw=kw: (lambda: cls(data, lf, **kw))
        x = f"{base} ({m} queries, k={k}, axis={axis})"
        big = np.maximum(data.max(0).astype(float), 0)
        if w in (0, 1, 2, 3):
            bad = poison(r, q, m if r.random() < 0.1 else None)
            must(f"{x}: non-finite query", ask(bad), ValueError, st)
        elif w in (4, 5):
            must(f"{x}: non-finite data", new(poison(r, data)), ValueError, st)
        elif w == 6:
            must(f"{x}: empty data", new(np.empty((0, d), dt), kw={k: v for k, v in kw.items() if k != "boxsize" or r.random() < 0.5}), ValueError, st)
        elif w == 7:
            b = (big + 1).astype(dt)
            pos = np.abs(data)
            must(f"{x}: non-finite box", new(pos, kw={"boxsize": poison(r, np.abs(b), 1)}), ValueError, st)
        elif w == 8:
            pos = np.abs(data)
            b = pos.max(0).copy()
            j = int(r.integers(d))
            b[j] = np.nextafter(b[j], dt(-np.inf)) if r.random() < 0.5 else -b[j] - dt(1)
            must(f"{x}: box {b} too small for {pos.max(0)}", new(pos, kw={"boxsize": b}), ValueError, st)
        elif w == 9:
            neg = np.abs(data)
            neg[int(r.integers(n)), int(r.integers(d))] = -dt(r.choice([1e-3, 1.0, 1e6]))
            must(f"{x}: box with negative data", new(neg, kw={"boxsize": (np.abs(neg).max(0) * 2 + 1).astype(dt)}), ValueError, st)
        elif w in (10, 11):
            must(f"{x}: no such axis", ask(q, axis=int(r.choice([d, d + 1, 2**40]))), ValueError, st)
        elif w == 12:
            must(f"{x}: negative k, axis, leaf size or level", [lambda: t.query(q, k=-1), lambda: t.query(q, k=2, axis=-1), lambda: cls(data, -1), lambda: cls(data, 4, par_split_level=-1)][int(r.integers(4))], None, st)
        elif w == 13:
            dd = int(r.choice([0, 1, 4, 7]))
            must(f"{x}: {dd} dimensions", new(np.ones((n, dd), dt), kw={}), None, st)
        elif w == 14:
            dd = int(r.choice([v for v in (0, 1, 2, 3, 4, 6) if v != d]))
            must(f"{x}: queries of {dd} dimensions", ask(np.ones((m, dd), dt)), None, st)
        elif w == 15:
            must(f"{x}: 1-D or 3-D queries", ask([np.ones(d, dt), np.ones((2, 3, d), dt)][int(r.integers(2))]), None, st)
        elif w == 16:
            must(f"{x}: 1-D or 3-D data", new([np.ones(6, dt), np.ones((2, 3, d), dt)][int(r.integers(2))], kw={}), None, st)
        elif w == 17:
            must(f"{x}: data of another type", new([data.astype(other), data.astype(int), data.astype(">f8" if dt is np.float64 else ">f4"), data.astype(complex), data.tolist(), None, "x"][int(r.integers(7))], kw={}), None, st)
        elif w == 18:
            must(f"{x}: queries of another type", ask([q.astype(other), q.astype(np.int64), q.astype(bool), q.tolist(), None][int(r.integers(5))]), None, st)
        elif w == 19:
            bad = [np.asfortranarray(np.vstack([q, q])), np.hstack([q, q])[:, :d], np.vstack([q, q])[::2], np.vstack([q, q])[::-1]][int(r.integers(4))]
            if not bad.flags.c_contiguous:
                must(f"{x}: non-contiguous queries", ask(bad), None, st)
        elif w == 20:
            v = np.vstack([data, data])
            bad = [np.asfortranarray(v), np.hstack([data, data])[:, :d], v[::2], v[::-1]][int(r.integers(4))]
            if not bad.flags.c_contiguous:
                must(f"{x}: non-contiguous data", new(bad), None, st)
        elif w == 21:
            b = (big + 1).astype(dt)
            wrong = [b[:-1], np.append(b, b[-1]), b.astype(other), b.tolist(), b[None], np.empty(0, dt), np.repeat(b, 2)[::2], 3.0][int(r.integers(8))]
            if isinstance(wrong, np.ndarray) and wrong.shape == (d,) and wrong.dtype == dt:
                # a strided view of a good box
                must(f"{x}: box {wrong!r}", new(np.abs(data), kw={"boxsize": wrong}), None, st)
            else:
                must(f"{x}: box {wrong!r}", new(np.abs(data), kw={"boxsize": wrong}), None, st)
        elif w == 22:
            must(f"{x}: wrong kinds of k, axis and leaf size", [lambda: t.query(q, k=1.5), lambda: t.query(q, k="1"), lambda: t.query(q, k=1, axis=0.5), lambda: cls(data, 2.5), lambda: cls(data), lambda: t.query()][int(r.integers(6))], None, st)
        elif w == 23:
            # the invalid query among many, last or first
            bad = np.repeat(q, 5, 0)
            bad[[0, -1][int(r.integers(2))], int(r.integers(d))] = np.nan
            must(f"{x}: one NaN at an end of {len(bad)} queries", ask(bad), ValueError, st)
        elif w == 24:
            # invalid in two ways at once
            must(f"{x}: non-finite query and no such axis", ask(poison(r, q), k=k or 2, axis=d), ValueError, st)
        else:
            # nothing wrong: an empty batch is answered
            check_answer(x, data, bx, q[:0], k, axis, call(x, t.query, q[:0], k=k, axis=axis), st)
        if r.random() < 0.5:
            works(x, r, t, data, bx, st)
        st.nontrivial(str(dt), n, d, kind, lf, psl, w, m, k, axis)
    u = call(base + ", a new tree", cls, data, lf, **kw)
    works(base + ", a new tree", r, u, data, bx, st)
    works(base, r, t, data, bx, st)
    st.add("trees asked again after invalid calls")
    st.sample(base)


main("C17", case)
