# C22 through Python: lives of trees, valid and failing, leave nothing behind.
import ctypes
import gc
import numpy as np
import pyfnntw
from fx import *

CLS = {np.float32: pyfnntw.Treef32, np.float64: pyfnntw.Treef64}


class Info(ctypes.Structure):
    _fields_ = [(x, ctypes.c_size_t) for x in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Info


def live():
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def case(r, i, st, a):
    dt = [np.float32, np.float64][i % 2]
    d = int(r.integers(2, 4))
    n = int(r.choice([1, 20, 300, 3000, 20000]))
    if r.random() < 0.4:
        data, bx, kind = boxed(r, n, d, dt)
    else:
        (data, kind), bx = points(r, n, d, dt), None
    lf = int(r.choice([0, 1, 8, 32, n]))
    psl = None if r.random() < 0.5 else int(r.integers(0, 4))
    kw = dict(par_split_level=psl, boxsize=bx)
    m = int(r.choice([1, 10, 400]))
    q = queries(r, data, bx, m)
    k = int(r.choice([1, 3, min(n, 40), n + 2 if n < 1000 else 5]))
    axis = int(r.integers(d))
    bad = data.copy()
    bad[int(r.integers(n)), int(r.integers(d))] = np.nan
    badq = q.copy()
    badq[int(r.integers(m)), int(r.integers(d))] = np.inf
    small = np.full(d, -1, dt)
    what = f"{np.dtype(dt)} {n}x{d} {kind} leaf {lf} psl {psl} box {bx} {m} queries k={k}"
    cls = CLS[dt]
    only = int(r.integers(8))

    def fails(f, which=""):
        try:
            f()
        except Exception:
            return
        except BaseException as e:
            raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]}") from None
        raise Violation(f"{what}: an invalid call was answered {f.__code__.co_firstlineno}")

    def life():
        # a few kinds of calls at a time, so that a leak in one of them stands out
        t = call(what, cls, data, lf, **kw)
        if only in (0, 1):
            call(what, t.query, q)
        if only in (0, 2):
            call(what, t.query, q, k=k)
        if only in (0, 3):
            call(what, t.query, q, k=k, axis=axis)
        if only in (0, 4):
            fails(lambda: t.query(badq))
            fails(lambda: t.query(badq, k=k))
            fails(lambda: t.query(badq, k=k, axis=axis))
            fails(lambda: t.query(q, k=k, axis=d))
        if only in (0, 5):
            fails(lambda: cls(bad, lf, par_split_level=psl))
        if only in (0, 6):
            fails(lambda: cls(data, lf, par_split_level=psl, boxsize=small))
        if only == 7:
            fails(lambda: t.query(np.ones((m, d + 1), dt), k=k))
            fails(lambda: t.query(q.astype(np.float64 if dt is np.float32 else np.float32)))
            fails(lambda: cls(np.asfortranarray(np.vstack([data, data, data])), lf))

    for _ in range(6):
        life()
    l0, rounds, last = live(), 30 if n < 10000 else 10, 0
    # what leaks, leaks every time; the allocator's arenas and caches grow now and then, and stop
    for step in range(8):
        for _ in range(rounds):
            life()
        grown = live() - l0
        if grown - last < 400 * rounds:
            break
        ensure(step < 7, f"{what}: {grown} bytes more after {(step + 1) * rounds} lives of a tree, {last} after {step * rounds}, and so on from the start, though every one is gone")
        last = grown
    st.add(f"held memory stopped growing after {step + 1} steps")
    if n <= 20 and m <= 10 and psl is None:
        # many more lives of a small one: a buffer that takes something of every life and grows
        # only now and then
        l0, last, done = live(), 100_000, 0
        for step in range(3):
            for _ in range(1500 * 4**step):
                life()
            done += 1500 * 4**step
            grown = live() - l0
            if grown <= last:
                break
            ensure(step < 2, f"{what}: {grown} bytes more after {done} lives of a tree, {last} earlier, though every one is gone")
            last = grown
        st.add("lives of Python trees in long histories", done)
    st.evals += 1
    st.add("lives of Python trees", rounds * (step + 1))
    st.add(f"calls {['all', 'nearest', 'k', 'axis', 'failing queries', 'failing builds', 'failing boxes', 'mistyped'][only]}")
    st.nontrivial(str(dt), n, d, kind, lf, psl, m, k, only)
    st.sample(what)


main("C22", case)
