"""Cases, oracle and report for the checks of the Python binding."""
import argparse, json, os, sys, time, traceback
import numpy as np

EPS = {np.dtype(np.float32): float(np.finfo(np.float32).eps), np.dtype(np.float64): float(np.finfo(np.float64).eps)}
TINY = {np.dtype(np.float32): float(np.finfo(np.float32).tiny), np.dtype(np.float64): float(np.finfo(np.float64).tiny)}


class Violation(Exception):
    pass


def ensure(c, msg):
    if not c:
        raise Violation(msg() if callable(msg) else msg)


class Stats:
    def __init__(self):
        self.n, self.evals, self.distinct, self.samples = {}, 0, set(), []

    def add(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def nontrivial(self, *sig):
        self.distinct.add(hash(sig))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)


def main(prop, case):
    p = argparse.ArgumentParser()
    for a, d in dict(seed=1, secs=20.0, cases=1 << 60, only=-1, offset=0, stride=1).items():
        p.add_argument("--" + a, type=type(d), default=d)
    for a in ("tier", "out", "crumb", "mode"):
        p.add_argument("--" + a, default="")
    a = p.parse_args()
    st, bad, t0 = Stats(), [], time.time()
    crumb = open(a.crumb, "r+b" if os.path.exists(a.crumb) else "w+b", buffering=0) if a.crumb else None
    i, done = a.offset, 0
    while True:
        if a.only >= 0:
            i = a.only
        elif i >= a.cases or time.time() - t0 > a.secs:
            break
        if crumb:
            os.pwrite(crumb.fileno(), b"%19d\n" % i, 20 * a.offset)
        rng = np.random.default_rng([a.seed, sum(map(ord, prop + a.mode)), i])
        try:
            case(rng, i, st, a)
        except Violation as e:
            bad.append({"case": i, "what": str(e)})
        except Exception:
            # an error of the harness, not of the code under test
            traceback.print_exc()
            print("HARNESS ERROR in case", i, file=sys.stderr)
            os._exit(2)
        done += 1
        if crumb:
            os.pwrite(crumb.fileno(), b"%19d\n" % (2**62), 20 * a.offset)
        if bad or a.only >= 0:
            break
        i += a.stride
    rep = dict(prop=prop, mode=a.mode, seed=a.seed, cases=done, evaluations=st.evals, distinct=len(st.distinct), secs=round(time.time() - t0, 2), counts=st.n, samples=st.samples, violations=bad)
    if a.out:
        json.dump(rep, open(a.out, "w"))
    else:
        print(json.dumps(rep))
    for b in bad:
        print(f"case {b['case']}: {b['what']}")
    sys.stdout.flush()
    # no interpreter shutdown: what happens there is not what is judged
    os._exit(1 if bad else 0)


def call(what, f, *a, **k):
    """A valid call: whatever it raises is a violation, panics included."""
    try:
        return f(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]}") from None


# ---- data -------------------------------------------------------------------------------
def points(r, n, d, dt):
    kind = r.choice(["uniform", "signed", "lattice", "identical", "clusters", "flat", "diagonal", "offset", "few", "wide", "sorted"])
    if kind == "uniform":
        v = r.random((n, d))
    elif kind == "signed":
        v = r.uniform(-5, 5, (n, d)) * r.choice([1, 1e-6, 1e6])
    elif kind == "lattice":
        v = np.floor(r.random((n, d)) * r.integers(2, 7))
    elif kind == "identical":
        v = np.tile(r.uniform(-2, 2, d), (n, 1))
    elif kind == "clusters":
        v = r.uniform(-10, 10, (8, d))[r.integers(0, 8, n)] + r.normal(size=(n, d)) * r.choice([1e-3, 0.1])
    elif kind == "flat":
        v = r.uniform(-1, 1, (n, d))
        v[:, r.integers(d)] = 0.5
    elif kind == "diagonal":
        v = np.repeat(r.uniform(-3, 3, (n, 1)), d, 1)
    elif kind == "offset":
        v = r.choice([100, 1e4, 1e6]) + r.random((n, d))
    elif kind == "few":
        v = r.uniform(-1, 1, (5, d))[r.integers(0, 5, n)]
    elif kind == "wide":
        v = (r.random((n, d)) - 0.5) * 2.0 ** r.integers(-20, 20, (n, d))
    else:
        v = np.repeat((np.arange(n) / n)[:, None], d, 1)
    v = v.astype(dt)
    if n > 1 and r.random() < 0.3:
        v[r.integers(0, n, n // 4 + 1)] = v[r.integers(0, n, n // 4 + 1)]
    return v, kind


def boxed(r, n, d, dt):
    bx = (np.ones(d) if r.random() < 0.2 else r.uniform(0.3, 3, d) * r.choice([1, 1, 1, 0.001, 1000])).astype(dt)
    kind = r.choice(["uniform", "sparse", "near-faces", "on-faces", "lattice", "corner", "identical"])
    u = r.random((n, d))
    if kind == "sparse":
        u *= r.uniform(0.05, 0.9)
    elif kind == "near-faces":
        u = np.where(r.random((n, d)) < 0.5, u * 0.03, 1 - u * 0.03)
    elif kind == "on-faces":
        u = np.choose(r.integers(0, 3, (n, d)), [np.zeros((n, d)), np.ones((n, d)), u])
    elif kind == "lattice":
        u = np.floor(u * 4) / 3
    elif kind == "corner":
        u = np.where(r.random(d) < 0.5, u * u * 0.2, 1 - u * u * 0.2)
    elif kind == "identical":
        u = np.tile(u[:1], (n, 1))
    v = np.clip((u * bx.astype(float)).astype(dt), 0, bx)
    v[u == 1.0] = np.broadcast_to(bx, v.shape)[u == 1.0]
    return v, bx, "boxed " + kind


def queries(r, data, bx, m):
    n, d = data.shape
    dt = data.dtype
    q = np.empty((m, d))
    x = data.astype(float)
    lo, hi = x.min(0), x.max(0)
    if bx is not None:
        b = bx.astype(float)
        for j in range(m):
            w = r.integers(6)
            if w == 0:
                q[j] = r.random(d) * b
            elif w == 1:
                q[j] = np.where(r.random(d) < 0.5, 0, b)
            elif w == 2:
                q[j] = b / 2
            elif w == 3:
                q[j] = x[r.integers(n)]
            elif w == 4:
                q[j] = np.where(r.random(d) < 0.5, 0.02 * b * r.random(d), b - 0.02 * b * r.random(d))
            else:
                q[j] = (x[r.integers(n)] + b / 2) % b
        return np.clip(q.astype(dt), 0, bx)
    for j in range(m):
        w = r.integers(6)
        if w == 0:
            q[j] = x[r.integers(n)]
        elif w == 1:
            q[j] = x[r.integers(0, n, d), np.arange(d)]
        elif w == 2:
            q[j] = (x[r.integers(n)] + x[r.integers(n)]) / 2
        elif w == 3:
            s = np.maximum(hi - lo, 0.1)
            q[j] = np.where(r.random(d) < 0.5, lo - s * r.choice([1, 100]), hi + s)
        else:
            q[j] = lo + (hi - lo) * r.uniform(-0.2, 1.2, d)
    return q.astype(dt)


def leaf(r, n):
    return int(r.choice([0, 1, 1, 2, 4, 8, 16, 32, n - 1, n, n + 1, 2**40]))


# ---- oracle -----------------------------------------------------------------------------
def images(q, bx):
    q = q.astype(float)
    if bx is None:
        return q[None]
    b, d, out = bx.astype(float), len(q), []
    for m in range(1 << d):
        v = q.copy()
        for a in range(d):
            if m >> a & 1:
                v[a] += b[a] if q[a] < b[a] / 2 else -b[a]
        out.append(v)
    return np.array(out)


def tol(dt, d, dist, bx):
    sh = 0.0 if bx is None else float(bx.max())
    return dist * (d + 6) * EPS[dt] + 2 * sh * EPS[dt] * d**0.5 + 4 * (d * TINY[dt]) ** 0.5


class Oracle:
    def __init__(self, data, bx, q):
        self.dt, self.d, self.bx, self.n = data.dtype, data.shape[1], bx, len(data)
        self.im = images(q, bx)
        self.diff = self.im[:, None, :] - data.astype(float)[None]
        self.all = np.sqrt((self.diff**2).sum(-1))  # images x points

    def t(self, x):
        return tol(self.dt, self.d, x, self.bx)

    def smallest(self, k):
        return np.sort(self.all, axis=None)[: min(k, self.n)]

    def row(self, what, k, dist, idx):
        want = self.smallest(k)
        dist = dist.astype(float)
        ensure(np.isfinite(dist).all(), lambda: f"{what}: distances {dist}")
        ok = np.abs(dist - want) <= self.t(np.maximum(dist, want))
        ensure(ok.all(), lambda: f"{what}: distances {dist[~ok][:5]} at {np.flatnonzero(~ok)[:5]}, expected {want[~ok][:5]}")
        ensure((np.diff(dist) >= 0).all(), lambda: f"{what}: not in order: {dist}")
        if idx is None:
            return
        ensure((idx < self.n).all(), lambda: f"{what}: indices {idx} of {self.n} rows")
        taken = {}
        for d, i in sorted(zip(dist.tolist(), idx.tolist())):
            at = taken.get(i)
            if at is None:
                at = taken[i] = sorted(self.all[:, i].tolist())
            # ascending reported distances use up ascending image distances
            while at and at[0] < d - self.t(max(d, at[0])):
                at.pop(0)
            ensure(at and abs(at[0] - d) <= self.t(max(d, at[0])), lambda: f"{what}: row {i} reported at {d}, it is at {np.sort(self.all[:, i])[:8]}")
            at.pop(0)

    def axis(self, what, k, axis, ax, non):
        want = self.smallest(k)
        ax, non = ax.astype(float), non.astype(float)
        tot = np.sqrt(ax**2 + non**2)
        ensure(np.isfinite(tot).all(), lambda: f"{what}: components {ax} {non}")
        ok = np.abs(tot - want) <= self.t(np.maximum(tot, want))
        ensure(ok.all(), lambda: f"{what}: components {ax[~ok][:5]}, {non[~ok][:5]}, expected distances {want[~ok][:5]}")
        reach = want[-1] + 4 * self.t(want[-1]) if len(want) else 0
        m = self.all <= reach
        a = np.abs(self.diff[..., axis])[m]
        b = np.sqrt(np.delete(self.diff, axis, 2) ** 2).reshape(m.shape + (self.d - 1,))
        b = np.sqrt((b**2).sum(-1))[m]
        free = np.ones(len(a), bool)
        fits = [np.flatnonzero((np.abs(a - x) <= self.t(np.maximum(a, x))) & (np.abs(b - y) <= self.t(np.maximum(b, y)))) for x, y in zip(ax, non)]
        owner = {}

        def aug(j, seen):
            for c in fits[j]:
                if c not in owner:
                    owner[c] = j
                    return True
            for c in fits[j]:
                if c not in seen:
                    seen.add(c)
                    if aug(owner[c], seen):
                        owner[c] = j
                        return True
            return False

        sys.setrecursionlimit(100000)
        for j in range(len(ax)):
            ensure(aug(j, set()), lambda: f"{what}: neighbour {j}: no row left with components {ax[j]} along and {non[j]} across axis {axis}")


def check_answer(what, data, bx, q, k, axis, ans, st, rows=None):
    """ans against exhaustive search: shapes, dtypes and (some of) the rows."""
    n, d = data.shape
    m = len(q)
    ensure(isinstance(ans, tuple) and len(ans) == 2 and all(isinstance(x, np.ndarray) for x in ans), lambda: f"{what}: returned {ans!r:.200}")
    x, y = ans
    kk = min(1 if k is None else k, n)
    shape = (m,) if axis is None and k in (None, 1) else (m, kk)
    ensure(x.shape == shape and y.shape == shape, lambda: f"{what}: shapes {x.shape} and {y.shape}, expected {shape}")
    ensure(x.dtype == data.dtype, lambda: f"{what}: dtype {x.dtype}, expected {data.dtype}")
    ensure(y.dtype == (np.uint64 if axis is None else data.dtype), lambda: f"{what}: second dtype {y.dtype}")
    x, y = x.reshape(m, kk), y.reshape(m, kk)
    for j in range(m) if rows is None else rows:
        o = Oracle(data, bx, q[j])
        w = f"{what}: row {j} of {m} (query {q[j].tolist()})"
        if kk == 0:
            continue
        if axis is None:
            o.row(w, kk, x[j], y[j])
        else:
            o.axis(w, kk, axis, x[j], y[j])
        st.evals += 1
