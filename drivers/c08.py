"""C08: sampling signals on the group."""
import math

import numpy as np
import torch

from lib import gen, kern, tlc
from lib.parts import clear, part
from lib.rec import attempt, crc, q, qn, shape
from gconv.geometry import so2, o2, so3, interpolation
from gconv.geometry.groups import o3, s2

TRACE = "TraceC08"
MODELS = [("MCSampling", "MCSampling.cfg", "MCSampling_thorough.cfg")]
ASSUMPTIONS = ["RBF interpolation is judged on grids whose elements are separated enough for the linear system to be solved in single precision"]
PI = math.pi
FAMS = ["so2", "so3q", "so3m", "so3qm", "o2", "o3"]


class Sampler:
    """Rows are (coefficient, angle or quaternion...); knows how to ask the library."""

    def __init__(self, fam, rows, nr, dtype=torch.float32):
        self.fam, self.rows, self.nr, self.dtype = fam, np.array(rows), nr, dtype
        self.k = "angle" if fam in ("so2", "o2") else "quat"

    def real(self, rows, part="grid"):
        rows = np.array(rows).reshape(len(rows), -1)
        T = lambda x: torch.tensor(np.array(x), dtype=self.dtype)
        if self.fam == "so2":
            return T(rows[:, 1:]).reshape(-1, 1)
        if self.fam == "o2":
            return T(rows).reshape(-1, 2)
        mats = lambda: T([gen.mat_of(r[1:]) for r in rows]).reshape(-1, 3, 3)
        if self.fam == "so3q" or (self.fam == "so3qm" and part == "grid"):
            return T(rows[:, 1:]).reshape(-1, 4)
        if self.fam in ("so3m", "so3qm"):
            return mats()
        return torch.cat((T(rows[:, :1]).reshape(-1, 1), mats().flatten(1)), dim=-1)

    def ask(self, qs, signal, mode, widths, rows=None, check=None):
        rows = self.rows if rows is None else rows
        g, x = self.real(rows), self.real(qs, "query")
        s = torch.tensor(np.array(signal), dtype=self.dtype)
        c0 = crc([g, x, s])
        if self.fam in ("so2", "so3q", "so3m", "so3qm"):
            fn = so2.grid_sample if self.fam == "so2" else so3.grid_sample
            kw = {"width": widths[0]} if mode == "rbf" else {}
            out = fn(x, s, g, mode=mode, **kw)
        else:
            fn = o2.grid_sample if self.fam == "o2" else o3.grid_sample
            kw = {"rotation_width": widths[0], "reflection_width": widths[1]} if mode == "rbf" else {}
            out = fn(x, s, g, (self.nr, len(rows) - self.nr), mode=mode, **kw)
        if check is not None:
            check.append(c0)
            check.append(crc([g, x, s]))
        return out

    def fix(self, rows):
        rows = np.array(rows).reshape(len(rows), -1)
        return [q(torch.tensor(r[:1]), 1) + q(torch.tensor(r[1:]), 1e5 if self.k == "angle" else 1e4) for r in rows]

    def dist(self, a, b):
        if self.k == "angle":
            d = (a[1] - b[1]) % (2 * PI)
            return min(d, 2 * PI - d)
        return math.atan2(np.linalg.norm(qrel(a[1:], b[1:])[1:]), abs(float(np.dot(a[1:], b[1:]))))

    def D(self, A, B):
        return np.array([[self.dist(a, b) for b in B] for a in A]).reshape(len(A), len(B))

    def query(self, rng, n, both=True):
        out = []
        for _ in range(n):
            c = 1.0 if self.fam[:2] == "so" else float(rng.choice([1.0, -1.0]))
            out.append(np.concatenate(([c], [rng.uniform(-7, 14)] if self.k == "angle" else gen.rand_quat(rng))))
        return out

    def times(self, g, rows, right=False):
        out = []
        for r in rows:
            if self.k == "angle":
                out.append(np.array([r[0], r[1] + g[0]]))
            else:
                out.append(np.concatenate((r[:1], qmul(r[1:], g) if right else qmul(g, r[1:]))))
        return np.array(out)


qmul, qrel, spread = kern.qmul, kern.qrel, kern.spread


def make(fam, n, rng):
    k = "angle" if fam in ("so2", "o2") else "quat"
    if fam[:2] == "so":
        nr, nf = n, 0
    else:
        nr = int(rng.integers(0, n + 1))
        nf = n - nr
    rows = [np.concatenate(([1.0], e)) for e in spread(k, nr, rng)] + [np.concatenate(([-1.0], e)) for e in spread(k, nf, rng)]
    return Sampler(fam, rows, nr)


def widths(sm, rng):
    return kern.widths(sm.k, list(sm.rows), rng)


def condition(sm, w):
    return max(np.linalg.cond(np.exp2(-((sm.D(p, p) / v) ** 2))) for p, v in ((sm.rows[:sm.nr], w[0]), (sm.rows[sm.nr:], w[1])) if len(p))


def large(rec, fam, rng):
    """Many queries, elements and channels at once."""
    n, m, c = int(rng.integers(6, 30)), int(rng.choice([40, 75, 140, 300])), int(rng.choice([1, 2, 17, 40]))
    sm = make(fam, n, rng)
    w = [float(rng.uniform(0.1, 0.5)) for _ in range(2)]
    while condition(sm, w) > 1000:
        w = [0.8 * v for v in w]
    sig, qs = rng.integers(-9, 10, size=(n, c)), sm.query(rng, m)
    for mode in ("nearest", "rbf"):
        o = sm.ask(qs, sig, mode, w)
        D = np.where(np.array([x[0] for x in qs])[:, None] == sm.rows[:, 0][None], sm.D(qs, sm.rows), 9)
        p = [i for i in gen.few(m, rng, 6) if mode == "rbf" or clear(D[i])]
        part(rec, "queries", o, [m, c], lambda t, i: t[p[i]], [sm.ask([qs[i]], sig, mode, w)[0] for i in p], tol=60, fam=fam, mode=mode)
        p2 = gen.few(c, rng, 2)
        ask = lambda j: torch.cat([sm.ask(qs[i:i + 7], sig[:, j:j + 1], mode, w) for i in range(0, 21, 7)])
        if mode == "rbf" or clear(D[:21]):
            part(rec, "channels", o, [m, c], lambda t, i: t[:21, p2[i]], [ask(j) for j in p2], tol=60, fam=fam, mode=mode)


def wide(rec, fam, rng):
    """Wide Gaussians on many elements, in double precision."""
    while True:
        n = int(rng.integers(4, 25))
        k = "angle" if fam in ("so2", "o2") else "quat"
        nr = n if fam[:2] == "so" else int(rng.integers(0, n + 1))
        some = lambda m: [[2 * PI * (i + rng.uniform(0, 0.4)) / m] for i in range(m)] if k == "angle" else kern.spread(k, m, rng)
        rows = [np.concatenate(([1.0], e)) for e in some(nr)] + [np.concatenate(([-1.0], e)) for e in some(n - nr)]
        sm = Sampler(fam, rows, nr, torch.float64)
        w = [float(rng.uniform(0.3, 2)) for _ in range(2)]
        if 100 < condition(sm, w) < 1e5:
            break
    sig = rng.integers(-9, 10, size=(n, 2))
    at = [int(i) for i in rng.permutation(n)[:8]]
    x = [sm.rows[i].copy() for i in at]
    o = sm.ask(x, sig, "rbf", w)
    rec.ev("ongrid", k=sm.k, fam=fam, mode="rbf", qs=sm.fix(x), signal=sig.tolist(), at=[i + 1 for i in at], obs=qn(o, 1e3), so=shape(o))


def contested(sm, rng, n=6):
    """Queries that are hardly closer to one element than to another."""
    out = []
    for _ in range(n if len(sm.rows) > 1 else 0):
        i, j = (sm.rows[int(v)] for v in rng.choice(len(sm.rows), 2, replace=False))
        if i[0] != j[0]:
            continue
        t = 0.5 + float(rng.choice([-1, 1])) * float(rng.uniform(0.0008, 0.008))
        if sm.k == "angle":
            d = (j[1] - i[1] + PI) % (2 * PI) - PI
            x = np.array([i[1] + t * d])
        else:
            b = j[1:] if np.dot(i[1:], j[1:]) >= 0 else -j[1:]
            x = (1 - t) * i[1:] + t * b
            x = x / np.linalg.norm(x)
        out.append(np.concatenate((i[:1], x)))
    return out


def run(rec, thorough, rng):
    S = lambda sm, c=2: rng.integers(-9, 10, size=(len(sm.rows), c))
    for rep in range(6 if thorough else 1):
        for fam in FAMS:
            for n in [1, 2, 3, 4, 6, 7]:
                for trial in range(3):
                    sm = make(fam, n, rng)
                    sig, qs = S(sm, int(rng.integers(1, 4))), sm.query(rng, int(rng.choice([1, 1, 3, 5])))
                    if trial == 1:  # only queries of one class
                        for x in qs:
                            x[0] = qs[0][0]
                    with rec.trace(("nearest", fam, n)):
                        c = []
                        o = sm.ask(qs, sig, "nearest", None, check=c)
                        rec.ev("nearest", k=sm.k, fam=fam, grid=sm.fix(sm.rows), nr=sm.nr, qs=sm.fix(qs), signal=sig.tolist(), obs=qn(o, 1),
                               so=shape(o), c0=c[0], c1=c[1])
                    with rec.trace(("contested", fam, n)):
                        x = contested(sm, rng)
                        if x:
                            c = []
                            o = sm.ask(x, sig, "nearest", None, check=c)
                            rec.ev("nearest", k=sm.k, fam=fam, grid=sm.fix(sm.rows), nr=sm.nr, qs=sm.fix(x), signal=sig.tolist(), obs=qn(o, 1),
                                   so=shape(o), c0=c[0], c1=c[1])
                    w = widths(sm, rng)
                    with rec.trace(("rbf", fam, n)):
                        rbf(rec, sm, qs, sig, w)
                    with rec.trace(("ongrid", fam, n)):
                        at = [int(i) for i in rng.integers(0, n, size=4)]
                        x = [sm.rows[i].copy() for i in at]
                        for r in x:
                            if rng.random() < 0.5:
                                r[1:] = r[1:] + 2 * PI * int(rng.integers(-1, 2)) if sm.k == "angle" else -r[1:]
                        for mode in ("nearest", "rbf"):
                            o = sm.ask(x, sig, mode, w)
                            rec.ev("ongrid", k=sm.k, fam=fam, mode=mode, qs=sm.fix(x), signal=sig.tolist(), at=[i + 1 for i in at], obs=qn(o, 1e3), so=shape(o))
                    with rec.trace(("linear", fam, n)):
                        s1, s2_ = S(sm), S(sm)
                        a, b = int(rng.integers(-3, 4)), int(rng.integers(-3, 4))
                        for mode in ("nearest", "rbf"):
                            f = lambda s: qn(sm.ask(qs, s, mode, w), 1e3)
                            rec.ev("linear", fam=fam, mode=mode, a=a, b=b, o1=f(s1), o2=f(s2_), o3=f(a * s1 + b * s2_))
                    with rec.trace(("single", fam, n)):
                        for mode in ("nearest", "rbf"):
                            al = qn(sm.ask(qs, sig, mode, w), 1e3)
                            one = [qn(sm.ask([x], sig, mode, w), 1e3)[0] for x in qs]
                            rec.ev("single", fam=fam, mode=mode, all=al, one=one, tol=15)
        # reflections: all of one kind, all of the other, a class without signal
        for fam in ("o2", "o3"):
            for nr, nf in [(3, 0), (0, 3), (2, 2), (1, 3)]:
                k = "angle" if fam == "o2" else "quat"
                rows = [np.concatenate(([1.0], e)) for e in spread(k, nr, rng)] + [np.concatenate(([-1.0], e)) for e in spread(k, nf, rng)]
                sm = Sampler(fam, rows, nr)
                for cs in [[1.0], [-1.0], [1.0, 1.0], [-1.0, -1.0, -1.0], [-1.0, 1.0], [1.0, -1.0, -1.0, 1.0, -1.0]]:
                    qs = sm.query(rng, len(cs))
                    for x, c in zip(qs, cs):
                        x[0] = c
                    sig = S(sm)
                    w = widths(sm, rng)
                    with rec.trace(("split", fam, nr, nf, cs)):
                        c = []
                        o = sm.ask(qs, sig, "nearest", None, check=c)
                        rec.ev("nearest", k=sm.k, fam=fam, grid=sm.fix(sm.rows), nr=sm.nr, qs=sm.fix(qs), signal=sig.tolist(), obs=qn(o, 1),
                               so=shape(o), c0=c[0], c1=c[1])
                        rbf(rec, sm, qs, sig, w)

        for fam in FAMS:
            for _ in range(3):
                with rec.trace(("large", fam)):
                    large(rec, fam, rng)
                with rec.trace(("wide", fam)):
                    wide(rec, fam, rng)
        # barycentric
        for n in [3, 4, 6, 9, 14]:
            for N in (1, 3):
                with rec.trace(("bary", n, N)):
                    bary(rec, n, N, rng)

        # behaviours of the specification
        hists = tlc.simulate("MCSampling", "SimSampling.cfg", 60 if thorough else 20, 11, int(rng.integers(1, 10**6)))
        for h in hists:
            for fam in FAMS:
                replay(rec, h, fam, rng)

    for fam, fn in [("so2", lambda m: so2.grid_sample(torch.rand(2, 1), torch.rand(3, 1), torch.rand(3, 1), mode=m)),
                    ("so3", lambda m: so3.grid_sample(so3.random_quat(2), torch.rand(3, 1), so3.random_quat(3), mode=m)),
                    ("so3m", lambda m: so3.grid_sample(so3.random_matrix(2), torch.rand(3, 1), so3.random_matrix(3), mode=m)),
                    ("o2", lambda m: o2.grid_sample(o2.random_grid(4), torch.rand(5, 1), o2.uniform_grid((3, 2)), (3, 2), mode=m)),
                    ("o3", lambda m: o3.grid_sample(o3.random_grid(4), torch.rand(5, 1), o3.uniform_grid((3, 2)), (3, 2), mode=m))]:
        for m in ["bilinear", "", "linear", "bcc", "Nearest-exact", "rbf2", "nn"]:
            with rec.trace(("unknown", fam, m)):
                ok, _ = attempt(fn, m)
                rec.ev("unknown", fam=fam, mode=m, raised=not ok)


def rbf(rec, sm, qs, sig, w):
    n = len(sm.rows)
    D, Dq = sm.D(sm.rows, sm.rows), sm.D(qs, sm.rows)
    cls = sm.rows[:, 0]
    W = np.where(cls > 0, w[0], w[1])
    M = np.exp2(-((D / W[:, None]) ** 2)) * (cls[:, None] == cls[None, :])
    C = np.linalg.solve(M, sig)
    c = []
    o = sm.ask(qs, sig, "rbf", w, check=c)
    rec.ev("rbf", k=sm.k, fam=sm.fam, grid=sm.fix(sm.rows), nr=sm.nr, qs=sm.fix(qs), signal=sig.tolist(), d=[q(torch.tensor(r), 1e5) for r in D],
           dq=[q(torch.tensor(r), 1e5) for r in Dq], c=[q(torch.tensor(r), 1e3) for r in C], w=q(torch.tensor(w), 1e5), obs=qn(o, 1e3), so=shape(o),
           c0=c[0], c1=c[1])


def bary(rec, n, N, rng):
    unit = lambda x: x / np.linalg.norm(x, axis=-1, keepdims=True)
    grid = unit(rng.normal(size=(N, n, 3)))
    K = 5
    qs = unit(rng.normal(size=(N, K, 3)))
    want = [[[] for _ in range(K)] for _ in range(N)]
    for b in range(N):  # some queries inside a small triangle of the grid, one on the grid
        for i in range(2):
            d = grid[b] @ grid[b, i]
            idx = np.argsort(-d)[:3]
            r = rng.uniform(0.01, 1, size=(3, 1))
            qs[b, i] = unit((grid[b, idx] * r).sum(0))
            d = np.sort(grid[b] @ qs[b, i])[::-1]
            if set(np.argsort(-(grid[b] @ qs[b, i]))[:3]) == set(idx) and (n == 3 or d[2] - d[3] > 0.01) and np.linalg.cond(grid[b, idx]) < 20:
                want[b][i] = [0.0] * n  # its coordinates are known
                for j, v in zip(idx, r[:, 0] / r.sum()):
                    want[b][i][int(j)] = float(v)
        qs[b, 2] = grid[b, int(rng.integers(n))]
    T = lambda x: torch.tensor(np.array(x), dtype=torch.float32)
    g, x = T(grid), T(qs)
    sig = rng.integers(-9, 10, size=(N, n, 2))
    c0 = crc([g, x])
    w = interpolation.interpolate_BCC(x, g, torch.eye(n).expand(N, n, n), dist_fn=s2.geodesic_distance_s2)
    o = interpolation.interpolate_BCC(x, g, T(sig), dist_fn=s2.geodesic_distance_s2)
    c1 = crc([g, x])
    for b in range(N):
        rec.ev("bary", grid=[q(r, 1e4) for r in g[b]], qs=[q(r, 1e4) for r in x[b]], signal=sig[b].tolist(), w=qn(w[b], 1e4), t=[q(torch.tensor(v), 1e4) for v in want[b]], obs=qn(o[b], 1e3),
               so=shape(w[b]), c0=c0, c1=c1)


def replay(rec, h, fam, rng):
    M, NQ = 5, 4
    k = "angle" if fam in ("so2", "o2") else "quat"
    nr = M if fam[:2] == "so" else 2
    rows = [np.concatenate(([1.0], e)) for e in spread(k, nr, rng)] + [np.concatenate(([-1.0], e)) for e in spread(k, M - nr, rng)]
    sm = Sampler(fam, rows, nr)
    w = widths(sm, rng)
    sig = rng.integers(-9, 10, size=(M, 2))
    qs = np.array(sm.query(rng, NQ))
    mode = "rbf" if rng.random() < 0.6 else "nearest"
    if mode == "nearest":  # keep clear of ties
        for i in range(NQ):
            d = np.sort([sm.dist(qs[i], r) for r in rows if r[0] == qs[i][0]])
            if len(d) > 1 and d[1] - d[0] < 0.02:
                return
    with rec.trace(("program", fam, mode)):
        rec.ev("begin", fam=fam, mode=mode, obs=qn(sm.ask(qs, sig, mode, w), 1e3))
        rows = sm.rows.copy()
        for a in h:
            i, j = a["i"] - 1, a["j"] - 1
            if a["op"] == "relabel":
                if rows[i][0] != rows[j][0]:
                    continue  # rotations stay first
                rows[[i, j]] = rows[[j, i]]
                sig[[i, j]] = sig[[j, i]]
            elif a["op"] in ("move", "rmove"):
                g = [rng.uniform(-5, 5)] if k == "angle" else gen.rand_quat(rng)
                rows, qs = sm.times(g, rows, a["op"] == "rmove"), sm.times(g, qs, a["op"] == "rmove")
            elif a["op"] == "reorder":
                qs[[i, j]] = qs[[j, i]]
            else:
                i = i % NQ
                qs[i, 1:] = qs[i, 1:] + 2 * PI if k == "angle" else -qs[i, 1:]
                j = int(rng.integers(M))
                rows[j, 1:] = rows[j, 1:] - 2 * PI if k == "angle" else -rows[j, 1:]
            rec.ev("prog", fam=fam, mode=mode, act=a, obs=qn(sm.ask(qs, sig, mode, w, rows=rows), 1e3), tol=0 if mode == "nearest" else 25)
