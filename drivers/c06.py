"""C06: generated grids."""
import math

import numpy as np
import torch

from lib import gen
from lib.rec import attempt, q, shape, crc
from gconv.geometry import so2, o2, so3
from gconv.geometry.groups import o3, s2

TRACE = "TraceC06"
MODELS = [("MCGridBuild", "MCGridBuild.cfg")]
ASSUMPTIONS = ["well apart: at least 1.2 n^(-1/3) between rotations (half angles) and 2.2 n^(-1/2) between points of the sphere",
               "random grids are judged by moments and counts of 900 elements, at six or more standard deviations"]
W = {"angle": 1, "o2": 2, "quat": 4, "so3m": 9, "euler": 3, "o3": 10, "o3m": 9, "sph": 2, "vec3": 3}
PNAME = {"quat": "quat", "matrix": "so3m", "euler": "euler"}
SNAME = {"spherical": "sph", "euclidean": "vec3", "euler": "euler", "matrix": "so3m", "quat": "quat"}


def rows(p, t):
    if t.numel() == 0:
        return []
    a = t.detach().to(torch.float64).reshape(-1, W[p])
    if p in ("euler", "sph"):
        # the documented domain of these angles is not kept; any finite angle is one
        return [q(torch.fmod(r, 2 * math.pi), 1e5) for r in a]
    if p == "angle":
        return [q(r, 1e5) for r in a]
    if p == "o2":
        return [q(r[:1], 1e4) + q(r[1:], 1e5) for r in a]
    return [q(r, 1e4) for r in a]


def safe_rows(p, t):
    return rows(p, t) if t.numel() % W[p] == 0 else []


def run(rec, thorough, rng):
    def uni(fam, p, size, fn, lead, neg=False, label=None):
        with rec.trace(("uniform", fam, p, size, label)):
            g = fn()
            rec.ev("uniform", fam=fam, param=p, size=list(size) if isinstance(size, tuple) else [size], lead=lead, so=shape(g),
                   g=safe_rows(p, g), neg=neg)

    for n in list(range(0, 26)) + [32, 64, 127, 300]:
        uni("so2", "angle", n, lambda: so2.uniform_grid(n), [n])
    for a in list(range(0, 9)) + [17, 100]:
        for b in list(range(0, 9)) + [17, 130]:
            uni("o2", "o2", (a, b), lambda: o2.uniform_grid((a, b)), [a + b])
    for param, p in PNAME.items():
        for spell in (param, param.upper()) if thorough else (param,):
            for n in range(0, 25):
                if param == "euler" and not thorough and n not in (0, 1, 2, 3, 5, 8, 24):
                    continue
                uni("so3", p, n, lambda: so3.uniform_grid(n, spell, show_pbar=False), [n])
    for n in ([25, 26, 29, 32, 37, 40, 48, 64] if thorough else [25, 30, 37, 110, 220]):
        for param, p in PNAME.items():
            if n > 100 and param == "euler":
                continue
            uni("so3", p, n, lambda: so3.uniform_grid(n, param, show_pbar=False), [n])
    uni("so3", "so3m", 4, lambda: so3.uniform_grid(4, "MATRIX", show_pbar=False), [4])
    uni("so3", "quat", 6, lambda: so3.uniform_grid(6, "Quat", show_pbar=False), [6])
    uni("so3", "quat", 9, lambda: so3.uniform_grid(9), [9], label="default")
    sizes = [(a, b) for a in (0, 1, 2, 3, 5, 8) for b in (0, 1, 2, 4, 7)] + [(24, 24), (12, 1), (0, 24), (26, 3), (2, 27), (4, 110)]
    for a, b in sizes:
        if a + b == 0:
            continue
        uni("o3", "o3", (a, b), lambda: o3.uniform_grid((a, b)), [a + b])
        if a + b and (a + b) % 2:
            uni("o3", "o3m", (a, b), lambda: o3.uniform_grid((a, b), matrix_only=True), [a + b])
    for n in [1, 2, 3, 4, 5, 8, 13, 20, 33, 110, 220] + ([50, 64] if thorough else []):
        for param, p in SNAME.items():
            for neg in (False, True):
                if n > 100 and (neg or p not in ("vec3", "quat")):
                    continue
                uni("s2", p, n, lambda: s2.uniform_grid_s2(n, param, set_alpha_as_neg_gamma=neg, show_pbar=False), [n], neg)

    def rnd(fam, p, lead, fn):
        with rec.trace(("random", fam, p, lead)):
            g = fn()
            rec.ev("random", fam=fam, param=p, lead=list(lead), so=shape(g), g=safe_rows(p, g))

    for n in [0, 1, 2, 7, 20, 150]:
        rnd("so2", "angle", (n,), lambda: so2.random_grid(n))
        rnd("o2", "o2", (n,), lambda: o2.random_grid(n))
        rnd("o3", "o3", (n,), lambda: o3.random_grid(n))
        rnd("so3", "quat", (n,), lambda: so3.random_quat(n))
        rnd("so3", "so3m", (n,), lambda: so3.random_matrix(n))
        if n:
            rnd("so3", "euler", (n,), lambda: so3.random_euler(n))
    for lead in [(1,), (5,), (2, 3), (3, 1, 4), (4, 4), (3, 3), (1, 1), (12, 13)]:
        rnd("so3", "quat", lead, lambda: so3.random_quat(lead))
        rnd("so3", "so3m", lead, lambda: so3.random_matrix(lead))
        rnd("so3", "euler", lead, lambda: so3.random_euler(lead))
        rnd("o3", "o3", lead, lambda: o3.random_grid(lead))
        rnd("s2", "sph", lead, lambda: s2.random_s2(lead))

    def cov(what, fn):
        with rec.trace(("coverage", what)):
            rec.ev("coverage", what=what, g=fn())

    K = 900
    for _ in range(3 if thorough else 1):
        m3 = lambda t: [q(r, 1e3) for r in t.detach().double().reshape(K, -1)]
        cov("angle", lambda: q(so2.random_grid(K), 1e3))
        g2, g3 = o2.random_grid(K), o3.random_grid((30, 30)).reshape(K, 10)
        g3b = o3.random_grid(K)
        cov("angle", lambda: q(g2[:, 1], 1e3))
        cov("sign", lambda: q(g2[:, 0], 1))
        for g in (g3, g3b):
            cov("sign", lambda: q(g[:, 0], 1))
            cov("matrix", lambda: m3(g[:, 1:]))
            cov("product", lambda: m3(g[:, :1] * g[:, 1:]))
        cov("product", lambda: m3(torch.stack([g2[:, 0] * torch.cos(g2[:, 1]), g2[:, 0] * torch.sin(g2[:, 1])], -1)))
        cov("matrix", lambda: m3(so3.random_matrix(K)))
        cov("matrix", lambda: m3(torch.tensor(np.array([gen.mat_of(r) for r in so3.random_quat(K).double().numpy()]))))

        def eul():
            e = so3.random_euler(K).double().numpy()
            return m3(torch.tensor(np.array([gen.rz(c) @ gen.ry(b) @ gen.rz(a) for a, b, c in e])))

        cov("matrix", eul)

        def sph():
            e = s2.random_s2((K,)).double().numpy()
            return m3(torch.tensor(np.array([[math.sin(b) * math.cos(c), math.sin(b) * math.sin(c), math.cos(b)] for b, c in e])))

        cov("vector", sph)
        # the same, asked for in small portions
        few = lambda fn, n=1: torch.cat([fn(n).reshape(n, -1) for _ in range(K // n)])
        for n in (1, 3):
            cov("matrix", lambda: m3(few(so3.random_matrix, n)))
            cov("matrix", lambda: m3(torch.tensor(np.array([gen.mat_of(r) for r in few(so3.random_quat, n).double().numpy()]))))
            cov("angle", lambda: q(few(so2.random_grid, n), 1e3))
            a, b = few(o2.random_grid, n), few(o3.random_grid, n)
            cov("sign", lambda: q(a[:, 0], 1))
            cov("angle", lambda: q(a[:, 1], 1e3))
            cov("sign", lambda: q(b[:, 0], 1))
            cov("matrix", lambda: m3(b[:, 1:]))
            cov("product", lambda: m3(b[:, :1] * b[:, 1:]))

            def small():
                e = few(lambda k: s2.random_s2((k,)), n).double().numpy()
                return m3(torch.tensor(np.array([[math.sin(b) * math.cos(c), math.sin(b) * math.sin(c), math.cos(b)] for b, c in e])))

            cov("vector", small)
    for n in (30, 40):
        with rec.trace(("each", n)):
            rec.ev("each", c=[q(r, 1) for r in o3.random_grid((n, n))[..., 0]])
    for fn in (o2.random_grid, o3.random_grid):
        with rec.trace(("singles",)):
            gs = [fn(1) for _ in range(60)]
            rec.ev("singles", c=[q(g[0, 0], 1e4)[0] for g in gs], t=[crc(g) for g in gs])

    for name, fn in [("so3", lambda p: so3.uniform_grid(4, p, show_pbar=False)), ("so3", lambda p: so3.uniform_grid(25, p, steps=1, show_pbar=False)),
                     ("s2", lambda p: s2.uniform_grid_s2(4, p, steps=1, show_pbar=False))]:
        for p in ["spam", "", "quaternion", "matrices", "so3"] + (["euclidean", "spherical"] if name == "so3" else []):
            with rec.trace(("unsupported", name, p)):
                ok, _v = attempt(fn, p)
                rec.ev("unsupported", fam=name, param=p, raised=not ok and _v not in ("NameError", "UnboundLocalError"))
