"""Kernels and layers on chosen elements, with what the specification needs to know about them."""
import math

import numpy as np
import torch

from . import gen
from .layers import DIM, KERNEL, KIND, LAYER, REFL, el_tensor, spatial_mode_names
from .rec import q, qn

PI = math.pi


def qmul(a, b):
    w1, x1, y1, z1 = a
    w2, x2, y2, z2 = b
    return np.array([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                     w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2])


def qrel(a, b):
    return qmul(np.array([a[0], -a[1], -a[2], -a[3]]), b)


def spread(k, n, rng):
    """n well separated elements."""
    if k == "angle":
        t = rng.uniform(0, 2 * PI)
        return [np.array([(t + 2 * PI * (i + 0.25 * rng.uniform(-1, 1)) / n)]) for i in range(n)]
    best, bd = None, -1
    for _ in range(60):
        c = [gen.rand_quat(rng) for _ in range(n)]
        d = min([1 - abs(float(np.dot(a, b))) for i, a in enumerate(c) for b in c[:i]] or [1])
        if d > bd:
            best, bd = c, d
    return best


def par(g):
    return "angle" if DIM[g] == 2 else "quat"


def dist(k, a, b):
    """Distance of two rows (coefficient, angle or quaternion) of the same class."""
    if k == "angle":
        d = (a[1] - b[1]) % (2 * PI)
        return min(d, 2 * PI - d)
    return math.atan2(np.linalg.norm(qrel(a[1:], b[1:])[1:]), abs(float(np.dot(a[1:], b[1:]))))


def rel(k, o, i):
    return np.concatenate(([o[0] * i[0]], [i[1] - o[1]] if k == "angle" else qrel(o[1:], i[1:])))


def mul(k, a, b):
    return np.concatenate(([a[0] * b[0]], [a[1] + b[1]] if k == "angle" else qmul(a[1:], b[1:])))


def tensor(g, rows, dtype=torch.float32):
    """Rows as the elements the layers of group g take."""
    rows = np.array(rows, dtype=np.float64).reshape(len(rows), -1 if len(rows) else 2 if DIM[g] == 2 else 5)
    kind = KIND[g]
    if kind == "so2a":
        return torch.tensor(rows[:, 1:], dtype=dtype).reshape(-1, 1)
    if kind == "o2":
        return torch.tensor(rows, dtype=dtype).reshape(-1, 2)
    m = np.array([gen.mat_of(r[1:]) for r in rows]).reshape(-1, 9)
    if kind == "so3m":
        return torch.tensor(m, dtype=dtype).reshape(-1, 3, 3)
    return torch.tensor(np.concatenate((rows[:, :1], m), axis=1), dtype=dtype).reshape(-1, 10)


def rows_of(g, t):
    """The other way round."""
    t = t.detach().to(torch.float64).numpy()
    kind = KIND[g]
    if kind == "so2a":
        return [np.array([1.0, a]) for a in t.reshape(-1)]
    if kind == "o2":
        return [r.copy() for r in t.reshape(-1, 2)]
    if kind == "so3m":
        return [np.concatenate(([1.0], gen.quat_of(m))) for m in t.reshape(-1, 3, 3)]
    return [np.concatenate((r[:1], gen.quat_of(r[1:].reshape(3, 3)))) for r in t.reshape(-1, 10)]


def fixrows(k, rows):
    return [q(torch.tensor(np.array(r[:1])), 1) + q(torch.tensor(np.array(r[1:])), 1e5 if k == "angle" else 1e4) for r in rows]


LAT2 = [PI / 2 * i for i in range(4)]
LAT3 = [gen.quat_of(m) for m in gen.OCT]


def element(g, rng, lattice):
    c = float(rng.choice([1.0, -1.0])) if REFL[g] else 1.0
    if DIM[g] == 2:
        return np.array([c, LAT2[int(rng.integers(4))] if lattice else rng.uniform(-7, 7)])
    return np.concatenate(([c], LAT3[int(rng.integers(24))] if lattice else gen.rand_quat(rng)))


def closed(g, rng):
    """Reference grid closed under the group; rotations first."""
    if DIM[g] == 2:
        n = int(rng.choice([1, 2, 4]))
        base = [np.array([2 * PI * i / n]) for i in range(n)]
    else:
        sub = int(rng.choice([1, 2, 3, 4]))
        ax = np.eye(3)[int(rng.integers(3))]
        base = ([gen.axis_angle(ax, 2 * PI * i / sub) for i in range(sub)] if sub != 3 else
                [gen.axis_angle([1, 1, 1], 2 * PI * i / 3) for i in range(3)])
    return [np.concatenate(([c], b)) for c in ((1.0, -1.0) if REFL[g] else (1.0,)) for b in base]


def scattered(g, rng, top=4):
    k = par(g)
    nr = int(rng.integers(1, top + 1))
    nf = int(rng.integers(0, top)) if REFL[g] else 0
    if REFL[g] and rng.random() < 0.2:
        nr, nf = 0, nr
    return [np.concatenate(([1.0], e)) for e in spread(k, nr, rng)] + [np.concatenate(([-1.0], e)) for e in spread(k, nf, rng)]


def widths(k, rows, rng):
    out = []
    for c in (1.0, -1.0):
        part = [r for r in rows if r[0] == c]
        if len(part) < 2:
            out.append(float(rng.uniform(0.4, 1.5)))
            continue
        m = min(dist(k, a, b) for i, a in enumerate(part) for b in part[:i]) * float(rng.uniform(0.6, 1.1))
        while np.abs(np.linalg.inv(np.exp2(-((D(k, part, part) / m) ** 2)))).sum(1).max() > 10:  # keep the linear system tame
            m *= 0.8
        out.append(m)
    return out


def D(k, A, B):
    return np.array([[dist(k, a, b) for b in B] for a in A]).reshape(len(A), len(B))


def coefficients(k, rows, w, W):
    """Coefficients of the Gaussians that interpolate the rows of W."""
    cls = np.array([r[0] for r in rows])
    wd = np.where(cls > 0, w[0], w[1])
    M = np.exp2(-((D(k, rows, rows) / wd[:, None]) ** 2)) * (cls[:, None] == cls[None, :])
    return np.linalg.solve(M, W)


def options(g, f, gmode, w, smode, spad):
    a, b = spatial_mode_names(f)
    kw = {a: smode, b: spad}
    if f != "lift":
        kw["group_sampling_mode"] = gmode
        if gmode == "rbf":
            if REFL[g]:
                kw["group_rotation_sampling_width"], kw["group_reflection_sampling_width"] = w
            else:
                kw["group_sampling_width"] = w[0]
    return kw
