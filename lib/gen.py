"""Inputs for the drivers: group elements, shapes, memory layouts.  Independent of gconv."""
import itertools
import math

import numpy as np
import torch

PI = math.pi


def octahedral():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = s[i]
            if round(np.linalg.det(m)) == 1:
                out.append(m)
    return out


OCT = octahedral()


def quat_of(m):
    """A unit quaternion of a rotation matrix (float64, robust)."""
    m = np.asarray(m, dtype=np.float64)
    K = np.array([
        [m[0, 0] - m[1, 1] - m[2, 2], 0, 0, 0],
        [m[0, 1] + m[1, 0], m[1, 1] - m[0, 0] - m[2, 2], 0, 0],
        [m[0, 2] + m[2, 0], m[1, 2] + m[2, 1], m[2, 2] - m[0, 0] - m[1, 1], 0],
        [m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1], m[0, 0] + m[1, 1] + m[2, 2]],
    ]) / 3
    w, v = np.linalg.eigh(K)
    q = v[[3, 0, 1, 2], np.argmax(w)]
    return q if q[0] >= 0 else -q


def mat_of(q):
    w, x, y, z = np.asarray(q, dtype=np.float64) / np.linalg.norm(q)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])


def axis_angle(axis, t):
    a = np.asarray(axis, dtype=np.float64)
    a = a / np.linalg.norm(a)
    return np.concatenate(([math.cos(t / 2)], math.sin(t / 2) * a))


def rot2(t):
    return np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])


def rz(t):
    m = np.eye(3)
    m[:2, :2] = rot2(t)
    return m


def ry(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rx(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


SPECIAL_ANGLES = [0.0, PI / 2, PI, 3 * PI / 2, -PI / 2, -PI, 2 * PI, PI / 4, 1e-4, PI - 1e-4, PI + 1e-4, -0.3, 7.0, PI / 3]


def rand_angle(rng, wide=False):
    r = rng.random()
    if r < 0.3:
        return float(rng.choice(SPECIAL_ANGLES))
    if r < 0.45:
        return 2 * PI * int(rng.integers(0, 24)) / 24
    lo, hi = (-10, 10) if wide else (0, 2 * PI)
    return float(rng.uniform(lo, hi))


def rand_quat(rng):
    r = rng.random()
    if r < 0.25:
        q = quat_of(OCT[int(rng.integers(24))])
    elif r < 0.35:  # half turn about a generic axis
        v = rng.normal(size=3)
        q = np.concatenate(([0.0], v / np.linalg.norm(v)))
    elif r < 0.45:  # small angle
        q = axis_angle(rng.normal(size=3), 10 ** rng.uniform(-4, -1))
    else:
        q = rng.normal(size=4)
        q = q / np.linalg.norm(q)
    return q if rng.random() < 0.5 else -q


KINDS = ["so2a", "so2m", "quat", "so3m", "o2", "o3"]
WIDTH = {"so2a": 1, "so2m": 4, "quat": 4, "so3m": 9, "o2": 2, "o3": 10}
ELSHAPE = {"so2a": (1,), "so2m": (2, 2), "quat": (4,), "so3m": (3, 3), "o2": (2,), "o3": (10,)}


def rand_el(kind, rng):
    c = float(rng.choice([1.0, -1.0]))
    if kind == "so2a":
        return np.array([rand_angle(rng, wide=True)])
    if kind == "so2m":
        return rot2(rand_angle(rng)).reshape(-1)
    if kind == "quat":
        return rand_quat(rng)
    if kind == "so3m":
        return mat_of(rand_quat(rng)).reshape(-1)
    if kind == "o2":
        return np.array([c, rand_angle(rng, wide=True)])
    if kind == "o3":
        return np.concatenate(([c], mat_of(rand_quat(rng)).reshape(-1)))


def elements(kind, lead, rng, dtype=torch.float32):
    n = int(np.prod(lead)) if len(lead) else 1
    a = np.array([rand_el(kind, rng) for _ in range(n)]).reshape(*lead, *ELSHAPE[kind])
    return torch.tensor(a, dtype=dtype)


def relayout(t, rng, lead):
    """The same values in some other memory layout (views, strides, offsets)."""
    r = int(rng.integers(0, 7))
    if t.ndim == 0 or t.numel() == 0:
        return t
    if r == 1 and lead >= 1:  # strided along the first dimension
        big = torch.randn(t.shape[0] * 2, *t.shape[1:], dtype=t.dtype)
        big[::2] = t
        return big[::2]
    if r == 2 and t.ndim >= 2:  # transposed storage
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if r == 3:  # inside a wider tensor
        big = torch.randn(*t.shape[:-1], t.shape[-1] + 2, dtype=t.dtype)
        big[..., 1:-1] = t
        return big[..., 1:-1]
    if r == 4:  # dimensions stored in any order
        p = [int(v) for v in rng.permutation(t.ndim)]
        return t.permute(p).contiguous().permute([p.index(i) for i in range(t.ndim)])
    if r == 5:  # inside a tensor longer in some dimension
        d = int(rng.integers(t.ndim))
        big = torch.randn(*t.shape[:d], t.shape[d] + 2, *t.shape[d + 1:], dtype=t.dtype)
        part = big.narrow(d, 1, t.shape[d])
        part.copy_(t)
        return part
    return t


def fix(kind, t):
    """Elements as fixed-point tuples for the specification (Groups.tla)."""
    from .rec import q, BAD

    a = torch.as_tensor(t).detach().to(torch.float64).reshape(-1, WIDTH[kind])
    if kind == "so2a":
        return [q(r, 1e5) for r in a]
    if kind == "o2":
        return [q(r[:1], 1e4) + q(r[1:], 1e5) for r in a]
    return [q(r, 1e4) for r in a]


def some(xs, n, rng):
    """At most n of them, in random order."""
    return [xs[int(i)] for i in rng.permutation(len(xs))[:n]]


MANY = [17, 33, 70, 130, 257, 1030]  # lengths of long lists


def few(n, rng, k=4):
    """Positions worth looking at in a list of n: the ends and some others."""
    return sorted({0, n - 1, *(int(i) for i in rng.integers(0, n, k))})


def at(r, n, *idx):
    """The rows of a result with leading lengths n at the positions idx; the result itself if its shape is another."""
    if tuple(r.shape[:len(n)]) != tuple(n):
        return r
    for d, i in enumerate(idx):
        r = r.index_select(d, torch.tensor(i))
    return r
