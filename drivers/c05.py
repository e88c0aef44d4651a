"""C05: distances and logarithms."""
import math

import numpy as np
import torch

from lib import gen
from lib.rec import crc, q, shape, BAD
from gconv.geometry import so2, so3
from gconv.geometry.groups import s2

TRACE = "TraceC05"
MODELS = [("MCDist", "MCDist.cfg")]
PI = math.pi
W = {"angle": 1, "euclid2": 2, "quat": 4, "vec3": 3}
DIST = {"angle": so2.geodesic_distance, "euclid2": so2.geodesic_distance_euclid, "quat": so3.geodesic_distance,
        "vec3": s2.geodesic_distance_s2}


def fixk(k, t):
    a = t.detach().to(torch.float64).reshape(-1, W[k])
    return [q(r, 1e5 if k == "angle" else 1e4) for r in a]


def unit(v):
    return v / np.linalg.norm(v)


def rand(k, rng):
    if k == "angle":
        return np.array([gen.rand_angle(rng, wide=True)])
    if k == "euclid2":
        t = gen.rand_angle(rng)
        return np.array([math.cos(t), math.sin(t)])
    if k == "quat":
        return gen.rand_quat(rng)
    if rng.random() < 0.3:
        v = np.zeros(3)
        v[int(rng.integers(3))] = rng.choice([-1.0, 1.0])
        return v
    return unit(rng.normal(size=3))


def batch(k, lead, rng, dt):
    n = int(np.prod(lead)) if lead else 1
    return torch.tensor(np.array([rand(k, rng) for _ in range(n)]).reshape((*lead, W[k])), dtype=dt)


def close(k, a, rng):
    """Something at a chosen small or large distance from a."""
    t = float(rng.choice([0.0, 1e-3, 0.01, 0.1, PI / 4, PI / 2, 3.0, PI]))
    if k == "angle":
        return a + t * float(rng.choice([-1, 1])) + 2 * PI * int(rng.integers(-2, 3))
    if k == "quat":
        d = gen.axis_angle(rng.normal(size=3), t)
        return qmul(a, d) * float(rng.choice([-1, 1]))
    if k == "euclid2":
        return gen.rot2(t) @ a
    u = unit(np.cross(a, unit(rng.normal(size=3))))
    return math.cos(t) * a + math.sin(t) * u


def qmul(a, b):
    w1, x1, y1, z1 = a
    w2, x2, y2, z2 = b
    return np.array([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                     w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2])


PAIRS = [((), ()), ((3,), (3,)), ((5, 1), (4,)), ((1,), (4,)), ((4,), ()), ((2, 1, 3), (2, 1)), ((2, 3), (3,)), ((0,), (0,)),
         ((3, 3), (3, 3)), ((4,), (4, 1))]


def run(rec, thorough, rng):
    for _ in range(8 if thorough else 2):
        for k, fn in DIST.items():
            for sa, sb in PAIRS:
                for dt in (torch.float32, torch.float64):
                    a = batch(k, sa, rng, dt)
                    b = batch(k, sb, rng, dt)
                    if sa == sb and sa:
                        x = a.reshape(-1, W[k]).double().numpy()
                        b = torch.tensor(np.array([close(k, r, rng) for r in x]).reshape((*sa, W[k])), dtype=dt)
                    a, b = gen.relayout(a, rng, len(sa)), gen.relayout(b, rng, len(sb))
                    with rec.trace(("dist", k, sa, sb)):
                        c0 = crc([a, b])
                        d = fn(a, b)
                        rec.ev("dist", kind=k, sa=sa, sb=sb, a=fixk(k, a), b=fixk(k, b), d=q(d, 1e5), so=shape(d), c0=c0, c1=crc([a, b]))
            for n, m in [(17, 0), (33, 0), (130, 0), (257, 0), (1030, 0), (24, 24), (60, 7), (5, 130)]:  # long lists, some looked at
                dt = torch.float64 if rng.random() < 0.3 else torch.float32
                a = batch(k, (n,), rng, dt)
                b = batch(k, (m,), rng, dt) if m else torch.tensor(np.array([close(k, r, rng) for r in a.double().numpy()]).reshape(n, W[k]), dtype=dt)
                with rec.trace(("dist", k, n, m)):
                    c0 = crc([a, b])
                    i = gen.few(n, rng, 2)
                    j = gen.few(m, rng, 2) if m else i
                    d = gen.at(fn(a[:, None], b), (n, m), i, j) if m else gen.at(fn(a, b), (n,), i)
                    a_, b_ = gen.at(a, (n,), i), gen.at(b, (m or n,), j)
                    rec.ev("dist", kind=k, sa=[len(i)] + [1] * bool(m), sb=[len(j)], a=fixk(k, a_), b=fixk(k, b_), d=q(d, 1e5), so=shape(d), c0=c0, c1=crc([a, b]))
            for _i in range(12):
                with rec.trace(("guises", k)):
                    a = rand(k, rng)
                    b = close(k, a, rng) if rng.random() < 0.5 else rand(k, rng)
                    ds = guises(k, a, b, rng)
                    rec.ev("guises", kind=k, a=fixk(k, torch.tensor(a))[0], b=fixk(k, torch.tensor(b))[0], d=q(torch.tensor(ds), 1e5))
        # nearest neighbours
        for n in [0, 1, 2, 3, 4, 5, 8, 12, 20, 33]:
            for k in ("angle", "quat"):
                for form in ("vec", "matrix") if k == "quat" else ("vec",):
                    g = np.array([rand(k, rng) for _ in range(n)]).reshape(n, W[k])
                    if n > 3 and rng.random() < 0.4:
                        g[n - 1] = g[0] if k == "angle" else -g[0]
                    if n > 2 and rng.random() < 0.4:
                        g[1] = close(k, g[2], rng)
                    t = torch.tensor(g, dtype=torch.float32)
                    x = t
                    if form == "matrix":
                        x = torch.tensor(np.array([gen.mat_of(r) for r in g]).reshape(n, 3, 3), dtype=torch.float32)
                    with rec.trace(("nn", k, form, n)):
                        c0 = crc(x)
                        d = (so2 if k == "angle" else so3).nearest_neighbour_distance(x)
                        rec.ev("nn", kind=k, a=fixk(k, t), d=q(d, 1e5), so=shape(d), inf=bool(d.isinf().all()), c0=c0, c1=crc(x))
        # uniform planar grids, where every nearest neighbour is one step away
        for n in (2, 3, 4, 7, 16):
            t = torch.tensor([[2 * PI * i / n] for i in range(n)], dtype=torch.float32)
            with rec.trace(("nn", "uniform", n)):
                d = so2.nearest_neighbour_distance(t)
                rec.ev("nn", kind="angle", a=fixk("angle", t), d=q(d, 1e5), so=shape(d), inf=False, c0=0, c1=0)
        # logarithms
        for lead in [(), (1,), (6,), (2, 3), (2, 1, 4), (0,), (12,), (70,)]:
            for dt in (torch.float32, torch.float64):
                for k in (0, 0, 0, 1, 2, 3):
                    n = int(np.prod(lead)) if lead else 1
                    th, ax, half = [], [], []
                    for _i in range(n):
                        if k == 0:
                            t = float(rng.choice([0.0, PI, PI / 2, 2 * PI / 3, PI - 1e-3, PI - 1e-2, PI - 0.1, 3.0])) if rng.random() < 0.6 else float(rng.uniform(0, PI))
                        else:
                            t = float(rng.uniform(0.5, 3)) * 10.0**-k
                        v = np.zeros(3)
                        v[int(rng.integers(3))] = rng.choice([-1.0, 1.0])
                        if rng.random() < 0.6:
                            v = unit(rng.normal(size=3))
                        th.append(t)
                        ax.append(v)
                        half.append(bool(PI - t < 1e-4))
                    R = np.array([gen.mat_of(gen.axis_angle(v, t)) for v, t in zip(ax, th)]).reshape((*lead, 3, 3))
                    R = gen.relayout(torch.tensor(R, dtype=dt), rng, len(lead))
                    with rec.trace(("log", lead, k)):
                        c0 = crc(R)
                        w = so3.so3_log(R)
                        rec.ev("log", sa=lead, theta=q(torch.tensor(th), 10.0**k * 1e4), axis=[q(torch.tensor(v), 1e4) for v in ax],
                               half=half, w=[q(r, 10.0**k * 1e4) for r in w.reshape(-1, 3)] if w.shape[-1:] == (3,) else [],
                               so=shape(w), c0=c0, c1=crc(R))
        for n in [1, 2, 5, 9, 70]:
            for dt in (torch.float32, torch.float64):
                th, ax, rho = [], [], []
                for _i in range(n):
                    th.append(float(rng.choice([0.0, PI / 2, PI / 4, 0.01, 1.0, 2.0, 3.0, PI - 1e-3, PI - 1e-5, PI - 1e-7, 1e-5, 1e-7])) if rng.random() < 0.6 else float(rng.uniform(0, 3.1)))
                    ax.append(unit(rng.normal(size=3)))
                    rho.append(int(rng.choice([1, 1, 2, 3, 4])))
                Q = np.array([r * gen.axis_angle(v, 2 * t) for v, t, r in zip(ax, th, rho)]).reshape(n, 4)
                Q = torch.tensor(Q, dtype=dt)
                with rec.trace(("qlog", n)):
                    c0 = crc(Q)
                    w = so3.quaternion_log(Q)
                    rec.ev("qlog", theta=q(torch.tensor(th), 1e4), axis=[q(torch.tensor(v), 1e4) for v in ax], rho=rho,
                           w=[q(r, 1e4) for r in w], so=shape(w), c0=c0, c1=crc(Q))


def guises(k, a, b, rng):
    f = DIST[k]
    T = lambda x: torch.tensor(x, dtype=torch.float32)
    out = [float(f(T(a), T(b))), float(f(T(b), T(a)))]
    if k == "angle":
        g = rand(k, rng)
        out += [float(f(T(a + 2 * PI), T(b))), float(f(T(a), T(b - 4 * PI)))]
        out += [float(f(so2.left_apply_angle(T(g), T(a)), so2.left_apply_angle(T(g), T(b))))]
        out += [float(f(so2.left_apply_angle(T(a), T(g)), so2.left_apply_angle(T(b), T(g))))]
        out += [float(f(so2.inverse_angle(T(a)), so2.inverse_angle(T(b))))]
    if k == "quat":
        out += [float(f(T(-a), T(b))), float(f(T(a), T(-b))), float(f(T(-a), T(-b)))]
        for _ in range(2):
            g = T(rand(k, rng))
            out += [float(f(so3.left_apply_quat(g, T(a)), so3.left_apply_quat(g, T(b))))]
            out += [float(f(so3.left_apply_quat(T(a), g), so3.left_apply_quat(T(b), g)))]
        out += [float(f(so3.quat_inverse(T(a)), so3.quat_inverse(T(b))))]
    if k in ("euclid2", "vec3"):
        R = gen.rot2(1.234) if k == "euclid2" else gen.mat_of(rng.normal(size=4))
        out += [float(f(T(R @ a), T(R @ b)))]
    return out
