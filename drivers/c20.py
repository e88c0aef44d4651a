"""C20: the repulsion optimiser."""
from math import pi

import numpy as np
import torch

from gconv.geometry import repulsion
from gconv.geometry.groups import s2, so3
from lib import tlc
from lib.rec import attempt, crc, q, qn, shape

TRACE = "TraceC20"
MODELS = [("MCRepulse", "MCRepulse.cfg", "MCRepulse_thorough.cfg")]
ASSUMPTIONS = [
    "exact steps are judged for the squared Euclidean metric with power-law energies; for the geodesic metrics only the spread",
    "crowded means within 0.05 rad, distinct by at least 0.002 rad, with the step sizes and numbers the library uses",
    "the noise level is judged statistically: standard deviation within eight percent",
]


def sq(x, y):
    return ((x - y) ** 2).sum(-1)


def distances(P, a, c):
    d = a * a * ((P[:, None] - P) ** 2).sum(-1) / c
    return d[~np.eye(len(P), dtype=bool)]


def parameters(P, e, n, rng):
    """Step size, transform, normalisation for which the exact step is well conditioned."""
    N = len(P)
    a, c, k = int(rng.choice([1, 2])), int(rng.choice([1, 2, 4])), int(rng.integers(1, 4))
    t = distances(P, a, c)
    top = 0.5 / (N * max(n, 1))
    if np.abs(P).max() > 2:
        e = "neg"
    if e == "columb":
        top = min(top, 0.2 / (k * t.min() ** -(k + 1))) if t.min() >= 0.5 else 0
    if e == "negsq":
        top /= 2 * t.max()
    m = int(1000 * min(top, 0.2)) // 4
    if m == 0:
        e, m = "neg", int(1000 * min(0.5 / (N * max(n, 1)), 0.2)) // 4
    m = 4 * int(rng.integers(max(1, m // 2), m + 1))
    return e, a, c, k, 10 * m * c * N * (N - 1) // (4 * a * a)


def program(rec, h, rng):
    N, D = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    if rng.random() < 0.1:
        N = int(rng.integers(6, 15))
    elif rng.random() < 0.05:
        N = int(rng.integers(30, 100)) // max([1] + [s["n"] for s in h if s["op"] != "track"])
        N = max(N, 2)
    for _ in range(200):
        P = rng.uniform(-1.5, 1.5, (N, D))
        if distances(P, 1, 1).min() > (0.5 if D > 1 else 0.1):
            break
    g = torch.tensor(P, dtype=torch.float32 if rng.random() < 0.8 else torch.float64)
    if rng.random() < 0.3:
        g = torch.stack([g, g])[:, :, :][1] if rng.random() < 0.5 else g.T.contiguous().T
    hs = [g]
    rec.ev("begin", vals=qn(g, 1e4), crc=crc(g))
    for s in h:
        x = hs[s["h"] - 1]
        if s["op"] == "track":
            x.requires_grad_(True)
            rec.ev("track", h=s["h"])
            continue
        n = s["n"]
        e, a, c, k, lr = parameters(x.detach().double().numpy(), s["e"], n, rng)
        b = float(rng.integers(-2, 3))
        fn = {"neg": lambda t: -t, "negsq": lambda t: -t * t, "columb": lambda t: repulsion.columb_energy(t, k)}[e]
        if e == "columb" and k == 2 and rng.random() < 0.5:
            fn = repulsion.columb_energy
        kw = dict(metric_fn=sq, transform_fn=lambda v: a * v + b, energy_fn=fn, dist_normalization_constant=c, alpha=0, show_pbar=False)
        args = (n, lr / 1e4)
        if rng.random() < 0.5:
            args, kw = (), dict(kw, steps=n, step_size=lr / 1e4)
        if s["ip"] or rng.random() < 0.5:
            kw["in_place"] = s["ip"]
        with torch.set_grad_enabled(not s["quiet"]):
            ok, y = attempt(repulsion.repulse, x, *args, **kw)
        if not ok:
            rec.ev("run", raised=True, why=y, h=s["h"], n=n)
            return
        hs.append(y)
        rec.ev("run", raised=False, h=s["h"], n=n, ip=s["ip"], e=e, a=a, c=c, k=k, lr=lr, shape=shape(y), vals=qn(y, 1e4), crc=crc(y),
               all=[crc(v) for v in hs], rg=[bool(v.requires_grad) for v in hs], grad=y.grad is not None)


def crowded(which, n, rng, near):
    """(grid, metric, transform, normalisation, step size) as in the library, points near each other."""
    if which == "so3":
        c, m, t, k, ss = [rng.uniform(0, 6), rng.uniform(0.8, 2.2), rng.uniform(0, 6)], so3.geodesic_distance, so3.euler_to_quat, pi / 2, n ** (1 / 3)
    else:
        c, m, t, k, ss = [rng.uniform(0.8, 2.2), rng.uniform(0, 6)], s2.geodesic_distance_s2, s2.spherical_to_euclid, pi, 0.1
    while True:
        g = torch.tensor(np.array(c) + near * rng.uniform(-1, 1, (n, len(c))), dtype=torch.float32)
        if closest(m, t, g) > 0.002:
            return g, m, t, k, ss


def closest(m, t, g):
    d = m(t(g)[:, None], t(g)).detach()
    return float(d[~torch.eye(len(g), dtype=bool)].min())


def spread(rec, which, rng):
    n = int(rng.integers(2, 11))
    g, m, t, k, ss = crowded(which, n, rng, 0.05)
    steps = int(rng.choice([100, 150, 200]))
    ip = bool(rng.random() < 0.5)
    c0, before, s0 = crc(g), closest(m, t, g), shape(g)
    y = repulsion.repulse(g, steps=steps, step_size=ss, metric_fn=m, transform_fn=t, dist_normalization_constant=k,
                          alpha=float(rng.choice([0, 0.001])), show_pbar=False, in_place=ip)
    rec.ev("spread", before=q(before, 1e5)[0], after=q(closest(m, t, y), 1e5)[0], shape=shape(y), shape0=s0, rg=bool(y.requires_grad or g.requires_grad),
           ip=ip, kept=crc(g) == c0, same=crc(g) == crc(y))


def agree(rec, what, x, y, tol):
    x, y = q(x, 1e4), q(y, 1e4)
    rec.ev("agree", what=what, x=x, y=y, tol=tol)


def twins(rec, rng):
    """Runs that must agree."""
    which = str(rng.choice(["so3", "s2", "sq", "sq", "sq"]))
    n = int(rng.integers(2, 6))
    if which == "sq":
        D = int(rng.integers(1, 4))
        while True:
            g = torch.tensor(rng.uniform(-3, 3, (n, D)), dtype=torch.float32)
            if distances(g.numpy(), 1, 1).min() > 0.4:
                break
        m, t, k = sq, (lambda v: v), 1
    else:
        g, m, t, k, _ = crowded(which, n, rng, 1.0)
        while closest(m, t, g) < 0.3:
            g, m, t, k, _ = crowded(which, n, rng, 1.0)
    seed = int(rng.integers(1 << 30))

    def go(x, s=seed, **kw):
        torch.manual_seed(s)
        return repulsion.repulse(x, metric_fn=m, **{"show_pbar": False, **kw})

    short = dict(steps=int(rng.integers(1, 4)), step_size=0.01, transform_fn=t, dist_normalization_constant=k)
    agree(rec, "deterministic-without-noise", go(g, alpha=0, **short), go(g, s=seed + 1, alpha=0, **short), 2)
    p = torch.tensor(rng.permutation(n))
    agree(rec, "order-of-the-elements", go(g[p], alpha=0, **short), go(g, alpha=0, **short)[p], 3)
    agree(rec, "same-seed-same-noise", go(g, alpha=0.5, **short), go(g, alpha=0.5, **short), 2)
    if which != "sq":
        return
    # energies that are powers: other units of length, other constants
    x, j, k2 = g.double(), int(rng.integers(-5, 6)), int(rng.integers(1, 4))
    v = 2.0 ** j
    n1 = int(rng.integers(1, 4))
    po = dict(steps=n1, energy_fn=lambda d: repulsion.columb_energy(d, k2), alpha=0)
    agree(rec, "units-of-length", go(x * v, step_size=0.01 * v ** (2 * k2 + 2), **po) / v, go(x, step_size=0.01, **po), 2)
    ref = go(x, step_size=0.01 * v ** k2, **po)
    if ref.abs().max() < 1000:
        agree(rec, "normalisation-of-distances", go(x, step_size=0.01, dist_normalization_constant=v, **po), ref, 2)
    # the points fly apart; rounding grows, so there had better be little of it
    full = dict(steps=200, step_size=10, transform_fn=lambda v: v, energy_fn=lambda d: d ** -2, dist_normalization_constant=1, alpha=0.001, in_place=False)
    names = list(rng.permutation(list(full)))
    for part in ({x: v for x, v in full.items() if x not in names[: int(rng.integers(1, len(names) + 1))]}, *({x: v for x, v in full.items() if x != y} for y in names[:3])):
        x, y = go(g.double(), **part), go(g.double(), **full)
        big = float(y.abs().max()) / 100
        agree(rec, "left-out-means-default", x / big, y / big, 10)


def noise(rec, rng):
    N, D = int(rng.integers(600, 900)), int(rng.integers(4, 6))
    g = torch.tensor(rng.uniform(-1, 1, (N, D)), dtype=torch.float64)
    n = int(rng.integers(1, 6))
    al, ss = float(10 ** rng.uniform(-3, 0.3)), float(10 ** rng.uniform(-1, 1))
    kw = dict(steps=n, step_size=ss, metric_fn=lambda x, y: 0 * sq(x, y), energy_fn=lambda t: -t, show_pbar=False)
    d = (repulsion.repulse(g, alpha=al, **kw) - g) / (al * ss)
    d2 = (repulsion.repulse(g, alpha=al, **kw) - g) / (al * ss)
    cov = max([float(v.mean()) for v in (d[1:] * d[:-1], d[:, 1:] * d[:, :-1], d * d2)], key=abs)
    z = repulsion.repulse(g, alpha=0, **kw)
    rec.ev("noise", n=n, var=q((d * d).mean(), 1e3)[0], mean=q(d.mean(), 1e3)[0], cov=q(cov, 1e3)[0], count=N * D, silent=crc(z) == crc(g))


def run(rec, thorough, rng):
    hs = tlc.simulate("MCRepulse", "SimRepulse.cfg", 800 if thorough else 200, 10, int(rng.integers(1, 10**6)))
    rng.shuffle(hs)
    for i, h in enumerate(hs[: 2000 if thorough else 300]):
        with rec.trace(("history", i)):
            program(rec, h, rng)
    for i in range(120 if thorough else 12):
        with rec.trace(("spread", i)):
            spread(rec, ("so3", "s2")[i % 2], rng)
        with rec.trace(("twins", i)):
            twins(rec, rng)
        with rec.trace(("noise", i)):
            noise(rec, rng)
