"""C14: pooling reduces exactly the dimensions it names."""
import numpy as np
import torch

import gconv.gnn as gnn
from lib import gen
from lib.parts import part
from lib.rec import crc, q, shape

TRACE = "TraceC14"
MODELS = [("MCPool", "MCPool.cfg", "MCPool_thorough.cfg")]
ASSUMPTIONS = ["inputs are integers between -9 and 9"]


def nest(t, dims, scale=1):
    return q(t, scale) if dims == 0 else [nest(x, dims - 1, scale) for x in t]


def features(dim, rng, big=False):
    top = 4 if dim == 3 else 7
    sp = [int(rng.integers(1, top + 1)) for _ in range(dim)]
    lead = [int(rng.integers(1, 4)) for _ in range(3)]
    lo, hi = -9, 10 if rng.random() < 0.6 else -1  # all negative: padding must not win
    x = torch.tensor(rng.integers(lo, hi, size=(*lead, *sp)), dtype=torch.float64 if rng.random() < 0.2 else torch.float32)
    return gen.relayout(x, rng, 1) if rng.random() < 0.6 else x, sp


def arg(v, rng, allow=True):
    """A number where all axes agree, sometimes."""
    return v[0] if len(set(v)) == 1 and rng.random() < 0.6 else tuple(v)


def what(r):
    if isinstance(r, torch.Tensor):
        return "tensor"
    if isinstance(r, tuple) and len(r) == 2 and all(isinstance(t, torch.Tensor) for t in r):
        return "pair"
    return type(r).__name__


def spatial(rec, dim, fn, rng):
    while True:
        x, sp = features(dim, rng)
        same = rng.random() < 0.4
        pick = lambda lo, hi: [int(rng.integers(lo, hi))] * dim if same else [int(v) for v in rng.integers(lo, hi, size=dim)]
        k, s, p, d = pick(1, 4), pick(1, 4), pick(0, 2), pick(1, 3) if fn == "max" and rng.random() < 0.4 else [1] * dim
        if (fn == "avg" and any(a > L for a, L in zip(k, sp))) or (any(p) and max(d) > 1):
            continue  # ordinary pooling does not take these
        if all(2 * b <= a and L + 2 * b - c * (a - 1) - 1 >= 0 for a, b, c, L in zip(k, p, d, sp)):
            break
    kw, ceil, pad, div = {}, bool(rng.random() < 0.3), True, 0
    if rng.random() < 0.3:
        s = list(k)  # the default
    else:
        kw["stride"] = arg(s, rng)
    if any(p) or rng.random() < 0.3:
        kw["padding"] = arg(p, rng)
    if any(v > 1 for v in d):
        kw["dilation"] = arg(d, rng)
    if ceil:
        kw["ceil_mode"] = True
    if fn == "avg":
        if rng.random() < 0.4:
            kw["count_include_pad"] = pad = False
        if rng.random() < 0.2:
            kw["divisor_override"] = div = int(rng.integers(1, 9))
    name = {"max": "GMaxSpatialPool", "avg": "GAvgSpatialPool"}[fn] + f"{dim}d"
    mod = getattr(gnn, name)(arg(k, rng), **kw)
    call(rec, "pool", mod, x, sp, rng, fn=fn, k=k, s=s, p=p, d=d, ceil=ceil, pad=pad, divisor=div)


def adaptive(rec, dim, fn, rng):
    x, sp = features(dim, rng)
    out = [int(v) for v in rng.integers(1, 5, size=dim)]
    size = arg(out, rng)
    if isinstance(size, tuple) and rng.random() < 0.3:
        i = int(rng.integers(dim))
        size = tuple(None if j == i else v for j, v in enumerate(size))
        out[i] = sp[i]
    mod = getattr(gnn, {"max": "GAdaptiveMaxSpatialPool", "avg": "GAdaptiveAvgSpatialPool"}[fn] + f"{dim}d")(size)
    z = [1] * dim
    call(rec, "adaptive", mod, x, sp, rng, fn=fn, out=out, k=z, s=z, p=z, d=z, ceil=False, pad=True, divisor=0)


def call(rec, op, mod, x, sp, rng, **kw):
    if rng.random() < 0.3:
        mod.eval()
    H = torch.rand(x.shape[2], int(rng.integers(1, 4)), dtype=torch.float32)
    h0, c0 = crc(H), crc(x)
    lead = [int(v) for v in x.shape[:3]]
    X = nest(x, 3)
    if op in ("pool", "adaptive"):
        r = mod(x, H)
        y, H1 = r[0], r[1]
        rec.ev(op, x=X, sp=sp, y=nest(y, 3, 1e3) if y.ndim > 3 else q(y, 1e3), so=shape(y), kind=what(r), h0=h0, h1=crc(H1), c0=c0, c1=crc(x), **kw)
    else:
        r = mod(x, H) if rng.random() < 0.5 else mod(x)
        y = r if isinstance(r, torch.Tensor) else r[0]
        rec.ev(op, x=X, sp=sp, y=nest(y, 2, 1e3) if y.ndim > 1 else q(y, 1e3), so=shape(y), kind=what(r), c0=c0, c1=crc(x), **kw)


def large(rec, rng):
    """Large batches, numbers of channels and elements, and maps."""
    dim, fn = int(rng.choice([2, 3])), str(rng.choice(["Max", "Avg"]))
    kind = str(rng.choice(["spatial", "adaptive", "group", "global"]))
    N, C, H = [(40, 2, 3), (2, 70, 2), (2, 3, 48), (17, 5, 24), (1, 1, 1)][int(rng.integers(5))]
    sp = [int(v) for v in rng.integers(6, 9, size=dim)]
    if N == 1:
        sp = [int(v) for v in (rng.integers(20, 50, size=dim) if dim == 2 else rng.integers(11, 18, size=dim))]
    x = torch.tensor(rng.integers(-90, 0 if rng.random() < 0.4 else 91, size=(N, C, H, *sp)), dtype=torch.float32)
    nd = f"{dim}d"
    if kind == "spatial":
        k = int(rng.integers(1, 4))
        p = int(rng.integers(0, k // 2 + 1))
        mod, so = getattr(gnn, f"G{fn}SpatialPool" + nd)(k, stride=2, padding=p), [(v + 2 * p - k) // 2 + 1 for v in sp]
    elif kind == "adaptive":
        mod, so = getattr(gnn, f"GAdaptive{fn}SpatialPool" + nd)(2), [2] * dim
    else:
        mod, so = getattr(gnn, f"G{fn}{kind.capitalize()}Pool")(), sp if kind == "group" else None
    H_ = torch.rand(H, 2)
    ask = lambda t: mod(t, H_)[0] if kind in ("spatial", "adaptive") else mod(t, H_)
    y = ask(x)
    ps = [tuple(int(rng.integers(v)) for v in (N, C, H)) for _ in range(4)] + [(N - 1, C - 1, H - 1)]
    tol = 1 if fn == "Avg" else 0
    if so is not None and kind != "group":
        part(rec, kind, y, [N, C, H, *so], lambda t, j: t[ps[j]], [ask(x[n:n + 1, c:c + 1, h:h + 1])[0, 0, 0] for n, c, h in ps], tol=tol, fn=fn)
    elif kind == "group":
        part(rec, kind, y, [N, C, *so], lambda t, j: t[ps[j][:2]], [ask(x[n:n + 1, c:c + 1])[0, 0] for n, c, _ in ps], tol=tol, fn=fn)
        if fn == "Max":  # the elements one after another
            z = [torch.stack([ask(x[n:n + 1, c:c + 1, h:h + 1])[0, 0] for h in range(H)]).max(0).values for n, c, _ in ps]
            part(rec, kind + ": elements", y, [N, C, *so], lambda t, j: t[ps[j][:2]], z, tol=0, fn=fn)
    else:
        want = [N, C] + [1] * (y.ndim - 2)
        part(rec, kind, y, want, lambda t, j: t[ps[j][:2]], [ask(x[n:n + 1, c:c + 1])[0, 0] for n, c, _ in ps], tol=tol, fn=fn)

def run(rec, thorough, rng):
    for rep in range(150 if thorough else 30):
        with rec.trace(("large", rep)):
            large(rec, rng)
        for dim in (2, 3):
            for fn in ("max", "avg"):
                for _ in range(2):
                    with rec.trace(("spatial", dim, fn, rep)):
                        spatial(rec, dim, fn, rng)
                with rec.trace(("adaptive", dim, fn, rep)):
                    adaptive(rec, dim, fn, rng)
                with rec.trace(("group", dim, fn, rep)):
                    x, sp = features(dim, rng)
                    call(rec, "group", getattr(gnn, {"max": "GMaxGroupPool", "avg": "GAvgGroupPool"}[fn])(), x, sp, rng, fn=fn)
                with rec.trace(("global", dim, fn, rep)):
                    x, sp = features(dim, rng)
                    call(rec, "global", getattr(gnn, {"max": "GMaxGlobalPool", "avg": "GAvgGlobalPool"}[fn])(), x, sp, rng, fn=fn)
