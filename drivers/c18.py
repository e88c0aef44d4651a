"""C18: results of one sample, channel group or call do not leak into another."""
import numpy as np
import torch

import gconv.gnn as gnn
from lib import gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, LAYER, REFL
from lib.rec import crc, q

TRACE = "TraceC18"
MODELS = [("MCCalls", "MCCalls.cfg", "MCCalls_thorough.cfg")]
ASSUMPTIONS = ["equal results are equal to 0.003 plus a two thousandth, since batched kernels round differently"]


def layer(g, f, rng):
    ipg, opg = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    size = (int(rng.integers(1, 4)), int(rng.integers(0, 3))) if REFL[g] else int(rng.integers(1, 5))
    kw = dict(groups=2, mask=bool(rng.random() < 0.5), bias=bool(rng.random() < 0.5), permute_output_grid=False, padding=int(rng.integers(0, 2)),
              stride=int(rng.integers(1, 3)), padding_mode=str(rng.choice(["zeros", "circular", "reflect"])))
    if rng.random() < 0.4:
        grid = kern.scattered(g, rng)
        kw["grid_H"] = kern.tensor(g, grid)
        kw.update(kern.options(g, f, "rbf", kern.widths(kern.par(g), grid, rng), "bilinear", "border"))
    return LAYER[(g, f)](2 * ipg, 2 * opg, 3, group_kernel_size=size, **kw), ipg, opg


def edit(mod, g, opg, rng):
    """New parameters for one channel group."""
    a, b = g * opg, (g + 1) * opg
    with torch.no_grad():
        for n, p in mod.named_parameters():
            grouped = p.ndim == 3 and n.endswith("weight_H") or (n.endswith("kernel.weight") and mod.form == "full")
            t = p[:, a:b] if grouped else p[a:b]
            t.copy_(torch.randn_like(t))


def program(rec, g, h, rng):
    dim = DIM[g]
    f = str(rng.choice(FORMS))
    L = [int(rng.integers(3, 6))] * dim
    mods = []
    for _ in range(2):
        m, ipg, opg = layer(g, f, rng)
        m.form = f
        mods.append((m, ipg, opg))
    els = lambda n: kern.tensor(g, [kern.element(g, rng, bool(rng.random() < 0.3)) for _ in range(n)])
    ni = int(rng.integers(1, 4))
    ins, outs = [els(ni) for _ in range(2)], [els(int(rng.integers(1, 4))) for _ in range(2)]
    other = lambda t: t[torch.tensor(rng.permutation(len(t)))]
    for v in (ins, outs):  # the same elements in another order
        if rng.random() < 0.4:
            v[1] = other(v[0])
    if f != "lift" and rng.random() < 0.3:
        outs[0] = ins[0]  # one list for both
    pool = [[[torch.randn(m[1], *(() if f == "lift" else (ni,)), *L) for _ in range(3)] for _ in range(2)] for m in mods]
    rec.ev("begin", grp=g, form=f, params=[[0, 0], [0, 0]])
    every = lambda x: crc([x, *ins, *outs] + [t for m, _, _ in mods for t in [*m.parameters(), *m.buffers()]])
    batch = lambda l, b: torch.stack([torch.cat([pool[l][0][s[0] - 1], pool[l][1][s[1] - 1]]) for s in b])
    args = lambda x, i, o: (x, outs[o]) if f == "lift" else (x, ins[i], outs[o])
    def call(l, b, i, o, elsewhere):
        m, ipg, opg = mods[l]
        x = batch(l, b)
        if rng.random() < 0.4:
            x = gen.relayout(x, rng, 1)
        for again in (False, True)[:1 + elsewhere]:
            c0 = every(x)
            # the same once more with everything somewhere else
            given = [t.clone() for t in args(x, i, o)] if again else args(x, i, o)
            if rng.random() < 0.6:
                with torch.no_grad():
                    y, _ = m(*given)
            else:
                y, _ = m(*given)
            y = y.detach()
            rec.ev("call", l=l + 1, b=b, i=i + 1 if f != "lift" else 1, o=o + 1, c0=c0, c1=every(x),
                   y=[[q(y[n, k * opg:(k + 1) * opg], 1e4) for k in range(2)] for n in range(len(x))])

    for m, _, _ in mods:
        m.train(bool(rng.random() < 0.5))
    for a in h:
        l = a["l"] - 1
        m, ipg, opg = mods[l]
        if a["op"] == "edit":
            edit(m, a["g"] - 1, opg, rng)
            rec.ev("edit", l=a["l"], g=a["g"])
        elif a["op"] == "relist":  # other contents in place, between two calls
            side, j = l, a["i"] - 1
            l, b = int(rng.integers(2)), [[int(v) for v in rng.integers(1, 4, size=2)]]
            i, o = (int(rng.integers(2)), j) if side else (j, int(rng.integers(2)))
            call(l, b, i, o, False)
            t = (ins, outs)[side][j]
            with torch.no_grad():
                t.copy_(els(len(t)) if rng.random() < 0.7 else other(t))
            rec.ev("relist", of=[[s + 1, n + 1] for s, v in enumerate((ins, outs)) for n, u in enumerate(v) if u is t])
            call(l, b, i, o, True)
        elif a["op"] == "fresh":  # the same contents elsewhere
            for v in (ins, outs):
                v[:] = [t.clone() for t in v]
        elif a["op"] in ("train", "eval"):
            getattr(m, a["op"])()
        elif a["op"] == "call":
            call(l, a["b"], a["i"] - 1, a["o"] - 1, bool(rng.random() < 0.3))
        else:
            x = batch(l, a["b"])
            c0 = every(x)
            if a["op"] == "permuted":
                m.permute_output_grid = True
                y, _ = m(*args(x, 0, 0)[:-1]) if rng.random() < 0.5 else m(*args(x, 0, 0))
                m.permute_output_grid = False
            else:
                x.requires_grad_(True)
                y, _ = m(*args(x, 0, 0))
                y.square().sum().backward()
                m.zero_grad()
            rec.ev("aside", c0=c0, c1=every(x))


def other(rec, h, rng):
    """Samples do not meet in the other modules either (evaluation mode for batch statistics)."""
    dim = int(rng.choice([2, 3]))
    C, Z, L = 2, int(rng.integers(1, 4)), [int(rng.integers(2, 5)) for _ in range(dim)]
    mk = lambda n, *a: getattr(gnn, n)(*a)
    names = [("GReLU",), ("GGELU",), ("GLeakyReLU",), (f"GInstanceNorm{dim}d", C), (f"GBatchNorm{dim}d", C), (f"GMaxSpatialPool{dim}d", 2), (f"GAvgSpatialPool{dim}d", 2),
             (f"GAdaptiveMaxSpatialPool{dim}d", 2), (f"GAdaptiveAvgSpatialPool{dim}d", 2), ("GMaxGroupPool",), ("GAvgGroupPool",), ("GMaxGlobalPool",), ("GAvgGlobalPool",)]
    mods = [mk(*names[int(rng.integers(len(names)))]).eval() for _ in range(2)]
    H = torch.rand(Z, 2)
    pool = [[torch.randn(1, Z, *L) for _ in range(3)] for _ in range(2)]
    rec.ev("begin", grp="", form="other", params=[[0, 0], [0, 0]])
    for a in h:
        if a["op"] not in ("call", "backward"):
            continue
        x = torch.stack([torch.cat([pool[0][s[0] - 1], pool[1][s[1] - 1]]) for s in a["b"]])
        if rng.random() < 0.4:
            x = gen.relayout(x, rng, 1)
        every = lambda: crc([x, H] + [t for m in mods for t in [*m.parameters(), *m.buffers()]])
        c0 = every()
        y = mods[a["l"] - 1](x, H)
        y = (y if isinstance(y, torch.Tensor) else y[0]).detach()
        rec.ev("call", l=a["l"], b=a["b"], i=1, o=1, c0=c0, c1=every(), y=[[q(y[n, k], 1e4) for k in range(2)] for n in range(len(x))])


def run(rec, thorough, rng):
    hs = tlc.simulate("MCCalls", "SimCalls.cfg", 600 if thorough else 150, 15, int(rng.integers(1, 10**6)))
    for rep in range(100 if thorough else 20):
        for g in GROUPS:
            with rec.trace(("calls", g, rep)):
                program(rec, g, hs[int(rng.integers(len(hs)))], rng)
        with rec.trace(("other", rep)):
            other(rec, hs[int(rng.integers(len(hs)))], rng)
