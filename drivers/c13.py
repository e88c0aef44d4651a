"""C13: the returned group grid is the one the features are defined on."""
import numpy as np
import torch

from lib import gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, LAYER, REFL, set_int_weights
from lib.rec import crc, q, shape

TRACE = "TraceC13"
MODELS = [("MCOutGrid", "MCOutGrid.cfg", "MCOutGrid_thorough.cfg")]
ASSUMPTIONS = ["randomness of the draws is judged by spread and non-repetition over 80 calls per layer type, not by distribution"]


def mats(g, H):
    """Matrices of a list of elements, where it consists of some."""
    H = H.detach().double()
    if g == "SE3":
        return [q(m, 1e4) for m in H.reshape(-1, 9)]
    if g == "E3":
        return [q(m[1:], 1e4) for m in H.reshape(-1, 10)]
    return []


def make(g, f, rng, perm=None):
    k = kern.par(g)
    kw = dict(permute_output_grid=perm, mask=bool(rng.random() < 0.5), bias=bool(rng.random() < 0.5), padding=int(rng.integers(0, 2)))
    if perm is None or (perm and rng.random() < 0.5):
        kw.pop("permute_output_grid")  # on by default
    if rng.random() < 0.5:
        grid = kern.scattered(g, rng)
        gmode = "rbf"
        kw["grid_H"] = kern.tensor(g, grid)
        kw.update(kern.options(g, f, gmode, kern.widths(k, grid, rng), "bilinear", "border"))
        n = (1, 1) if REFL[g] else 1
    else:
        n = (int(rng.choice([1, 2, 3, 4, 12])), int(rng.choice([0, 1, 2, 3, 15]))) if REFL[g] else int(rng.choice([1, 2, 3, 4, 5, 24, 25]))
    groups = int(rng.choice([1, 2]))
    mod = LAYER[(g, f)](groups, groups * 2, 3, group_kernel_size=n, groups=groups, **kw)
    set_int_weights(mod, rng, 3)
    return mod


def program(rec, g, f, h, rng):
    k = kern.par(g)
    perm = bool(rng.random() < 0.7)
    mod = make(g, f, rng, perm)
    mine = [kern.tensor(g, [kern.element(g, rng, bool(rng.random() < 0.3)) for _ in range(int(rng.choice([1, 2, 3, 4, 4, 9, 30])))]) for _ in range(2)]
    mine = [gen.relayout(t, rng, 1) for t in mine]
    ins = kern.tensor(g, [kern.element(g, rng, False) for _ in range(int(rng.choice([1, 2, 3, 3, 12])))])
    rows = lambda t: kern.fixrows(k, kern.rows_of(g, t))
    dflt = lambda: mod.kernel.grid_H
    rec.ev("begin", grp=g, form=f, k=k, refl=REFL[g], deflt=rows(dflt()), mine=[rows(t) for t in mine], ins=rows(ins), perm=perm)
    L = [3] * DIM[g]
    x = torch.tensor(rng.integers(-3, 4, size=(int(rng.integers(1, 3)), mod.in_channels, *(() if f == "lift" else (len(ins),)), *L)), dtype=torch.float32)
    for a in h:
        if a["op"] == "toggle":
            perm = not perm
            mod.permute_output_grid = perm
            rec.ev("toggle")
        elif a["op"] == "edit":
            t = mine[a["i"] - 1]
            with torch.no_grad():
                t.copy_(kern.tensor(g, [kern.element(g, rng, False) for _ in t]))
            rec.ev("edit", r=a["i"], now=rows(t), deflt=rows(dflt()))
        elif a["op"] == "load":
            sd = {n: t.clone() for n, t in mod.state_dict().items()}
            e = kern.element(g, rng, False)
            e[0] = 1.0
            new = kern.tensor(g, [kern.mul(k, e, r) for r in kern.rows_of(g, dflt())])
            sd["kernel.grid_H"] = new
            mod.load_state_dict(sd)
            rec.ev("load", now=rows(dflt()), want=rows(new), mine=[rows(t) for t in mine])
        else:
            req = () if a["i"] == 0 else (mine[a["i"] - 1],)
            every = lambda: crc([x, ins, *mine, *mod.parameters(), *mod.buffers()])
            with torch.no_grad():
                c0 = every()
                args = (*(() if f == "lift" else (ins,)), *req)
                if rng.random() < 0.2 and not req:
                    args += (None,)
                y, H = mod(x, *args)
                c1 = every()
                after = dict(deflt=rows(dflt()), mine=[rows(t) for t in mine], ins=rows(ins))
                mod.permute_output_grid = False
                y2, H2 = mod(x, *(() if f == "lift" else (ins,)), H.clone())
                mod.permute_output_grid = perm
            rec.ev("call", r=a["i"], ret=rows(H), mats=mats(g, H), ret2=rows(H2), y=q(y, 1e3), y2=q(y2, 1e3), so=shape(y), so2=shape(y2), c0=c0, c1=c1, after=after)


def many(rec, g, f, rng, n=80):
    k = kern.par(g)
    mod = LAYER[(g, f)](1, 1, 1, group_kernel_size=(1, 1) if REFL[g] else 1, padding=0)
    one = kern.tensor(g, [kern.element(g, rng, False)])
    x = torch.ones(1, 1, *(() if f == "lift" else (1,)), *(1,) * DIM[g])
    rows = lambda t: kern.fixrows(k, kern.rows_of(g, t))
    ret = []
    with torch.no_grad():
        for _ in range(n):
            ret.append(rows(mod(x, *(() if f == "lift" else (one,)), one)[1])[0])
    rec.ev("many", grp=g, form=f, k=k, refl=REFL[g], base=rows(one)[0], ret=ret)


def run(rec, thorough, rng):
    hs = tlc.simulate("MCOutGrid", "SimOutGrid.cfg", 200 if thorough else 60, 10, int(rng.integers(1, 10**6)))
    hs = gen.some(hs, 400, rng)
    for rep in range(40 if thorough else 8):
        for g in GROUPS:
            for f in FORMS:
                if rep == 0:
                    with rec.trace(("many", g, f)):
                        many(rec, g, f, rng)
                h = hs[int(rng.integers(len(hs)))]
                with rec.trace(("layer", g, f, rep)):
                    program(rec, g, f, h, rng)
