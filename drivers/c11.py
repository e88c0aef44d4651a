"""C11: layers compute the group convolution with the declared geometry."""
import numpy as np
import torch
from torch import nn

from lib import gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, LAYER, REFL, set_int_weights, unpermuted
from lib.parts import part
from lib.rec import crc, q, shape
from gconv.gnn.kernels import GroupKernel
from gconv.gnn.modules import gconv as base

TRACE = "TraceC11"
MODELS = [("MCConv", "MCConv.cfg", "MCConv_thorough.cfg")]
ASSUMPTIONS = ["most cases have integer kernels, inputs and biases and are compared exactly; for other elements kernels are taken to three decimals"]
BASE = {("lift", 2): base.GLiftingConv2d, ("lift", 3): base.GLiftingConv3d, ("sep", 2): base.GSeparableConv2d, ("sep", 3): base.GSeparableConv3d,
        ("full", 2): base.GConv2d, ("full", 3): base.GConv3d}


def nest(t, dims, scale=1):
    return q(t, scale) if dims == 0 else [nest(x, dims - 1, scale) for x in t]


class Given(GroupKernel):
    """A kernel that is given rather than sampled."""

    def __init__(self, ci, co, ks, groups, K):
        super().__init__(ci, co, ks, (2,), groups)
        self.K = K
        self.weight = nn.Parameter(K[0] if isinstance(K, tuple) else K)

    def forward(self, *H):
        return self.K


def geometry(pool, dim, rng, same_k):
    """Axes from the legal geometries the specification came up with."""
    for _ in range(200):
        g = pool[int(rng.integers(len(pool)))]
        axes = [g]
        for _ in range(dim - 1):
            c = [x for x in pool if x["mode"] == g["mode"] and x["pad"] == g["pad"] and (not same_k or x["k"] == g["k"])]
            axes.append(c[int(rng.integers(len(c)))] if rng.random() < 0.8 else g)
        if dim == 3 and max(np.prod([a["L"] for a in axes]), np.prod([a["k"] for a in axes])) > 90:
            continue
        return axes
    return [g] * dim


def declared(axes, rng):
    """Constructor arguments: single numbers where the axes agree, sometimes."""
    def arg(name):
        v = tuple(a[name] for a in axes)
        return v[0] if len(set(v)) == 1 and rng.random() < 0.7 else v
    pad = arg("amount") if axes[0]["pad"] == "amount" else axes[0]["pad"]
    return dict(stride=arg("s"), dilation=arg("d"), padding=pad, padding_mode=axes[0]["mode"])


def outcells(axes):
    n = 1
    for a in axes:
        p = 2 * a["amount"] if a["pad"] == "amount" else (a["d"] * (a["k"] - 1) if a["pad"] == "same" else 0)
        n *= (a["L"] + p - a["d"] * (a["k"] - 1) - 1) // a["s"] + 1
    return n


def cost(axes, f, N, co, no, ipg, ni):
    kc = int(np.prod([a["k"] for a in axes]))
    return N * co * no * outcells(axes) * (kc if f == "sep" else kc * ipg * ni)


def record(rec, f, axes, groups, ci, co, ni, no, sc, x, K, b, y, he, ho, c0, c1, tag):
    dim = len(axes)
    e = dict(K=nest(K[0].flatten(4), 4, sc) if f == "sep" else nest(K, 3 if f == "lift" else 4, sc), KS=nest(K[1], 2, sc) if f == "sep" else [])
    if f == "sep":
        e["K"] = [[[[v[0] for v in i] for i in o] for o in c] for c in e["K"]]
    rec.ev("layer", form=f, tag=tag, axes=[{k: a[k] for k in ("L", "k", "s", "d", "amount")} for a in axes], pad=axes[0]["pad"], mode=axes[0]["mode"],
           groups=groups, nin=ci, nout=co, ni=ni, no=no, sc=sc, x=nest(x, 3) if f != "lift" else [[[c] for c in n] for n in nest(x, 2)],
           b=q(b, sc) if b is not None else [0] * co, y=nest(y, 3, sc), so=shape(y), he=he, ho=ho, c0=c0, c1=c1, **e)


def layer(rec, g, f, pool, rng, budget):
    dim, k = DIM[g], kern.par(g)
    while True:
        groups = int(rng.choice([1, 1, 2, 3]))
        ipg, opg = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        N, no, ni = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 4)) if f != "lift" else 1
        axes = geometry(pool, dim, rng, True)
        if dim == 3:
            groups, N = min(groups, 2), 1
        if cost(axes, f, N, opg * groups, no, ipg, ni) <= budget:
            break
    ci, co, n = groups * ipg, groups * opg, axes[0]["k"]
    exact = rng.random() < 0.7
    grid = kern.closed(g, rng) if exact else kern.scattered(g, rng)
    gmode = "rbf" if rng.random() < 0.5 else "nearest"
    kw = dict(groups=groups, mask=bool(rng.random() < 0.5), grid_H=kern.tensor(g, grid), bias=bool(rng.random() < 0.7), permute_output_grid=False,
              **declared(axes, rng), **kern.options(g, f, gmode, kern.widths(k, grid, rng), "nearest" if exact and n > 3 else "bilinear", "border"))
    mod = LAYER[(g, f)](ci, co, n, group_kernel_size=(1, 1) if REFL[g] else 1, **kw)
    set_int_weights(mod, rng, 3)
    h = kern.element(g, rng, True)
    pick = lambda m: [kern.mul(k, h, grid[int(i)]) for i in rng.integers(0, len(grid), size=m)]
    default = rng.random() < 0.25
    ins = pick(ni) if exact else [kern.element(g, rng, False) for _ in range(ni)]
    I = kern.tensor(g, ins)
    if default:  # the layer's own choice of output elements
        O = mod.kernel.grid_H.clone() if f == "lift" or REFL[g] else I
        if len(O) * 4 > 12 and cost(axes, f, N, co, len(O), ipg, ni) > 3 * budget:
            default = False
    if not default:
        O = kern.tensor(g, pick(no) if exact else [kern.element(g, rng, False) for _ in range(no)])
        if f != "lift" and no == ni and rng.random() < 0.5:
            O = I  # one list for both
    sp = tuple(a["L"] for a in axes)
    x = torch.tensor(rng.integers(-3, 4, size=(N, ci, *sp) if f == "lift" else (N, ci, ni, *sp)), dtype=torch.float32)
    every = lambda: crc([x, O, I] + list(mod.parameters()) + list(mod.buffers()))
    with torch.no_grad():
        K = mod.kernel(O) if f == "lift" else mod.kernel(I, O)
        c0 = every()
        args = (() if default else (O,)) if f == "lift" else ((I,) if default else (I, O))
        y, H = mod(x, *args)
        c1 = every()
    near = [round(v) for v in K[0].flatten().tolist() + K[1].flatten().tolist()] if f == "sep" else [round(v) for v in K.flatten().tolist()]
    flat = K[0].flatten().tolist() + K[1].flatten().tolist() if f == "sep" else K.flatten().tolist()
    sc = 1 if all(abs(a - b) < 1e-4 for a, b in zip(near, flat)) else 1000
    record(rec, f, axes, groups, ci, co, ni, len(O), sc, x, K, mod.bias, y, crc(O), crc(H), c0, c1, g)


def given(rec, f, dim, pool, rng, budget):
    while True:
        groups = int(rng.choice([1, 1, 2, 3]))
        ipg, opg = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        N, no, ni = int(rng.integers(1, 3)), int(rng.integers(1, 5)), int(rng.integers(1, 5)) if f != "lift" else 1
        axes = geometry(pool, dim, rng, False)
        if cost(axes, f, N, opg * groups, no, ipg, ni) <= budget:
            break
    ci, co = groups * ipg, groups * opg
    ks = tuple(a["k"] for a in axes)
    I = lambda *s: torch.tensor(rng.integers(-3, 4, size=s), dtype=torch.float32)
    K = {"lift": lambda: I(co, no, ipg, *ks), "sep": lambda: (I(co, no, ipg, ni, *(1,) * dim), I(co, no, 1, *ks)), "full": lambda: I(co, no, ipg, ni, *ks)}[f]()
    mod = BASE[(f, dim)](ci, co, ks, 2, Given(ci, co, ks, groups, K), groups=groups, bias=bool(rng.random() < 0.7), **declared(axes, rng))
    if mod.bias is not None:
        with torch.no_grad():
            mod.bias.copy_(torch.tensor(rng.integers(-9, 10, size=tuple(mod.bias.shape)), dtype=torch.float32))
    mod.train(bool(rng.random() < 0.6))
    sp = tuple(a["L"] for a in axes)
    x = I(N, ci, *sp) if f == "lift" else I(N, ci, ni, *sp)
    Hi, Ho = torch.rand(ni, 2), torch.rand(no, 2)
    x = gen.relayout(x, rng, 1)
    c0 = crc([x, Hi, Ho])
    with torch.no_grad():
        y, H = mod(x, Ho) if f == "lift" else mod(x, Hi, Ho)
    record(rec, f, axes, groups, ci, co, ni, no, 1, x, K, mod.bias, y, crc(Ho), crc(H), c0, crc([x, Hi, Ho]), "given")


def large(rec, g, f, rng):
    """Large batches, maps, lists of elements and numbers of channels."""
    dim, k = DIM[g], kern.par(g)
    N, no, ni, ci, co = 2, 2, 2, 2, 2
    which = str(rng.choice(["batch", "elements", "channels", "map"]))
    groups = int(rng.choice([1, 2]))
    L = [int(rng.integers(4, 7)) for _ in range(dim)]
    if which == "batch":
        N = int(rng.choice([9, 17, 40, 70]))
    elif which == "elements":
        no, ni = int(rng.choice([7, 16, 30])), int(rng.choice([5, 12, 24]))
    elif which == "channels":
        ci, co = int(rng.choice([12, 48])), int(rng.choice([16, 36]))
        groups = int(rng.choice([1, 2, 4]))
    else:
        L = [int(rng.integers(17, 40)) if dim == 2 else int(rng.integers(9, 15)) for _ in range(dim)]
    ni = 1 if f == "lift" else ni
    s, d, p = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(0, 2))
    n = int(rng.choice([1, 2, 3] if dim == 2 else [1, 2]))
    if which == "map":
        p = 0
    if (n - 1) * d + 1 > min(L) + 2 * p:
        d = 1
    mod = LAYER[(g, f)](ci, co, n, group_kernel_size=(2, 2) if REFL[g] else 4, groups=groups, stride=s, dilation=d, padding=p, permute_output_grid=False,
                        bias=bool(rng.random() < 0.7))
    set_int_weights(mod, rng, 2)
    mod.eval() if rng.random() < 0.5 else mod.train()
    I, O = kern.tensor(g, [kern.element(g, rng, False) for _ in range(ni)]), kern.tensor(g, [kern.element(g, rng, False) for _ in range(no)])
    x = torch.tensor(rng.integers(-2, 3, size=(N, ci, *(() if f == "lift" else (ni,)), *L)), dtype=torch.float32)
    ask = lambda t, o: mod(t, o)[0] if f == "lift" else mod(t, I, o)[0]
    r = n + (n - 1) * (d - 1)
    so = [(v + 2 * p - r) // s + 1 for v in L]
    with torch.no_grad():
        y = ask(x, O)
        want = [N, co, no, *so]
        P = gen.few(N, rng, 3)
        part(rec, which + ": samples", y, want, lambda t, j: t[P[j]], [ask(x[j:j + 1], O)[0] for j in P], tol=25, grp=g, form=f)
        Q = gen.few(no, rng, 3)
        part(rec, which + ": elements", y, want, lambda t, j: t[:, :, Q[j]], [ask(x, O[j:j + 1])[:, :, 0] for j in Q], tol=25, grp=g, form=f)
        if which == "map":
            starts = [[int(rng.integers(v)) for v in so] for _ in range(4)] + [[v - 1 for v in so], [0] * dim]
            crop = lambda a: x[(slice(None),) * (x.ndim - dim) + tuple(slice(v * s, v * s + r) for v in a)]
            pick = lambda t, j: t[(slice(None),) * 3 + tuple(starts[j])]
            part(rec, "map: cells", y, want, pick, [ask(crop(a), O).reshape(N, co, no) for a in starts], tol=25, grp=g, form=f)
        if which == "channels":  # additive in the input channels
            zero = lambda c: torch.where((torch.arange(ci) % 3 == c).reshape(1, -1, *[1] * (x.ndim - 2)), x, torch.zeros(()))
            b = ask(torch.zeros_like(x), O)
            part(rec, "channels: sum", y, want, lambda t, j: t, [sum(ask(zero(c), O) - b for c in range(3)) + b], tol=60, grp=g, form=f)

def run(rec, thorough, rng):
    hs = tlc.simulate("MCConv", "SimConv.cfg", 60 if thorough else 30, 26, int(rng.integers(1, 10**6)))
    pool = [g for h in gen.some(hs, 200, rng) for g in h]
    budget = 60000 if thorough else 25000
    for rep in range(60 if thorough else 20):
        for g in GROUPS:
            for f in FORMS:
                with rec.trace(("layer", g, f, rep)):
                    layer(rec, g, f, pool, rng, budget)
        if rep % 2 == 0:
            for g in GROUPS:
                for f in FORMS:
                    with rec.trace(("large", g, f, rep)):
                        large(rec, g, f, rng)
        for dim in (2, 3):
            for f in FORMS:
                for _ in range(2):
                    with rec.trace(("given", f, dim, rep)):
                        given(rec, f, dim, pool, rng, budget)
