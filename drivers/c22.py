"""C22: gradients of the input, each weight and the bias."""
import numpy as np
import torch

from gconv.geometry import o2, so2, so3
from gconv.geometry.groups import o3
from gconv.geometry import interpolation
from lib import gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, REFL
from lib.rec import attempt, q, shape
from drivers import c11, c16, c21
from drivers.c11 import BASE, Given, cost, declared, geometry, nest

TRACE = "TraceC22"
MODELS = [("MCGradient", "MCGradient.cfg", "MCGradient_thorough.cfg")]
ASSUMPTIONS = ["networks with activations or pooling are differentiable at the recorded points, except for kinks on one side",
               "double precision, except for layers that permute three-dimensional output grids"]
E16 = dict(dim=0, refl=False, C=0)


def reached(rec, t, what):
    """Which tensors received a gradient."""
    rec.ev("reach", what=what, names=[n for n, _ in t], present=[v.grad is not None for _, v in t], shapes=[shape(v) for _, v in t],
           got=[shape(v.grad) if v.grad is not None else [-1] for _, v in t],
           finite=[v.grad is not None and bool(torch.isfinite(v.grad).all()) for _, v in t])


# -- the convolution formula ------------------------------------------------------------
def adjoint(rec, f, dim, pool, rng, budget):
    while True:
        groups = int(rng.choice([1, 1, 2, 3]))
        ipg, opg = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        N, no, ni = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 4)) if f != "lift" else 1
        axes = geometry(pool, dim, rng, False)
        if cost(axes, f, N, opg * groups, no, ipg, ni) <= budget:
            break
    ci, co = groups * ipg, groups * opg
    ks = tuple(a["k"] for a in axes)
    dt = torch.float64 if rng.random() < 0.3 else torch.float32
    I = lambda *s: torch.tensor(rng.integers(-3, 4, size=s), dtype=dt)
    K = {"lift": lambda: (I(co, no, ipg, *ks),), "sep": lambda: (I(co, no, ipg, ni, *(1,) * dim), I(co, no, 1, *ks)), "full": lambda: (I(co, no, ipg, ni, *ks),)}[f]()
    for k in K:
        k.requires_grad_(True)
    mod = BASE[(f, dim)](ci, co, ks, 2, Given(ci, co, ks, groups, K if f == "sep" else K[0]), groups=groups, bias=bool(rng.random() < 0.8), **declared(axes, rng)).to(dt)
    sp = tuple(a["L"] for a in axes)
    x = gen.relayout(I(N, ci, *sp) if f == "lift" else I(N, ci, ni, *sp), rng, 1).detach().requires_grad_(True)
    Hi, Ho = torch.rand(ni, 2, dtype=dt), torch.rand(no, 2, dtype=dt)
    y, _ = mod(x, Ho) if f == "lift" else mod(x, Hi, Ho)
    c = I(*y.shape)
    if rng.random() < 0.3:  # only some outputs matter
        c = c * (torch.rand(c.shape) < 0.1)
    y.backward(c)
    named = [("x", x)] + [(f"K{i}", k) for i, k in enumerate(K)] + ([("bias", mod.bias)] if mod.bias is not None else [])
    reached(rec, named, f)
    if any(v.grad is None for _, v in named):
        return
    N3 = lambda t: nest(t, 3) if f != "lift" else [[[v] for v in n] for n in nest(t, 2)]
    def NK(t):
        if f == "sep":
            return [[[[v[0] for v in i] for i in o] for o in c] for c in nest(t.flatten(4), 4)]
        return nest(t, 3 if f == "lift" else 4)
    rec.ev("adjoint", form=f, axes=[{k: a[k] for k in ("L", "k", "s", "d", "amount")} for a in axes], pad=axes[0]["pad"], mode=axes[0]["mode"],
           groups=groups, nin=ci, nout=co, ni=ni, no=no, x=N3(x.detach()), K=NK(K[0].detach()), KS=nest(K[1].detach()[:, :, 0], 2) if f == "sep" else [],
           c=nest(c, 3), gx=N3(x.grad), gK=NK(K[0].grad), gKS=nest(K[1].grad[:, :, 0], 2) if f == "sep" else [],
           hasb=mod.bias is not None, gb=q(mod.bias.grad, 1) if mod.bias is not None else [])


# -- sampling of the weights --------------------------------------------------------------
def pulled(rec, c, rng):
    f = c["form"]
    K, ops, known, (O, I, ref, grn, mask), (ci, co, ks, groups, no, ni, ipg, dt) = c21.build(c, rng)
    for p in K.parameters():
        c21.weights(p, rng)
    r = K(O) if f == "lift" else K(I, O)
    r = r if f == "sep" else (r,)
    ds = [torch.tensor(rng.integers(-2, 3, tuple(t.shape)) * 4, dtype=dt) for t in r]
    torch.autograd.backward(r, ds)
    named = list(K.named_parameters())
    reached(rec, named, f)
    if any(v.grad is None for _, v in named):
        return
    D = len(ks)
    e = dict(known, dH=[], d=[], gH=[], gw=[], gS=[])
    if f == "lift":
        e.update(d=c21.cells(ds[0], D), gw=c21.cells(K.weight.grad, D))
    elif f == "sep":
        e.update(dH=nest(ds[0].reshape(co, no, ipg, ni), 3), d=[[x for x in y] for y in c21.cells(ds[1][:, :, 0], D)], gH=[q(v, 1) for v in K.weight_H.grad],
                 gS=[v[0] for v in c21.cells(K.weight.grad, D)])
    elif f == "sub":
        e.update(dH=nest(ds[0].reshape(co, no, ipg, ni), 3), gH=[q(v, 1) for v in K.weight.grad])
    else:
        e.update(d=c21.cells(ds[0], D), gw=[q(v, 1) for v in K.weight.grad])
    rec.ev("pulled", **e)


# -- slopes ---------------------------------------------------------------------------------
def slope(rec, kind, named, loss, rng, tag, double=True):
    """loss() is a number that depends on the named tensors; recorded is what a small or large
    step changes against what the gradient predicts."""
    for _, v in named:
        v.grad = None
    l0, mag = loss()
    ok, err = attempt(l0.backward)
    if not ok:
        rec.ev("backward", error=err, tag=tag)
        return
    reached(rec, named, tag)
    l0 = float(l0)
    for n, v in named:
        if v.grad is None:
            continue
        g = v.grad.detach().double()
        d = torch.tensor(rng.normal(size=tuple(v.shape)), dtype=v.dtype)
        r = rng.random()
        if kind != "smooth" and r < 0.2:
            d = -v.detach().clone()
        elif kind != "smooth" and r < 0.4:  # one entry
            d = d * (torch.arange(d.numel()) == int(rng.integers(d.numel()))).reshape(d.shape)
        elif r < 0.5:
            d = d * (1 + 3 * (torch.rand(d.shape) < 0.2)).to(d.dtype)
        t0 = v.detach().clone()
        dot = float((g * d.double()).sum())
        fs = []
        for step in (3e-7, 3e-6, 3e-5) if kind == "smooth" else (1.0,):
            ls = []
            with torch.no_grad():
                for s in (step, -step):
                    v.copy_(t0 + s * d)
                    ls.append(float(loss()[0]))
                v.copy_(t0)
            fs.append(((ls[0] - l0) / step, (l0 - ls[1]) / step, (ls[0] - ls[1]) / (2 * step)))
        fs = [f if kind != "square" else (0.0, 0.0, f[2]) for f in fs]
        m = max([abs(dot)] + [abs(x) for x in fs[0]] + [1e-2 if kind == "smooth" else mag * (1e-4 if double else 1) + 1e-9])
        if not np.isfinite(m):
            m = 1.0
        z = lambda x: q([x], 1e6 / m, 4e8)[0]
        rec.ev("slope", kind=kind, what=n, tag=tag, double=double, dot=z(dot), fp=[z(f[0]) for f in fs], fm=[z(f[1]) for f in fs], mean=[z(f[2]) for f in fs])


def elements(g, n, rng, dt, reflect=0.3):
    return kern.tensor(g, [kern.element(g, rng, bool(rng.random() < reflect)) for _ in range(n)]).to(dt)


def randomly(mod, rng):
    with torch.no_grad():
        for p in mod.parameters():
            p.copy_(torch.tensor(rng.normal(size=tuple(p.shape))))


def layer(rec, g, f, rng):
    D = DIM[g]
    double = D == 2 or rng.random() < 0.7
    dt = torch.float64 if double else torch.float32
    groups = int(rng.choice([1, 1, 2]))
    pad = str(rng.choice(["amount", "same", "valid"]))
    m = dict(op=f, k=int(rng.choice([1, 2, 3, 3, 5] if D == 2 else [1, 2, 3])), s=1 if pad == "same" else int(rng.integers(1, 3)), d=int(rng.integers(1, 3)), pad=pad, p=int(rng.integers(0, 3)),
             mode=str(rng.choice(["zeros", "replicate", "circular", "reflect"])), groups=groups, co=groups * int(rng.integers(1, 3)), no=int(rng.integers(0, 4)),
             nr=int(rng.integers(1, 5)), nf=int(rng.integers(1, 4)))
    fm = dict(dim=D, refl=REFL[g], C=groups * int(rng.integers(1, 3)))
    mod = c16.module(g, fm, m, rng)
    if double and D == 3:
        mod.permute_output_grid = False
    mod = mod.to(dt)
    randomly(mod, rng)
    if rng.random() < 0.3:
        mod.eval()
    L = [int(rng.integers(m["d"] * (m["k"] - 1) + 1, m["d"] * (m["k"] - 1) + 4)) for _ in range(D)]
    if m["mode"] in ("reflect", "circular"):
        L = [max(v, m["d"] * m["k"] + 1, 4) for v in L]
    ni = int(rng.integers(1, 4))
    x = torch.tensor(rng.normal(size=(int(rng.integers(1, 3)), fm["C"], *(() if f == "lift" else (ni,)), *L)), dtype=dt)
    x = gen.relayout(x, rng, 1).detach().requires_grad_(True)
    more = (elements(g, m["no"], rng, dt),) if m["no"] else ()
    args = more if f == "lift" else (elements(g, ni, rng, dt), *more)
    seed = int(rng.integers(1, 10**6))
    kind = str(rng.choice(["linear", "square"]))
    with torch.no_grad():
        torch.manual_seed(seed)
        y, H = mod(x, *args)
    c = torch.tensor(rng.normal(size=tuple(y.shape)))
    if rng.random() < 0.3:
        c = c * (torch.rand(c.shape) < 0.1)

    def loss():
        torch.manual_seed(seed)
        z = mod(x, *args)[0].double()
        z = c * z if kind == "linear" else 0.5 * c * z * z
        return z.sum(), float(z.abs().sum())

    slope(rec, kind, [("x", x)] + list(mod.named_parameters()), loss, rng, g + " " + f, double)
    rec.ev("still", tag=g, grads=[b.requires_grad for b in mod.buffers()] + [H.requires_grad] + [a.requires_grad for a in args])


def sampler(rec, which, rng):
    dt = torch.float64 if rng.random() < 0.7 else torch.float32
    n, S = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    L = int(rng.integers(3, 6)) if which == "bcc" else int(rng.integers(1, 6))
    mode = str(rng.choice(["rbf", "nearest"]))
    if which in ("so2", "so3"):
        g = "SE2" if which == "so2" else "SE3"
        G = elements(g, n, rng, dt)
        R = kern.tensor(g, [np.concatenate(([1.0], r)) for r in kern.spread(kern.par(g), L, rng)]).to(dt)
        sig = torch.tensor(rng.normal(size=(L, S)), dtype=dt)
        fn = lambda: {"so2": so2, "so3": so3}[which].grid_sample(G, sig, R, mode=mode, width=0.6)
    elif which in ("o2", "o3"):
        g = "E2" if which == "o2" else "E3"
        nf = int(rng.integers(1, 4))
        G = elements(g, n, rng, dt, 0.5)
        R = kern.tensor(g, [np.concatenate(([1.0], r)) for r in kern.spread(kern.par(g), L, rng)] +
                        [np.concatenate(([-1.0], r)) for r in kern.spread(kern.par(g), nf, rng)]).to(dt)
        sig = torch.tensor(rng.normal(size=(L + nf, S)), dtype=dt)
        fn = lambda: {"o2": o2, "o3": o3}[which].grid_sample(G, sig, R, (L, nf), mode=mode, rotation_width=0.6, reflection_width=0.5)
    else:
        B = int(rng.integers(1, 4))
        pts = lambda k: torch.nn.functional.normalize(torch.tensor(rng.normal(size=(B, k, 3)), dtype=dt), dim=-1)
        G, R = pts(n), pts(L)
        sig = torch.tensor(rng.normal(size=(B, L, S if which != "nn" else S)), dtype=dt)
        d = lambda a, b: (a - b).norm(dim=-1) if which == "bcc" else (a - b).norm(dim=-1)
        if which == "bcc":
            d = lambda a, b: (a * b).sum(-1).clamp(-1, 1).acos()
        d2 = {"rbf": lambda a, b: (a - b).square().sum(-1).clamp(min=1e-12).sqrt(), "nn": d, "bcc": d}[which]
        fn = {"rbf": lambda: interpolation.interpolate_RBF(G, R, sig, dist_fn=d2, width=0.6), "nn": lambda: interpolation.interpolate_NN(G, R, sig, dist_fn=d2),
              "bcc": lambda: interpolation.interpolate_BCC(G, R, sig, dist_fn=d2)}[which]
    sig.requires_grad_(True)
    with torch.no_grad():
        c = torch.tensor(rng.normal(size=tuple(fn().shape)))
    def loss():
        z = c * fn().double()
        return z.sum(), float(z.abs().sum())
    slope(rec, "linear", [("signal", sig)], loss, rng, which, dt == torch.float64)


ACT = ("GReLU", "GLeakyReLU")


def network(rec, h, rng):
    f0, mods = h[0], h[1:]
    g = {(2, False): "SE2", (2, True): "E2", (3, False): "SE3", (3, True): "E3"}[(f0["dim"], f0["refl"])]
    f = dict(f0)
    seed = int(rng.integers(1, 10**6))
    x0 = torch.tensor(rng.normal(size=(f["N"], f["C"], *f["sp"]))).requires_grad_(True)
    net, extra, kinks = [], [], []

    def forward():
        torch.manual_seed(seed)
        kinks.clear()
        x, H = x0, None
        for m, mod, more in net:
            if m["op"] in ACT:
                kinks.append(float(x.detach().abs()[x.detach() != 0].min()) if bool((x != 0).any()) else 1.0)
            if m["op"] in ("lift", "sep", "full"):
                r = mod(x, *more) if m["op"] == "lift" else mod(x, H, *more)
            else:
                r = mod(x, H)
            x, H = (r, None) if isinstance(r, torch.Tensor) else r
        return x

    for m in mods:
        mod = c16.module(g, f, m, rng)
        more = ()
        if m["op"] in ("lift", "sep", "full"):
            if f["dim"] == 3:
                mod.permute_output_grid = False
            if m["no"] > 0:
                more = (elements(g, m["no"], rng, torch.float64),)
        mod = mod.double()
        with torch.no_grad():
            for n, p in mod.named_parameters():
                if n == "bias" or m["op"] not in ("lift", "sep", "full"):
                    p.copy_(torch.tensor(rng.normal(size=tuple(p.shape))))
        if m["op"] == "GBatchNorm" and rng.random() < 0.5:
            mod.eval()
        net.append((m, mod, more))
        with torch.no_grad():
            s = shape(forward())
        lifted = len(s) == 3 + f["dim"] and m["op"] not in ("GMaxGroupPool", "GAvgGroupPool")
        f = dict(f, C=s[1], H=s[2] if lifted else 0, sp=s[3:] if lifted else s[2:])
    with torch.no_grad():
        y = forward()
    c = torch.tensor(rng.normal(size=tuple(y.shape)))

    def loss():
        z = c * forward()
        return z.sum(), float(z.abs().sum())

    if kinks and min(kinks) < 1e-5:
        return
    named = [("x", x0)] + [(f"{i}.{m['op']}.{n}", p) for i, (m, mod, _) in enumerate(net) for n, p in mod.named_parameters()]
    slope(rec, "smooth", named, loss, rng, " ".join(m["op"] for m in mods))


def run(rec, thorough, rng):
    hs = tlc.simulate("MCConv", "SimConv.cfg", 60 if thorough else 30, 26, int(rng.integers(1, 10**6)))
    pool = [a for h in gen.some(hs, 200, rng) for a in h]
    for rep in range(80 if thorough else 16):
        for dim in (2, 3):
            for f in FORMS:
                with rec.trace(("adjoint", f, dim, rep)):
                    adjoint(rec, f, dim, pool, rng, 8000)
    for i, c in enumerate(tlc.simulate("MCCustom", "SimCustom.cfg", 600 if thorough else 120, 14, int(rng.integers(1, 10**6)))):
        with rec.trace(("pulled", i)):
            pulled(rec, c, rng)
    for rep in range(60 if thorough else 12):
        for g in GROUPS:
            for f in FORMS:
                with rec.trace(("layer", g, f, rep)):
                    layer(rec, g, f, rng)
        for w in ("so2", "so3", "o2", "o3", "rbf", "nn", "bcc"):
            with rec.trace(("sampler", w, rep)):
                sampler(rec, w, rng)
    for h in tlc.simulate("MCPipeline", "SimPipeline.cfg", 800 if thorough else 120, 11, int(rng.integers(1, 10**6))):
        with rec.trace(("network", h[0]["dim"], h[0]["refl"], [m["op"] for m in h[1:]])):
            network(rec, h, rng)
