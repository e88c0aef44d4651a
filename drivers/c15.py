"""C15: normalisation, activation and wrapped modules respect the group structure."""
import numpy as np
import torch
from torch import nn

import gconv.gnn as gnn
from lib import gen, tlc
from lib.parts import part
from lib.rec import crc, q, shape

TRACE = "TraceC15"
MODELS = [("MCNorm", "MCNorm.cfg", "MCNorm_thorough.cfg")]
ASSUMPTIONS = ["inputs are integers; results are compared to about three decimals"]


def nest(t, dims, scale=1):
    return q(t, scale) if dims == 0 else [nest(x, dims - 1, scale) for x in t]


def features(dim, rng, lead=None, lim=5, atmost=60, atleast=2):
    """N, C, elements and cells such that a channel has at most 60 entries."""
    while True:
        N, C, Z = lead or [int(v) for v in rng.integers(1, 4, size=3)]
        if not lead:
            Z = int(rng.integers(1, 6))
        sp = [int(v) for v in rng.integers(1, 5 if dim == 2 else 4, size=dim)]
        n = Z * int(np.prod(sp))
        if atleast <= n and N * n <= atmost:
            break
    x = torch.tensor(rng.integers(-lim, lim + 1, size=(N, C, Z, *sp)), dtype=torch.float32)
    return gen.relayout(x, rng, 1) if rng.random() < 0.6 else x


def grid(x, rng):
    return torch.rand(x.shape[2], int(rng.integers(1, 4)))


def norm(rec, kind, dim, h, rng):
    C = int(rng.integers(1, 4))
    kw = {}
    eps = int(rng.choice([1, 1, 1000, 25000]))
    if eps != 1:
        kw["eps"] = eps / 1e5
    affine = kind == "batch"
    if rng.random() < 0.4:
        kw["affine"] = affine = bool(rng.random() < 0.5)
    track = kind == "batch"
    if rng.random() < 0.4:
        kw["track_running_stats"] = track = bool(rng.random() < 0.6)
    mom = [1, 10]
    if track and rng.random() < 0.4:
        if kind == "batch" and rng.random() < 0.4:
            kw["momentum"], mom = None, []
        else:
            a = int(rng.integers(1, 10))
            kw["momentum"], mom = a / 10, [a, 10]
    mod = getattr(gnn, ("GBatchNorm" if kind == "batch" else "GInstanceNorm") + f"{dim}d")(C, **kw)
    w, b = [1] * C, [0] * C
    with torch.no_grad():
        if affine:
            w, b = [int(v) for v in rng.integers(-3, 4, size=C)], [int(v) for v in rng.integers(-3, 4, size=C)]
            mod.weight.copy_(torch.tensor(w))
            mod.bias.copy_(torch.tensor(b))
        if track and rng.random() < 0.6:
            mod.running_mean.copy_(torch.tensor(rng.integers(-16, 17, size=C) / 8))
            mod.running_var.copy_(torch.tensor(rng.integers(2, 40, size=C) / 8))
    stats = lambda: dict(rm=q(mod.running_mean, 1e4) if track else [0] * C, rv=q(mod.running_var, 1e4) if track else [0] * C)
    rec.ev("begin", kind=kind, dim=dim, track=track, eps=eps, mom=mom, w=w, b=b, **stats())
    for a in h:
        if a in ("train", "eval"):
            getattr(mod, a)()
            rec.ev(a)
            continue
        x = features(dim, rng, [int(rng.integers(1, 4)), C, int(rng.integers(1, 6))], atleast=2)
        H = grid(x, rng)
        h0, c0, X = crc(H), crc(x), nest(x, 2)
        with torch.no_grad():
            y, H1 = mod(x, H)
        rec.ev("call", x=X, y=nest(y, 2, 1e3), si=shape(x), so=shape(y), h0=h0, h1=crc(H1), c0=c0, c1=crc(x), **stats())


def layernorm(rec, dim, rng):
    d = int(rng.integers(1, dim + 3))
    while True:
        x = features(dim, rng, atmost=100)
        n = int(np.prod(x.shape[-d:]))
        if n <= 60:
            break
    ns = [int(v) for v in x.shape[-d:]]
    eps = int(rng.choice([1, 1, 1000, 25000]))
    kw = {"eps": eps / 1e5} if eps != 1 else {}
    if d == 1 and rng.random() < 0.5:
        ns = ns[0]
    affine = rng.random() < 0.7
    mod = gnn.GLayerNorm(ns, **kw) if affine else gnn.GLayerNorm(ns, elementwise_affine=False, **kw)
    w, b = [1] * n, [0] * n
    with torch.no_grad():
        if affine:
            mod.weight.copy_(torch.tensor(rng.integers(-3, 4, size=tuple(mod.weight.shape))))
            mod.bias.copy_(torch.tensor(rng.integers(-3, 4, size=tuple(mod.bias.shape))))
            w, b = q(mod.weight, 1), q(mod.bias, 1)
        if rng.random() < 0.3:
            mod.eval()
        H = grid(x, rng)
        h0, c0 = crc(H), crc(x)
        y, H1 = mod(x, H)
    blocks = lambda t, s=1: nest(t.reshape(-1, n), 1, s)
    rec.ev("layernorm", x=blocks(x), y=blocks(y, 1e3), w=w, b=b, eps=eps, si=shape(x), so=shape(y), h0=h0, h1=crc(H1), c0=c0, c1=crc(x))


class Op(nn.Module):
    """An element-wise module that counts its calls."""

    def __init__(self, f, a, b):
        super().__init__()
        self.f, self.n = f, 0
        self.a, self.b = nn.Parameter(torch.tensor(a / 100)), nn.Parameter(torch.tensor(b / 100))

    def forward(self, x):
        self.n += 1
        if self.f == "linear":
            return self.a * x + self.b
        if self.f == "square":
            return x * x
        return torch.clamp(x, self.a.item(), self.b.item())


def activation(rec, rng):
    dim = int(rng.choice([2, 3]))
    x = features(dim, rng, lim=6, atleast=1)
    a = b = 0
    inplace, calls, inner = False, 1, 1
    which = str(rng.choice(["relu", "gelu", "leaky", "wrap", "wrap"]))
    if which == "relu":
        f = "relu"
        inplace = bool(rng.random() < 0.3)
        mod = gnn.GReLU(inplace=True) if inplace else gnn.GReLU()
    elif which == "gelu":
        f = "gelu" if rng.random() < 0.6 else "tanhgelu"
        mod = gnn.GGELU() if f == "gelu" else gnn.GGELU(approximate="tanh")
    elif which == "leaky":
        f, a = "leaky", 1
        if rng.random() < 0.6:
            a = int(rng.integers(0, 100))
            mod = gnn.GLeakyReLU(a / 100)
        else:
            mod = gnn.GLeakyReLU()
    else:
        f = str(rng.choice(["linear", "square", "clamp"]))
        a, b = sorted(int(v) for v in rng.integers(-300, 300, size=2))
        op = Op(f, a, b)
        mod = gnn.GWrap(op)
        train = bool(rng.random() < 0.5)
        mod.train(train)
        inner = int(op.training == train and {id(p) for p in mod.parameters()} == {id(op.a), id(op.b)})
    H = grid(x, rng)
    h0, c0, X = crc(H), crc(x), q(x, 1)
    with torch.no_grad():
        y, H1 = mod(x, H)
    if which == "wrap":
        calls = op.n
    rec.ev("activation", f=f, a=a, b=b, inplace=inplace, calls=calls, inner=inner, x=X, y=q(y, 1e4), si=shape(x), so=shape(y), h0=h0, h1=crc(H1), c0=c0, c1=crc(x))


def large(rec, rng):
    """Large features: what is treated separately is treated the same as alone."""
    dim = int(rng.choice([2, 3]))
    N, C, Z = [(24, 3, 4), (3, 40, 2), (2, 3, 30), (2, 2, 3)][int(rng.integers(4))]
    sp = [int(v) for v in rng.integers(3, 6, size=dim)] if (N, Z) != (2, 3) else [int(v) for v in rng.integers(9, 15, size=dim)]
    x = torch.tensor(rng.integers(-9, 10, size=(N, C, Z, *sp)), dtype=torch.float32)
    H = torch.rand(Z, 2)
    which = str(rng.choice(["batch", "batcheval", "instance", "instancetracked", "layer", "act"]))
    ps = [tuple(int(rng.integers(v)) for v in (N, C, Z)) for _ in range(3)] + [(N - 1, C - 1, Z - 1)]
    want = [N, C, Z, *sp]
    with torch.no_grad():
        if which == "act":
            mod = [gnn.GReLU(), gnn.GGELU(), gnn.GLeakyReLU(0.3), gnn.GWrap(Op("square", 0, 0))][int(rng.integers(4))]
            part(rec, which, mod(x, H)[0], want, lambda t, j: t[ps[j]], [mod(x[n:n + 1, c:c + 1, z:z + 1], H)[0] for n, c, z in ps], tol=2)
            return
        if which == "layer":
            mod = gnn.GLayerNorm([Z, *sp])
            y = mod(x, H)[0]
            part(rec, which, y, want, lambda t, j: t[ps[j][:2]], [mod(x[n:n + 1, c:c + 1], H)[0] for n, c, z in ps], tol=5)
            return
        cls = getattr(gnn, f"G{'Batch' if 'batch' in which else 'Instance'}Norm{dim}d")
        kw = dict(affine=True) if "instance" in which else {}
        if which == "instancetracked":
            kw["track_running_stats"] = True
        mod, small = cls(C, **kw), [cls(1, **kw) for _ in ps]
        for t in [mod.weight, mod.bias] + ([mod.running_mean] if mod.running_mean is not None else []):
            t.copy_(torch.tensor(rng.integers(-3, 4, size=C)))
        if mod.running_var is not None:
            mod.running_var.copy_(torch.tensor(rng.integers(1, 9, size=C)))
        for m, (n, c, z) in zip(small, ps):
            m.load_state_dict({k: v if v.ndim == 0 else v[c:c + 1].clone() for k, v in mod.state_dict().items()})
        if which != "batch":
            for m in [mod, *small] if which != "instance" else []:
                m.eval()
        y = mod(x, H)[0]
        part(rec, which, y, want, lambda t, j: t[:, ps[j][1]], [m(x[:, c:c + 1], H)[0] for m, (n, c, z) in zip(small, ps)], tol=8)
        if which != "batch":
            part(rec, which + ": samples", y, want, lambda t, j: t[ps[j][0]], [mod(x[n:n + 1], H)[0] for n, c, z in ps], tol=8)
        if mod.running_mean is not None:
            for name in ("running_mean", "running_var"):
                v = getattr(mod, name)
                part(rec, which + ": " + name, v, [C], lambda t, j: t[ps[j][1]], [getattr(m, name) for m in small], tol=8)

def run(rec, thorough, rng):
    hs = gen.some(tlc.simulate("MCNorm", "SimNorm.cfg", 60, 7, int(rng.integers(1, 10**6))), 200, rng)
    for rep in range(150 if thorough else 25):
        for _ in range(3):
            with rec.trace(("large", rep)):
                large(rec, rng)
        for dim in (2, 3):
            for kind in ("batch", "instance"):
                for _ in range(2):
                    with rec.trace(("norm", kind, dim, rep)):
                        norm(rec, kind, dim, hs[int(rng.integers(len(hs)))], rng)
            for _ in range(2):
                with rec.trace(("layernorm", dim, rep)):
                    layernorm(rec, dim, rng)
        for _ in range(6):
            with rec.trace(("activation", rep)):
                activation(rec, rng)
