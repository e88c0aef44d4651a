"""C12: equivariance of layers and networks."""
import numpy as np
import torch

import gconv.gnn as gnn
from lib import gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, LAYER, REFL, set_int_weights
from lib.rec import q, shape

TRACE = "TraceC12"
MODELS = [("MCEquiv", "MCEquiv.cfg", "MCEquiv_thorough.cfg")]
ASSUMPTIONS = ["outputs are compared to 0.01 plus a two thousandth"]


def nest(t, dims, scale=1e3):
    return q(t, scale) if dims == 0 else [nest(x, dims - 1, scale) for x in t]


def matrix(k, h):
    m = h[0] * (gen.rot2(h[1]) if k == "angle" else gen.mat_of(h[1:]))
    return m.round().astype(int) if k == "angle" else m.round().astype(int)[::-1, ::-1]  # in the order of the axes


def move(x, k, h):
    """The symmetry h applied to the trailing axes of x."""
    m = matrix(k, h)
    d = len(m)
    lead = x.ndim - d
    pi = [int(np.argmax(np.abs(m[a]))) for a in range(d)]
    x = x.permute(*range(lead), *[lead + p for p in pi])
    return x.flip([lead + a for a in range(d) if m[a, pi[a]] < 0]).contiguous()


def symmetries(g, proper=False):
    k = kern.par(g)
    base = [np.array([a]) for a in kern.LAT2] if k == "angle" else kern.LAT3
    return [np.concatenate(([c], b)) for c in ((1.0, -1.0) if REFL[g] and not proper else (1.0,)) for b in base]


def axes(dim, rng, k, torus):
    """Geometries that commute with reversing an axis."""
    while True:
        s = 1 if torus else int(rng.choice([1, 1, 2, 3]))
        d = int(rng.choice([1, 1, 2]))
        mode = "circular" if torus else str(rng.choice(["zeros", "zeros", "replicate", "reflect", "circular"]))
        span = d * (k - 1)
        if torus:
            if span % 2:
                continue
            p = "same" if rng.random() < 0.5 else span // 2
        elif s == 1 and span % 2 == 0 and rng.random() < 0.2:
            p = "same"
        else:
            p = int(rng.integers(0, 3)) if rng.random() < 0.9 else "valid"
        a = span // 2 if p == "same" else 0 if p == "valid" else p
        Ls = [L for L in range(2, 8 if dim == 2 else 6) if (L + 2 * a - span - 1) >= 0 and (L + 2 * a - span - 1) % s == 0
              and (mode != "circular" or a <= L) and (mode != "reflect" or a < L)]
        if not Ls:
            continue
        L = [int(rng.choice(Ls)) for _ in range(dim)]
        if rng.random() < 0.5:
            L = [L[0]] * dim
        return dict(stride=s, dilation=d, padding=p, padding_mode=mode), L, [dict(L=x, k=k, s=s, d=d, pl=a, pr=a) for x in L]


def make(g, f, ci, co, n, rng, geo, **extra):
    """A layer with a default or a given grid."""
    k = kern.par(g)
    kw = dict(mask=bool(rng.random() < 0.6), permute_output_grid=False, bias=bool(rng.random() < 0.5), **geo)
    gmode = "rbf" if rng.random() < 0.6 else "nearest"
    smode, spad = str(rng.choice(["bilinear", "bilinear", "nearest"])), str(rng.choice(["border", "border", "zeros", "reflection"]))
    u = rng.random()
    size = (int(rng.integers(1, 6)), int(rng.integers(1, 6))) if REFL[g] else int(rng.integers(1, 9))
    if u < 0.4:
        opt = kern.options(g, f, "nearest", None, smode, spad)
        if f != "lift":
            opt["group_sampling_mode"] = gmode
    else:
        grid = kern.closed(g, rng) if u < 0.7 else kern.scattered(g, rng)
        kw["grid_H"] = kern.tensor(g, grid)
        opt = kern.options(g, f, gmode, kern.widths(k, grid, rng), smode, spad)
    mod = LAYER[(g, f)](ci, co, n, group_kernel_size=size, **kw, **opt, **extra)
    set_int_weights(mod, rng, 3)
    # between symmetries of the lattice these choices meet ties, which rounding decides
    mod.ties = (smode == "nearest" and (spad != "border" or n % 2 == 0)) or (f != "lift" and gmode == "nearest" and u < 0.7)
    return mod


def elements(g, n, rng, lattice=True):
    """Some elements, on the lattice or not."""
    if lattice and rng.random() < 0.5:
        c, h = kern.closed(g, rng), kern.element(g, rng, True)
        return [kern.mul(kern.par(g), h, c[int(i)]) for i in rng.integers(0, len(c), size=n)]
    return [kern.element(g, rng, False) for _ in range(n)]


class Single:
    """One layer with its grids and input."""

    def __init__(self, g, f, rng):
        self.g, self.f, self.k, self.depth, self.proper = g, f, kern.par(g), 1, False
        dim = DIM[g]
        n = int(rng.choice([1, 2, 3, 3, 5] if dim == 2 else [1, 2, 3, 3]))
        self.torus = bool(rng.random() < 0.35)
        geo, L, self.axes = axes(dim, rng, n, self.torus)
        groups = int(rng.choice([1, 2]))
        ci, co = groups * int(rng.integers(1, 3)), groups
        self.mod = make(g, f, ci, co, n, rng, geo, groups=groups)
        self.grids = [elements(g, int(rng.integers(1, 4)), rng, not self.mod.ties) for _ in range(1 if f == "lift" else 2)]
        N = int(rng.integers(1, 3))
        lead = (N, ci) if f == "lift" else (N, ci, len(self.grids[0]))
        self.x = torch.tensor(rng.integers(-3, 4, size=(*lead, *L)), dtype=torch.float32)

    def ask(self, x=None):
        with torch.no_grad():
            return self.mod(self.x if x is None else x, *[kern.tensor(self.g, h) for h in self.grids])[0]

    def bias(self):
        return q(self.mod.bias, 1e3) if self.mod.bias is not None else [0] * self.mod.out_channels

    def swapin(self, i, j):
        if self.f == "lift" or max(i, j) >= len(self.grids[0]):
            return False
        h = self.grids[0]
        h[i], h[j] = h[j], h[i]
        o = list(range(len(h)))
        o[i], o[j] = j, i
        self.x = self.x[:, :, o]
        return True


class Network:
    """Lifting, then group convolutions, with other modules in between."""

    def __init__(self, g, rng, pooled=False):
        self.g, self.k = g, kern.par(g)
        dim = DIM[g]
        self.torus = False
        self.proper = bool(rng.random() < 0.6) or pooled or not REFL[g]
        self.depth = int(rng.integers(2, 4))
        C = [int(rng.integers(1, 3)) for _ in range(self.depth + 1)]
        L = int(rng.choice([4, 5, 6] if dim == 2 else [3, 4]))
        self.x = torch.tensor(rng.integers(-3, 4, size=(int(rng.integers(1, 3)), C[0], *(L,) * dim)), dtype=torch.float32)
        self.layers, self.grids = [], []
        nd = f"{dim}d"
        for i in range(self.depth):
            f = "lift" if i == 0 else str(rng.choice(["sep", "full"]))
            geo = dict(padding=1, padding_mode=str(rng.choice(["zeros", "replicate", "circular"])))
            m = make(g, f, C[i], C[i + 1], 3, rng, geo)
            with torch.no_grad():
                for p in m.parameters():
                    p.mul_(0.5)
                if not self.proper and m.bias is not None:
                    m.bias.zero_()
            self.layers.append(m)
            if pooled:
                self.grids.append(self.lattice_group(rng))
            else:
                self.grids.append(elements(g, int(rng.integers(1, 4)), rng, not m.ties))
            if self.proper and rng.random() < 0.7:
                self.layers.append(getattr(gnn, str(rng.choice(["GReLU", "GGELU", "GLeakyReLU"])))())
            if rng.random() < 0.4 and self.proper and L > 1:
                n = getattr(gnn, str(rng.choice(["GBatchNorm", "GInstanceNorm"])) + nd)(C[i + 1])
                if rng.random() < 0.5 and "Batch" in type(n).__name__:
                    n.eval()
                self.layers.append(n)
            if rng.random() < 0.3 and L % 2 == 0:
                L //= 2
                self.layers.append(getattr(gnn, str(rng.choice(["GMaxSpatialPool", "GAvgSpatialPool"] if self.proper else ["GAvgSpatialPool"])) + nd)(2))

    def lattice_group(self, rng):
        """A set of elements closed under all symmetries of the lattice used below."""
        if self.k == "angle":
            t = rng.uniform(0, 6)
            return [np.array([c, t + a]) for c in ((1.0, -1.0) if REFL[self.g] else (1.0,)) for a in kern.LAT2]
        h = gen.rand_quat(rng)
        self.sub = [gen.axis_angle(np.eye(3)[i], np.pi) for i in range(3)] + [np.array([1.0, 0, 0, 0])]
        return [np.concatenate(([c], kern.qmul(s, h))) for c in ((1.0, -1.0) if REFL[self.g] else (1.0,)) for s in self.sub]

    def ask(self, x=None):
        x, H, i = self.x if x is None else x, None, 0
        with torch.no_grad():
            for m in self.layers:
                if hasattr(m, "kernel"):
                    h = kern.tensor(self.g, self.grids[i])
                    x, H = m(x, h) if i == 0 else m(x, H, h)
                    i += 1
                else:
                    x, H = m(x, H)
        return x

    def bias(self):
        return [0] * self.layers[0].out_channels * 99

    def swapin(self, i, j):
        h = self.grids[0]
        if max(i, j) >= len(h):
            return False
        h[i], h[j] = h[j], h[i]
        return True


def program(rec, s, h, rng):
    y = s.ask()
    rec.ev("begin", subject=type(s).__name__, grp=s.g, k=s.k, depth=s.depth, y=nest(y, 3), so=shape(y), b=s.bias())
    syms = symmetries(s.g, s.proper)
    for a in h:
        kw = {}
        if a["op"] == "sym":
            e = syms[a["i"] % len(syms)]
            s.x = move(s.x, s.k, e)
            s.grids = [[kern.mul(s.k, e, r) for r in H] for H in s.grids]
            kw = dict(h=kern.fixrows(s.k, [e])[0])
        elif a["op"] == "swapin":
            if not s.swapin(a["i"] - 1, a["j"] - 1):
                continue
        elif a["op"] == "swapout":
            i, j = a["i"] - 1, a["j"] - 1
            H = s.grids[-1]
            if max(i, j) >= len(H):
                continue
            H[i], H[j] = H[j], H[i]
            kw = dict(i=i + 1, j=j + 1)
        else:
            if not s.torus:
                continue
            d = DIM[s.g]
            ax = (a["i"] - 1) % d
            s.x = torch.roll(s.x, a["j"], dims=s.x.ndim - d + ax)
            kw = dict(axis=ax + 1, by=a["j"])
        y = s.ask()
        rec.ev(a["op"], y=nest(y, 3), so=shape(y), **kw)


def interior(rec, g, f, rng):
    s = Single(g, f, rng)
    dim = DIM[g]
    L = [int(rng.integers(7, 12)) if dim == 2 else int(rng.integers(5, 8)) for _ in range(dim)]
    for a, x in zip(s.axes, L):
        a["L"] = x
    if any(a["pl"] >= a["L"] for a in s.axes):
        return
    lead = s.x.shape[: s.x.ndim - dim]
    by = [int(rng.integers(-2, 3)) for _ in range(dim)]
    x = torch.tensor(rng.integers(-3, 4, size=(*lead, *L)), dtype=torch.float32)
    x2 = torch.tensor(rng.integers(-3, 4, size=(*lead, *L)), dtype=torch.float32)
    src, dst = [slice(None)] * len(lead), [slice(None)] * len(lead)
    for a, t in zip(s.axes, by):
        m = t * a["s"]
        n = a["L"] - abs(m)
        if n <= 0:
            return
        src.append(slice(0, n) if m >= 0 else slice(-m, -m + n))
        dst.append(slice(m, m + n) if m >= 0 else slice(0, n))
    x2[tuple(dst)] = x[tuple(src)]
    try:
        y, y2 = s.ask(x), s.ask(x2)
    except RuntimeError:
        if any(a["L"] + 2 * a["pl"] < a["d"] * (a["k"] - 1) + 1 for a in s.axes):
            return  # the kernel does not fit
        raise
    rec.ev("interior", grp=g, form=f, axes=s.axes, by=by, y=nest(y, 3), y2=nest(y2, 3), so=shape(y), so2=shape(y2))


def pooled(rec, g, rng):
    s = Network(g, rng, pooled=True)
    pool = getattr(gnn, str(rng.choice(["GMaxGlobalPool", "GAvgGlobalPool"])))()
    y = pool(s.ask(), None)
    other = pool(s.ask(torch.randn_like(s.x)), None)
    syms = symmetries(g, proper=True) if s.k == "angle" else [np.concatenate(([1.0], r)) for r in s.sub]
    for e in syms:
        y2 = pool(s.ask(move(s.x, s.k, e)), None)
        rec.ev("pooled", grp=g, k=s.k, h=kern.fixrows(s.k, [e])[0], y=q(y, 1e3), y2=q(y2, 1e3), varies=True or bool((other != y).any()))


def run(rec, thorough, rng):
    hs = tlc.simulate("MCEquiv", "SimEquiv.cfg", 200 if thorough else 60, 8, int(rng.integers(1, 10**6)))
    for rep in range(40 if thorough else 8):
        for g in GROUPS:
            for f in FORMS:
                for _ in range(2):
                    h = hs[int(rng.integers(len(hs)))]
                    with rec.trace(("layer", g, f, rep)):
                        program(rec, Single(g, f, rng), h, rng)
                with rec.trace(("interior", g, f, rep)):
                    interior(rec, g, f, rng)
            for _ in range(3):
                h = hs[int(rng.integers(len(hs)))]
                with rec.trace(("network", g, rep)):
                    program(rec, Network(g, rng), h, rng)
            with rec.trace(("pooled", g, rep)):
                pooled(rec, g, rng)
