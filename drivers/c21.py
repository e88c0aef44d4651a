"""C21: kernels and layers of user-supplied groups."""
import numpy as np
import torch
import torch.nn.functional as F

from gconv.geometry import so2, so3
from gconv.gnn.kernels import GKernel, GLiftingKernel, GSeparableKernel, GSubgroupKernel
from gconv.gnn.modules import gconv as base
from lib import gen, kern, tlc
from lib.layers import KERNEL
from lib.rec import attempt, crc, q, shape
from drivers.c11 import nest, record

TRACE = "TraceC21"
MODELS = [("MCCustom", "MCCustom.cfg", "MCCustom_thorough.cfg")]
ASSUMPTIONS = ["user operations return tensors of the documented shape; they need not be contiguous, nor form a group",
               "subgroup kernels have no spatial extent and are not divided by the determinant"]
CLS = dict(lift=GLiftingKernel, sep=GSeparableKernel, full=GKernel, sub=GSubgroupKernel)
CONV = {("lift", 2): base.GLiftingConv2d, ("lift", 3): base.GLiftingConv3d, ("sep", 2): base.GSeparableConv2d, ("sep", 3): base.GSeparableConv3d,
        ("full", 2): base.GConv2d, ("full", 3): base.GConv3d, ("sub", 2): base.GConv2d, ("sub", 3): base.GConv3d}


class Ops:
    """Operations without any structure; every call is noted."""

    def __init__(self, dims, strided):
        self.dims, self.strided, self.calls = tuple(dims), strided, []

    def note(self, name, *args):
        self.calls.append([name, [shape(a) for a in args]])

    def out(self, t):
        if self.strided and t.ndim > 1:
            return t.flip(0, 1).transpose(0, -1).contiguous().transpose(0, -1).flip(0, 1) if self.strided == 1 else \
                torch.stack([t, t], -1)[..., 0]
        return t

    def inv(self, h):
        self.note("inv", h)
        return self.out((3 - h.reshape(len(h), -1).flip(1)).reshape(h.shape))

    def mul(self, a, b):
        self.note("mul", a, b)
        return self.out(a[:, None] + 2 * b + 1)

    def act(self, h, x):
        self.note("act", h, x)
        s = h.reshape(len(h), *(1,) * (x.ndim - 1), -1).sum(-1, keepdim=True)
        return self.out(x.flip(-1) + torch.arange(1, x.shape[-1] + 1) * s)

    def sampleH(self, g, signal, ref, shift=0):
        self.note("sampleH", g, signal, ref)
        w = torch.remainder(g.reshape(len(g), -1) @ ref.reshape(len(ref), -1).T, 3) - 1 + shift
        return self.out(w.to(signal.dtype) @ signal)

    def sampleRn(self, w, pos, gain=0):
        self.note("sampleRn", w, pos)
        f = torch.remainder((torch.arange(1, pos.shape[-1] + 1) * pos).sum(-1), 3) - 1 + gain
        return self.out(w.flip(*range(2, w.ndim)) * f[:, None] + w)

    def det(self, h):
        self.note("det", h)
        return torch.tensor([1.0, 2.0, 4.0, -2.0], dtype=h.dtype)[torch.remainder(h.reshape(len(h), -1).sum(1), 4).long()]

    def det_column(self, h):
        return self.det(h)[:, None]


def flat(t):
    return [[int(round(v)) for v in r.reshape(-1).tolist()] for r in t]


def weights(p, rng):
    with torch.no_grad():
        p.copy_(torch.tensor(rng.integers(-2, 3, tuple(p.shape)) * 4))


def cells(t, n):
    """Nested lists with the last n dimensions merged, entries integers."""
    return nest(t.flatten(t.ndim - n), t.ndim - n)


def build(c, rng):
    """Kernel of form c with random operations, weights and elements, and what the specification needs to know of it."""
    f, dims, D = c["form"], c["dims"], c["D"]
    dt = torch.float64 if c["layout"] == "double" else torch.float32
    ops = Ops(dims, int(rng.integers(1, 3)) if c["layout"] == "strided" else 0)
    groups = c["groups"]
    ipg, opg = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    ci, co = groups * ipg, groups * opg
    k = int(rng.integers(1, 4 if D == 2 else 3))
    ks = tuple(int(rng.integers(1, 4 if D == 2 else 3)) for _ in range(D)) if c["ragged"] else (k,) * D
    if f == "sub":
        ks = (1,) * D
    R = sum(c["refs"])
    els = lambda n: torch.tensor(rng.integers(-2, 3, (n, *dims)), dtype=dt)
    ref, grn = els(R), torch.tensor(rng.integers(-2, 3, (*ks, D)), dtype=dt)
    mask = None if c["mask"] == "none" or f == "sub" else torch.tensor(rng.integers(0, 2, ks) if c["mask"] != "any" else rng.integers(-1, 3, ks), dtype=dt)
    shift, gain = (int(rng.integers(1, 3)) if c["kw"] in w else 0 for w in (("group", "both"), ("space", "both")))
    kw = dict(grid_H=ref, inverse_H=ops.inv, groups=groups)
    if f != "lift":
        kw.update(left_apply_to_H=ops.mul, sample_H=ops.sampleH)
        if shift:
            kw["sample_H_kwargs"] = {"shift": shift}
    if f != "sub":
        kw.update(grid_Rn=grn, left_apply_to_Rn=ops.act, sample_Rn=ops.sampleRn)
        if mask is not None:
            kw["mask"] = mask
        if gain:
            kw["sample_Rn_kwargs"] = {"gain": gain}
        if c["det"] != "none":
            kw["det_H"] = ops.det if c["det"] == "flat" else ops.det_column
    kern_ = CLS[f](ci, co, ks, tuple(c["refs"]), **kw)
    no, ni = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    O, I = els(no), els(ni)
    if c["layout"] == "strided":
        O, I = gen.relayout(O, rng, 1), gen.relayout(I, rng, 1)
    known = dict(form=f, dims=list(dims), ks=list(ks), nout=co, nin=ipg, outs=flat(O), ins=flat(I) if f != "lift" else [], ref=flat(ref),
                 grn=flat(grn.reshape(-1, D)), shift=shift, gain=gain, det=c["det"] != "none", mask=[] if mask is None else q(mask, 1))
    return kern_, ops, known, (O, I, ref, grn, mask), (ci, co, ks, groups, no, ni, ipg, dt)


def custom(rec, c, rng):
    f, D = c["form"], c["D"]
    kern_, ops, known, (O, I, ref, grn, mask), (ci, co, ks, groups, no, ni, ipg, dt) = build(c, rng)
    R = sum(c["refs"])
    L = [int(rng.integers(3, 6 if D == 2 else 5)) for _ in range(D)]
    axes = [dict(L=L[a], k=ks[a], s=int(rng.integers(1, 3)), d=1, amount=int(rng.integers(0, 2))) for a in range(D)]
    one = lambda v: v[0] if len(set(v)) == 1 and rng.random() < 0.5 else tuple(v)
    layer = CONV[(f, D)](ci, co, one(ks), tuple(c["refs"]) if rng.random() < 0.5 else R, kern_, groups=groups, stride=one([a["s"] for a in axes]),
                         padding=one([a["amount"] for a in axes]), bias=c["bias"])
    if c["layout"] == "double":
        layer = layer.double()
    for p in layer.parameters():
        weights(p, rng)
    every = lambda: crc([O, I, ref, grn] + [t for t in [*layer.parameters(), *layer.buffers()]] + ([mask] if mask is not None else []))
    args = (O,) if f == "lift" else (I, O)
    c0 = every()
    with torch.no_grad():
        K = kern_(*args)
    calls, ops.calls = ops.calls, []
    e = dict(known, calls=calls, c0=c0, c1=every(),
             so=shape(K[0] if f == "sep" else K), ss=shape(K[1]) if f == "sep" else [], got=[], gotH=[], wH=[], w=[], wS=[])
    if f == "lift":
        e.update(w=cells(kern_.weight, D), got=cells(K, D))
    elif f == "sep":
        e.update(wH=[q(r, 1) for r in kern_.weight_H], wS=[x[0] for x in cells(kern_.weight, D)], gotH=nest(K[0].reshape(co, no, ipg, ni), 3), got=[[x for x in y] for y in cells(K[1][:, :, 0], D)])
    elif f == "sub":
        e.update(wH=[q(r, 1) for r in kern_.weight], gotH=nest(K.reshape(co, no, ipg, ni), 3))
    else:
        e.update(wH=[q(r, 1) for r in kern_.weight], got=cells(K, D))
    rec.ev("kernel", **e)

    x = torch.tensor(rng.integers(-2, 3, (int(rng.integers(1, 3)), ci, *(() if f == "lift" else (ni,)), *L)), dtype=dt)
    cx = crc(x)
    c0 = every()
    with torch.no_grad():
        y, H = layer(x, *args)
    form = "full" if f == "sub" else f
    record(rec, form, [dict(a, pad="amount", mode="zeros") for a in axes], groups, ci, co, 1 if f == "lift" else ni, no, 1, x, K, layer.bias, y, crc(H), crc(O), [cx, c0], [crc(x), every()], "custom")


def dilations(rec, rng):
    """A group of dilations and quarter turns with the library's own spatial sampling."""
    D = int(rng.choice([2, 3]))
    n = int(rng.choice([3, 5])) if D == 2 else 3
    pad = str(rng.choice(["zeros", "border"]))
    co, ci = 2, int(rng.integers(1, 3))
    def rot(h):
        c, s = torch.cos(h[:, 1]).round(), torch.sin(h[:, 1]).round()
        R = torch.zeros(len(h), D, D)
        R[:, 0, 0], R[:, 0, 1], R[:, 1, 0], R[:, 1, 1] = c, -s, s, c
        if D == 3:
            R[:, 2, 2] = 1
        return R
    act = lambda h, x: torch.einsum("nij,...j->n...i", rot(h) * torch.exp(h[:, 0])[:, None, None], x)
    ax = torch.linspace(-1, 1, n)
    grn = torch.stack(torch.meshgrid(*(ax,) * D, indexing="ij")[::-1], -1)
    k = GLiftingKernel(ci, co, (n,) * D, (1,), torch.zeros(1, 2), grn, det_H=lambda h: torch.exp(D * h[:, 0]), inverse_H=lambda h: -h, left_apply_to_Rn=act,
                       sample_Rn=F.grid_sample, sample_Rn_kwargs=dict(padding_mode=pad, align_corners=False))
    for p in k.parameters():
        with torch.no_grad():
            p.copy_(torch.tensor(rng.integers(-3, 4, tuple(p.shape))))
    outs = [[int(rng.integers(-1, 2)), int(rng.integers(0, 4))] for _ in range(3)]
    O = torch.tensor([[a * np.log(2), b * np.pi / 2] for a, b in outs], dtype=torch.float32)
    with torch.no_grad():
        K = k(O)
    rec.ev("dilate", dim=D, n=n, pad=pad, outs=outs, grn=[q(v, 1e4) for v in grn.reshape(-1, D)],
           w=nest(1000 * k.weight.flatten(2), 2), got=nest((1000 * K).flatten(3), 3))


def parity(rec, rng):
    """The built-in groups with another parameterization of their elements, supplied by a user."""
    g = str(rng.choice(["SE2", "SE3"]))
    f = str(rng.choice(["lift", "sep", "full"]))
    n, ci, co = 3, 2, 2
    if g == "SE2":   # rotation matrices instead of angles
        to = lambda h: so2.angle_to_matrix(h) if h.ndim > 1 else so2.angle_to_matrix(h[:, None])
        back = lambda m: torch.atan2(m[..., 1, 0], m[..., 0, 0])
        inv, mul = lambda m: m.transpose(-1, -2), lambda a, b: torch.einsum("nij,mjk->nmik", a, b)
        act = lambda m, x: torch.einsum("nij,...j->n...i", m, x)
        dist = lambda a, b: (a[:, None] - b).square().sum((-1, -2))
        els = lambda k: 6 * torch.rand(k, 1)
    else:            # quaternions instead of matrices
        to, back = so3.matrix_to_quat, so3.quat_to_matrix
        inv = lambda p: p * torch.tensor([1.0, -1, -1, -1])
        def mul(a, b):
            a, b = a[:, None], b[None]
            w = a[..., 0] * b[..., 0] - (a[..., 1:] * b[..., 1:]).sum(-1)
            u, v = torch.broadcast_tensors(a[..., 1:], b[..., 1:])
            return torch.cat([w[..., None], a[..., :1] * v + b[..., :1] * u + torch.linalg.cross(u, v)], -1)
        act = lambda p, x: torch.einsum("nij,...j->n...i", so3.quat_to_matrix(p), x)
        dist = lambda a, b: 1 - (a @ b.T).abs()
        els = lambda k: so3.random_matrix((k,))
    near = lambda p, signal, ref: signal[dist(p, ref).argmin(-1)]
    kw = {} if f == "lift" else dict(group_sampling_mode="nearest")
    b = KERNEL[(g, f)](ci, co, n, group_kernel_size=4, mask=bool(rng.random() < 0.5), **kw)
    ks, gs = b.kernel_size, b.group_kernel_size
    own = dict(grid_H=to(b.grid_H), grid_Rn=b.grid_Rn, inverse_H=inv, left_apply_to_Rn=act, sample_Rn=F.grid_sample,
               sample_Rn_kwargs=dict(padding_mode="border"))
    if b.mask is not None:
        own["mask"] = b.mask
    if f != "lift":
        own.update(left_apply_to_H=mul, sample_H=near)
    k = CLS[f](ci, co, ks, gs, **own)
    k.load_state_dict({**b.state_dict(), "grid_H": own["grid_H"]})
    O, I = els(2), els(3)
    args = (lambda h: (h[0],)) if f == "lift" else (lambda h: (h[1], h[0]))
    with torch.no_grad():
        A, B = b(*args((O, I))), k(*args((to(O), to(I))))
    for x, y in zip(*((A, B) if f == "sep" else ((A,), (B,)))):
        rec.ev("agree", what="built-in-and-custom-parameterization", x=q(x, 1e4), y=q(y, 1e4))


def run(rec, thorough, rng):
    hs = tlc.simulate("MCCustom", "SimCustom.cfg", 1500 if thorough else 240, 14, int(rng.integers(1, 10**6)))
    for i, c in enumerate(hs):
        with rec.trace(("custom", i)):
            custom(rec, c, rng)
    for i in range(200 if thorough else 24):
        with rec.trace(("dilations", i)):
            dilations(rec, rng)
        with rec.trace(("parity", i)):
            parity(rec, rng)
