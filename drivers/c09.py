"""C09: spatial reference grids and masks."""
import numpy as np
import torch

from lib import gen, tlc
from lib.layers import DIM, FORMS, GROUPS, KERNEL, KIND, LAYER, REFL, el_tensor, rand_els, spatial_mode_names
from lib.rec import q, qn, shape
import gconv.gnn.functional as gF
from gconv.geometry import so2, o2, so3
from gconv.geometry.groups import o3

TRACE = "TraceC09"
MODELS = [("MCSpatial", "MCSpatial.cfg", "MCSpatial_thorough.cfg")]
GRID = {2: gF.create_grid_R2, 3: gF.create_grid_R3}
MASK = {2: gF.create_spherical_mask_R2, 3: gF.create_spherical_mask_R3}


def cells(n, dim, g):
    sc = 1000 * max(n - 1, 1)
    return [q(r, sc) for r in g.reshape(-1, dim)]


def signed(pi, sg, dim):
    m = np.zeros((dim, dim))
    for a in range(dim):
        m[a, pi[a] - 1] = sg[a]
    return m


def move(m, g, dim):
    """The grid g moved by the lattice symmetry m through the library."""
    det = round(np.linalg.det(m))
    if dim == 3:
        if det == 1:
            return so3.left_apply_to_R3(torch.tensor(m[None], dtype=torch.float32), g)[0]
        return o3.left_apply_to_R3(torch.tensor(np.concatenate(([-1.0], (-m).reshape(-1)))[None], dtype=torch.float32), g)[0]
    if det == 1:
        return so2.left_apply_angle_to_R2(torch.tensor([[np.arctan2(m[1, 0], m[0, 0])]], dtype=torch.float32), g)[0]
    return o2.left_apply_to_R2(torch.tensor([[-1.0, np.arctan2(m[1, 0], m[0, 0])]], dtype=torch.float32), g)[0]


def kernel(g, f, n, C, groups, mask, rng, layer):
    ci, co = C
    gk = (3, 2) if REFL[g] else 4
    kw = {"group_kernel_size": gk, "groups": groups}
    if mask is not None:
        kw["mask"] = mask
    if f != "lift":
        kw["group_sampling_mode"] = "nearest"
    if layer:
        return LAYER[(g, f)](ci, co, n, permute_output_grid=False, **kw)
    return KERNEL[(g, f)](ci, co, n, **kw)


def constant(kern, f, rng, val):
    """Fills in parameters that do not depend on the position in the group or in space."""
    with torch.no_grad():
        if f == "lift":
            v = rng.integers(1, 6, size=(kern.out_channels, kern.in_channels // kern.groups))
            kern.weight.copy_(torch.tensor(v, dtype=torch.float32).reshape(*v.shape, *([1] * len(kern.kernel_size))).expand_as(kern.weight))
        elif f == "sep":
            a = rng.integers(1, 6, size=(kern.out_channels, kern.in_channels // kern.groups))
            v = rng.integers(1, 6, size=(kern.out_channels,))
            kern.weight_H.copy_(torch.tensor(a, dtype=torch.float32).expand_as(kern.weight_H))
            kern.weight.copy_(torch.tensor(v, dtype=torch.float32).reshape(-1, 1, *([1] * len(kern.kernel_size))).expand_as(kern.weight))
            return a, v
        else:
            v = rng.integers(1, 6, size=(kern.out_channels, kern.in_channels // kern.groups))
            kern.weight.copy_(torch.tensor(v, dtype=torch.float32).reshape(1, *v.shape, *([1] * len(kern.kernel_size))).expand_as(kern.weight))
    return v


def run(rec, thorough, rng):
    for dim, top in ((2, 33 if thorough else 17), (3, 15 if thorough else 11)):
        for n in range(1, top + 1):
            with rec.trace(("grid", dim, n)):
                g = GRID[dim](n)
                rec.ev("grid", n=n, dim=dim, so=shape(g), g=cells(n, dim, g))
            with rec.trace(("mask", dim, n)):
                m = MASK[dim](n)
                rec.ev("mask", n=n, dim=dim, so=shape(m), m=q(m, 1e3))

    hs = tlc.simulate("MCSpatial", "SimSpatial.cfg", 200 if thorough else 40, 7, int(rng.integers(1, 10**6)))
    for h in gen.some(hs, 600 if thorough else 60, rng):
        n, dim = h["n"], h["dim"]
        with rec.trace(("symmetries", n, dim)):
            m, g = MASK[dim](n), GRID[dim](n)
            for a in h["h"]:
                pi, sg = a["pi"], a["sg"]
                m = m.permute(*[p - 1 for p in pi]).flip(*[[i for i in range(dim) if sg[i] == -1]])
                g = move(signed(pi, sg, dim), g, dim)
                rec.ev("mask", n=n, dim=dim, so=shape(m), m=q(m, 1e3))
                rec.ev("moved", n=n, dim=dim, g=cells(n, dim, g))

    for rep in range(4 if thorough else 1):
        for g in GROUPS:
            for f in FORMS:
                for n in ([1, 3, 5, 7] if DIM[g] == 2 else ([1, 3, 5] if thorough else [1, 3])) + ([2, 4] if thorough else [2, 4][rep: rep + 1]):
                    for mask in (None, True, False):
                        for layer in (False, True):
                            with rec.trace(("constant kernel", g, f, n, mask, layer)):
                                one(rec, g, f, n, mask, layer, rng)


def one(rec, g, f, n, mask, layer, rng):
    dim, kind = DIM[g], KIND[g]
    groups = int(rng.choice([1, 2]))
    ci, co = 2 * int(rng.integers(1, 3)), 2
    mod = kernel(g, f, n, (ci, co), groups, mask, rng, layer)
    k = mod.kernel if layer else mod
    v = constant(k, f, rng, 5)
    no, ni = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    outH, inH = el_tensor(kind, rand_els(kind, no, rng)), el_tensor(kind, rand_els(kind, ni, rng))
    det = [int(round(float(r[0]))) for r in outH] if REFL[g] else [1] * no
    with torch.no_grad():
        K = k(outH) if f == "lift" else k(inH, outH)
    asked = mask is not False
    if f == "sep":
        K = K[1]
        vals, dets = [int(v[1][c]) for c in range(co) for o in range(no)], [det[o] for c in range(co) for o in range(no)]
    elif f == "lift":
        vals = [int(v[c, i]) for c in range(co) for o in range(no) for i in range(ci // groups)]
        dets = [det[o] for c in range(co) for o in range(no) for i in range(ci // groups)]
    else:
        vals = [int(v[c, i]) for c in range(co) for o in range(no) for i in range(ci // groups) for j in range(ni)]
        dets = [det[o] for c in range(co) for o in range(no) for i in range(ci // groups) for j in range(ni)]
    rec.ev("kernel", grp=g, form=f, n=n, dim=dim, mask=asked, layer=layer, v=vals, den=dets, obs=qn(K.reshape(-1, n**dim), 1e3))
    if layer:
        sp = (n,) * dim
        with torch.no_grad():
            y = mod(torch.ones(1, ci, *sp), outH)[0] if f == "lift" else mod(torch.ones(1, ci, ni, *sp), inH, outH)[0]
        if f == "sep":
            tot = (v[0].sum(1) * v[1] * ni)
        else:
            tot = v.sum(1) * (ni if f == "full" else 1)
        rec.ev("summed", grp=g, form=f, n=n, dim=dim, mask=asked, v=[int(t) for t in np.repeat(tot, no)], den=det * co, obs=q(y, 1e3))
