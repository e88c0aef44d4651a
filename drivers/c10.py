"""C10: sampled kernels."""
import numpy as np
import torch

from lib import gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, KERNEL, LAYER, REFL, set_int_weights
from lib.parts import clear, part
from lib.rec import crc, q, qn, shape
from gconv.gnn.kernels.kernel_sen.kernel_so3 import GSubgroupKernelSO3

TRACE = "TraceC10"
MODELS = [("MCKernel", "MCKernel.cfg", "MCKernel_thorough.cfg")]
ASSUMPTIONS = ["stored weights are small integers; sampled values are compared to 0.03"]


def nest(t, dims, scale=1e3):
    """Nested lists over the first dims dimensions, flat beyond."""
    if dims == 0:
        return q(t, scale)
    return [nest(x, dims - 1, scale) for x in t]


def case(rec, g, f, rng, via_layer):
    dim, k = DIM[g], kern.par(g)
    big = rng.random() < 0.15
    n = int(rng.choice([1, 2, 3, 4, 5, 7] if dim == 2 else [1, 2, 3, 3])) if not big else (7 if dim == 2 else 5)
    exact = rng.random() < 0.45
    lattice = exact or rng.random() < 0.3
    grid = kern.closed(g, rng) if exact else kern.scattered(g, rng)
    gmode = str(rng.choice(["rbf", "nearest"]))
    smode = str(rng.choice(["bilinear", "bilinear", "nearest"]))
    spad = str(rng.choice(["border", "border", "zeros", "reflection"]))
    groups = int(rng.choice([1, 1, 2, 3]))
    ci, co = groups * int(rng.integers(1, 3)), groups * int(rng.integers(1, 3))
    no, ni = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if not big and rng.random() < 0.15:  # many elements, more inputs than outputs and the other way round
        no, ni, n, ci, co = int(rng.integers(1, 10)), int(rng.integers(1, 10)), int(rng.choice([1, 1, 2])), groups, groups
    if big or (f == "full" and dim == 3 and n > 2):
        ci, co, no, ni = groups, groups, min(no, 2), min(ni, 2)
        grid = grid if exact else grid[: 4]
    w = kern.widths(k, grid, rng)
    pick = lambda m: [grid[int(i)] for i in rng.integers(0, len(grid), size=m)]
    if exact:
        h = kern.element(g, rng, True)
        outs, ins = [kern.mul(k, h, x) for x in pick(no)], [kern.mul(k, h, x) for x in pick(ni)]
    else:
        outs, ins = [kern.element(g, rng, lattice) for _ in range(no)], [kern.element(g, rng, False) for _ in range(ni)]
    mask = bool(rng.random() < 0.6)
    nr = sum(1 for r in grid if r[0] > 0)
    kw = dict(groups=groups, mask=mask, grid_H=kern.tensor(g, grid), **kern.options(g, f, gmode, w, smode, spad))
    if f != "lift" or rng.random() < 0.5:
        kw["group_kernel_size"] = (2, 1) if REFL[g] else 3  # to be overruled by the grid
    mod = (LAYER if via_layer else KERNEL)[(g, f)](ci, co, n, **kw)
    kr = mod.kernel if via_layer else mod
    set_int_weights(kr, rng, 5)
    alike = f != "lift" and rng.random() < 0.2  # the output elements are the input elements, as one list
    outs = ins if alike else outs
    O, I = kern.tensor(g, outs), kern.tensor(g, ins)
    I = O if alike else I
    ipg = ci // groups
    c0 = crc([O, I] + [p for p in kr.parameters()] + [b for b in kr.buffers()])
    with torch.no_grad():
        K = kr(O) if f == "lift" else kr(I, O)
    c1 = crc([O, I] + [p for p in kr.parameters()] + [b for b in kr.buffers()])
    grn = kr.grid_Rn.reshape(-1, dim)
    rec_k = {"k": k, "dim": dim, "n": n, "grid": kern.fixrows(k, grid), "nr": nr, "gmode": gmode, "w": q(torch.tensor(w), 1e5), "smode": smode,
             "spad": spad, "grn": qn(grn, 1e4), "mask": q(kr.mask, 1) if mask else [1] * n**dim, "det": REFL[g], "c": []}
    e = {"grp": g, "outs": kern.fixrows(k, outs), "ins": kern.fixrows(k, ins), "c0": c0, "c1": c1, "nout": co, "nin": ipg, "d": [], "dg": []}
    if f != "lift":
        W = (kr.weight_H if f == "sep" else kr.weight).detach().double().numpy().reshape(len(grid), -1)
        e["wH"] = W.astype(int).tolist()
        if gmode == "rbf":
            certify(rec_k, e, k, grid, w, W, outs, ins)
    if f == "lift":
        rec.ev("lift", k=rec_k, w=nest(kr.weight, 2, 1), obs=nest(K, 3), so=shape(K), **e)
    elif f == "sep":
        rec.ev("sep", k=rec_k, wS=nest(kr.weight, 1, 1), oH=nest(K[0], 3), oS=nest(K[1], 2), so=shape(K[0]), ss=shape(K[1]), **e)
    else:
        rec.ev("full", k=rec_k, obs=nest(K, 4), so=shape(K), **e)


def certify(rec_k, e, k, grid, w, W, outs, ins):
    rec_k["c"] = [q(torch.tensor(r), 1e3) for r in kern.coefficients(k, grid, w, W)]
    e["dg"] = [q(torch.tensor(r), 1e5) for r in kern.D(k, grid, grid)]
    e["d"] = [[q(torch.tensor([kern.dist(k, kern.rel(k, o, i), x) for x in grid]), 1e5) for i in ins] for o in outs]


def subgroup(rec, rng):
    grid = [np.concatenate(([1.0], x)) for x in kern.spread("quat", int(rng.integers(1, 6)), rng)]
    gmode, groups = str(rng.choice(["rbf", "nearest"])), int(rng.choice([1, 2, 3]))
    ipg, co = int(rng.integers(1, 4)), groups * int(rng.integers(1, 3))
    w = kern.widths("quat", grid, rng)
    gt = torch.tensor(np.array([r[1:] for r in grid]), dtype=torch.float32)
    kr = GSubgroupKernelSO3(ipg * groups, co, 2, groups=groups, sampling_mode=gmode, sampling_width=w[0], grid_H=gt)
    set_int_weights(kr, rng, 5)
    outs, ins = ([kern.element("SE3", rng, False) for _ in range(int(rng.integers(1, 4)))] for _ in range(2))
    O, I = kern.tensor("SE3", outs), kern.tensor("SE3", ins)
    c0 = crc([O, I, kr.weight, kr.grid_H])
    with torch.no_grad():
        K = kr(I, O)
    W = kr.weight.detach().double().numpy().reshape(len(grid), -1)
    rec_k = {"k": "quat", "dim": 3, "n": 1, "grid": kern.fixrows("quat", grid), "nr": len(grid), "gmode": gmode, "w": q(torch.tensor(w), 1e5),
             "smode": "bilinear", "spad": "border", "grn": [], "mask": [], "det": False, "c": []}
    e = {"grp": "SO3", "outs": kern.fixrows("quat", outs), "ins": kern.fixrows("quat", ins), "c0": c0, "c1": crc([O, I, kr.weight, kr.grid_H]),
         "nout": co, "nin": ipg, "d": [], "dg": [], "wH": W.astype(int).tolist()}
    if gmode == "rbf":
        certify(rec_k, e, "quat", grid, w, W, outs, ins)
    rec.ev("sub", k=rec_k, oH=nest(K, 3), so=shape(K), **e)


def program(rec, h, g, f, rng):
    """A behaviour of MCKernel on a kernel with its default grid, widths and random weights."""
    k = kern.par(g)
    NO, NI = 4, 3
    gk = (int(rng.integers(1, 5)), int(rng.integers(1, 5))) if REFL[g] else int(rng.integers(1, 9))
    ci, co = 2, 2
    if f == "sub":
        kr = GSubgroupKernelSO3(ci, co, gk)
    elif f == "sep":
        kr = KERNEL[(g, f)](ci, co, 3, gk)
    else:
        kr = KERNEL[(g, f)](ci, co, 1, gk)
    outs, ins = [kern.element(g, rng, False) for _ in range(NO)], [kern.element(g, rng, False) for _ in range(NI)]
    det = [r[0] if REFL[g] else 1.0 for r in outs]

    def obs():
        with torch.no_grad():
            K = kr(kern.tensor(g, ins), kern.tensor(g, outs))
        if f == "sep":
            return nest(K[0], 3)
        if f == "full":
            K = K * torch.tensor([r[0] for r in outs]).reshape(1, -1, *([1] * (K.ndim - 2)))
        return nest(K, 3)

    rec.ev("begin", grp=g, form=f, obs=obs())
    for a in h:
        i, j = a["i"] - 1, a["j"] - 1
        if a["op"] == "common":
            c = kern.element(g, rng, False)
            outs, ins = [kern.mul(k, c, x) for x in outs], [kern.mul(k, c, x) for x in ins]
        elif a["op"] == "swapout":
            outs[i], outs[j] = outs[j], outs[i]
        elif a["op"] == "swapin":
            ins[i], ins[j] = ins[j], ins[i]
        elif a["op"] == "dropout":
            outs = outs[:-1]
        else:
            ins = ins[:-1]
        rec.ev("prog", act=a, obs=obs(), tol=12)


def large(rec, g, f, rng):
    """Many elements, channels and grid elements at once; each pair of elements has its own kernel."""
    k = kern.par(g)
    no, ni = int(rng.choice([1, 9, 24, 40])), int(rng.choice([1, 12, 24, 33]))
    gk = (int(rng.integers(3, 15)), int(rng.integers(3, 15))) if REFL[g] else int(rng.integers(6, 27))
    groups = int(rng.choice([1, 1, 3]))
    ci, co = groups * int(rng.integers(1, 3)), groups * int(rng.integers(1, 3))
    wide = rng.random() < 0.3
    if wide:
        ci, co, no, ni = 24, 36, min(no, 3), min(ni, 2)
        groups = int(rng.choice([1, 12]))
    opt = {} if f in ("lift",) or rng.random() < 0.5 else dict(group_sampling_mode="nearest")
    kr = KERNEL[(g, f)](ci, co, 3 if DIM[g] == 2 or f != "full" else 2, gk, groups=groups, **opt)
    outs, ins = [kern.element(g, rng, False) for _ in range(no)], [kern.element(g, rng, False) for _ in range(ni)]
    T = lambda rows: kern.tensor(g, rows)
    grid = kern.rows_of(g, kr.grid_H)

    def ok(o, i):
        r = kern.rel(k, outs[o], ins[i])
        return not opt or clear(np.array([kern.dist(k, r, x) if x[0] == r[0] else 9 for x in grid]))

    ipg = ci // groups
    with torch.no_grad():
        sp = [kr.grid_Rn.shape[0]] * DIM[g]
        if f == "lift":
            K = kr(T(outs))
            P = gen.few(no, rng, 3)
            part(rec, "elements", K, [co, no, ipg, *sp], lambda t, j: t[:, P[j]], [kr(T([outs[o]]))[:, 0] for o in P], tol=20, grp=g, form=f)
            return
        K = kr(T(ins), T(outs))
        P = [(int(rng.integers(no)), int(rng.integers(ni))) for _ in range(5)] + [(no - 1, ni - 1), (0, ni - 1), (no - 1, 0)]
        P = [p for p in P if ok(*p)]
        ones = [kr(T([ins[i]]), T([outs[o]])) for o, i in P]
        if f == "sep":
            part(rec, "elements", K[0], [co, no, ipg, ni, *[1] * DIM[g]], lambda t, j: t[:, P[j][0], :, P[j][1]], [t[0][:, 0, :, 0] for t in ones], tol=20, grp=g, form=f)
            part(rec, "spatial", K[1], [co, no, 1, *sp], lambda t, j: t[:, P[j][0]], [t[1][:, 0] for t in ones], tol=20, grp=g, form=f)
        else:
            part(rec, "elements", K, [co, no, ipg, ni, *sp], lambda t, j: t[:, P[j][0], :, P[j][1]], [t[:, 0, :, 0] for t in ones], tol=20, grp=g, form=f)

def run(rec, thorough, rng):
    for rep in range(60 if thorough else 12):
        for g in GROUPS:
            for f in FORMS:
                for via in (False, True):
                    with rec.trace(("kernel", g, f, rep, via)):
                        case(rec, g, f, rng, via)
        if rep % 3 == 0:
            for g in GROUPS:
                for f in FORMS:
                    with rec.trace(("large", g, f, rep)):
                        large(rec, g, f, rng)
        for _ in range(3):
            with rec.trace(("subgroup", rep)):
                subgroup(rec, rng)
    hs = tlc.simulate("MCKernel", "SimKernel.cfg", 60 if thorough else 15, 10, int(rng.integers(1, 10**6)))
    for h in gen.some(hs, 60 if thorough else 12, rng):
        for g in GROUPS:
            for f in ("sep", "full"):
                with rec.trace(("program", g, f)):
                    program(rec, h, g, f, rng)
        with rec.trace(("program", "sub")):
            program(rec, h, "SE3", "sub", rng)
