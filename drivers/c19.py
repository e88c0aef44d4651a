"""C19: constructor options are honoured or rejected."""
import numpy as np
import torch

from lib import gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, KERNEL, LAYER, REFL, set_int_weights
from lib.rec import attempt, crc, q, qn, shape
from drivers.c10 import certify, nest
from gconv.gnn.kernels.kernel_sen.kernel_so3 import GSubgroupKernelSO3

TRACE = "TraceC19"
MODELS = [("MCOptions", "MCOptions.cfg", "MCOptions_thorough.cfg")]
ASSUMPTIONS = ["unknown sampling modes are not covered: the property only names padding strings and modes"]
FLAG = {"yes": True, "no": False}


def number(v, dim, rng):
    """One number or one per axis."""
    if len(v) == 1:
        return v[0] if rng.random() < 0.7 else (v[0],) * dim
    return tuple(v[min(a, len(v) - 1)] for a in range(dim))


def arguments(o, g, rng):
    kw = {}
    dim = DIM[g]
    if o["gsize"]:
        kw["group_kernel_size"] = o["gsize"][0] if len(o["gsize"]) == 1 else tuple(o["gsize"])
    for f, name in (("stride", "stride"), ("dil", "dilation")):
        if o[f]:
            kw[name] = number(o[f], dim, rng)
    if o["groups"]:
        kw["groups"] = o["groups"][0]
    if o["pad"]:
        kw["padding"] = number(o["amount"], dim, rng) if o["pad"] == "amount" else o["pad"]
    if o["mode"]:
        kw["padding_mode"] = o["mode"]
    for f, name in (("bias", "bias"), ("mask", "mask"), ("perm", "permute_output_grid")):
        if o[f]:
            kw[name] = FLAG[o[f]]
    return kw


def build(rec, g, f, o, rng, brief=False):
    dim, k = DIM[g], kern.par(g)
    o = dict(o, refl=REFL[g], dim=dim)
    if REFL[g] and f != "lift" and not o["gsize"]:
        o["gsize"] = [4]  # has no default
    kw = arguments(o, g, rng)
    given = []
    if o["grid"]:
        r, fl = o["grid"]
        given = [np.concatenate(([c], e)) for c, n in ((1.0, r), (-1.0, fl)) for e in (kern.spread(k, n, rng) if n else [])]
        kw["grid_H"] = kern.tensor(g, given)
    ok, mod = attempt(LAYER[(g, f)], o["in"], o["out"], o["k"], **kw)
    if not ok:
        rec.ev("build", o=o, raised=True, why=mod)
        return
    L = 6 if dim == 2 else 5
    set_int_weights(mod, rng, 3)
    rows = kern.fixrows(k, kern.rows_of(g, mod.kernel.grid_H))
    wn = 0 if f == "lift" else int((mod.kernel.weight_H if f == "sep" else mod.kernel.weight).shape[0])
    ni = int(rng.integers(1, 3))
    ins = [kern.element(g, rng, False) for _ in range(ni)]
    I = kern.tensor(g, ins)
    O = kern.tensor(g, [kern.element(g, rng, False) for _ in range(int(rng.integers(1, 4)))])
    x = torch.tensor(rng.integers(-2, 3, size=(1, o["in"], *((L,) * dim if f == "lift" else (ni, *(L,) * dim)))), dtype=torch.float32)
    args = (x, O) if f == "lift" else (x, I, O)
    with torch.no_grad():
        ran, res = attempt(mod, *args)
        y, H = res if ran else (torch.zeros(1), O)
    pr, _ = attempt(repr, mod)
    e = dict(o=o, form=f, L=L, kd=k)
    rec.ev("build", raised=False, rows=rows, given=kern.fixrows(k, given) if given else [], wn=wn, bias=mod.bias is not None,
           mask=mod.kernel.mask is not None, repr=pr, ran=ran, so=shape(y), no=len(O), moved=crc(O) != crc(H), **e)
    if not ran or brief or (dim == 3 and (y.numel() > 1500 or o["in"] > 2)) or y.numel() * o["k"] ** dim * o["in"] * ni > 120000:
        return
    with torch.no_grad():
        K = mod.kernel(H) if f == "lift" else mod.kernel(I, H)
    K1 = nest(K[0].flatten(4), 4) if f == "sep" else nest(K, 3 if f == "lift" else 4)
    if f == "sep":
        K1 = [[[[v[0] for v in i] for i in a] for a in c] for c in K1]
    rec.ev("run", K=K1, KS=nest(K[1], 2) if f == "sep" else [], ni=ni if f != "lift" else 1, no=len(O), sc=1000,
           x=nest(x, 3, 1) if f != "lift" else [[[c] for c in n] for n in nest(x, 2, 1)],
           b=q(mod.bias, 1e3) if mod.bias is not None else [0] * o["out"], y=nest(y, 3), so=shape(y), **e)


def default_width(k, grid):
    out = []
    for c in (1.0, -1.0):
        p = [r for r in grid if r[0] == c]
        out.append(0.8 * float(np.mean([min(kern.dist(k, a, b) for j, b in enumerate(p) if j != i) for i, a in enumerate(p)])) if len(p) > 1 else 1.0)
    return out


def tame(k, grid, w):
    for c, wd in ((1.0, w[0]), (-1.0, w[1])):
        p = [r for r in grid if r[0] == c]
        if len(p) > 1 and np.abs(np.linalg.inv(np.exp2(-((kern.D(k, p, p) / wd) ** 2)))).sum(1).max() > 10:
            return False
    return True


def pairs(g, f, rng):
    """A reference grid with neighbours in both classes, of uneven spacing."""
    k = kern.par(g)
    nr = int(rng.integers(2, 5))
    nf = int(rng.choice([0, 2, 3])) if REFL[g] else 0
    if k == "angle":
        some = lambda n: [np.array([a]) for a in np.sort(rng.uniform(0, 2 * np.pi, n))]
    else:
        some = lambda n: [gen.rand_quat(rng) for _ in range(n)]
    out = [np.concatenate(([1.0], e)) for e in some(nr)] + [np.concatenate(([-1.0], e)) for e in some(nf)]
    if any(a[0] == b[0] and kern.dist(k, a, b) < 0.15 for i, a in enumerate(out) for b in out[:i]):
        return pairs(g, f, rng)
    return out


def kernel(rec, g, f, rng, via_layer):
    """A kernel or layer with a random subset of its sampling options."""
    sub = f == "sub"
    dim, k = (3, "quat") if sub else (DIM[g], kern.par(g))
    omit = lambda vals: "" if rng.random() < 0.4 else str(rng.choice(vals))
    opt = dict(gmode=omit(["rbf", "rbf", "nearest"]), smode=omit(["bilinear", "nearest"]), spad=omit(["border", "zeros", "reflection"]), mask="no" if rng.random() < 0.4 else omit(["yes", "no"]), w=[0, 0])
    refl = not sub and REFL[g]
    n = 1 if sub else int(rng.choice([2, 3, 4] if dim == 2 else [2, 3]))
    gk = None
    if f != "lift" and rng.random() < 0.3:  # default grid
        gk = (int(rng.integers(2, 6)), int(rng.choice([0, 2, 3]))) if refl else int(rng.integers(2, 7))
    groups = int(rng.choice([1, 2]))
    ipg, opg = int(rng.integers(1, 3)), 1
    while True:
        grid = None if gk else pairs("SE3" if sub else g, f, rng)
        given = [0.0, 0.0]
        if f != "lift":
            which = rng.random(2) < 0.5
            if not refl:
                which[1] = False
            if grid is None:
                kr0 = (GSubgroupKernelSO3(1, 1, gk) if sub else KERNEL[(g, f)](1, 1, 1, gk))
                t = kr0.grid_H
                grid_rows = [np.concatenate(([1.0], r)) for r in t.double().numpy()] if sub else kern.rows_of(g, t)
            else:
                grid_rows = grid
            w = default_width(k, grid_rows)
            for i in range(2):
                if which[i]:
                    given[i] = w[i] = round(float(w[i] * (rng.uniform(0.6, 1.3) if rng.random() < 0.6 else rng.uniform(0.02, 0.4))), 4)
            if not tame(k, grid_rows, w):
                continue
        else:
            grid_rows, w = grid, [1.0, 1.0]
        break
    kw = {}
    if f == "lift":
        names = {"smode": "sampling_mode", "spad": "sampling_padding_mode"}
    elif sub:
        names = {"gmode": "sampling_mode"}
    else:
        names = {"gmode": "group_sampling_mode", "smode": "spatial_sampling_mode", "spad": "spatial_sampling_padding_mode"}
    for o, name in names.items():
        if opt[o]:
            kw[name] = opt[o]
    if opt["mask"] and not sub:
        kw["mask"] = FLAG[opt["mask"]]
    for i, name in enumerate(("group_rotation_sampling_width", "group_reflection_sampling_width") if refl else (("sampling_width",) if sub else ("group_sampling_width",))):
        if given[i]:
            kw[name] = given[i]
    opt["w"] = q(torch.tensor(given), 1e5)
    if grid is not None:
        kw["grid_H"] = torch.tensor(np.array([r[1:] for r in grid]), dtype=torch.float32) if sub else kern.tensor(g, grid)
    size = gk if gk else ((2, 1) if refl else 3)
    ci, co = groups * ipg, groups * opg
    if sub:
        kr = GSubgroupKernelSO3(ci, co, size, groups=groups, **kw)
    else:
        mod = (LAYER if via_layer else KERNEL)[(g, f)](ci, co, n, group_kernel_size=size, groups=groups, **kw)
        kr = mod.kernel if via_layer else mod
    set_int_weights(kr, rng, 5)
    G = "SE3" if sub else g
    no, ni = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    outs, ins = [kern.element(G, rng, False) for _ in range(no)], [kern.element(G, rng, False) for _ in range(ni)]
    O, I = kern.tensor(G, outs), kern.tensor(G, ins)
    c0 = crc([O, I])
    with torch.no_grad():
        K = kr(O) if f == "lift" else kr(I, O)
    gm = opt["gmode"] or "rbf"
    rec_k = {"k": k, "dim": dim, "n": 0 if sub else n, "grid": kern.fixrows(k, grid_rows), "nr": sum(1 for r in grid_rows if r[0] > 0), "gmode": "", "w": [1, 1],
             "smode": "", "spad": "", "grn": [] if sub else qn(kr.grid_Rn.reshape(-1, dim), 1e4), "mask": [], "det": refl, "c": []}
    e = {"grp": G, "form": f, "opt": opt, "outs": kern.fixrows(k, outs), "ins": kern.fixrows(k, ins), "c0": c0, "c1": crc([O, I]), "nout": co, "nin": ipg, "d": [], "dg": []}
    if f != "lift":
        W = (kr.weight_H if f == "sep" else kr.weight).detach().double().numpy().reshape(len(grid_rows), -1)
        e["wH"] = W.astype(int).tolist()
        if gm == "rbf":
            certify(rec_k, e, k, grid_rows, w, W, outs, ins)
        else:
            e["dg"] = []
    if f == "lift":
        rec.ev("kernel", k=rec_k, w=nest(kr.weight, 2, 1), obs=nest(K, 3), so=shape(K), **e)
    elif f == "sep":
        rec.ev("kernel", k=rec_k, wS=nest(kr.weight, 1, 1), oH=nest(K[0], 3), oS=nest(K[1], 2), so=shape(K[0]), ss=shape(K[1]), **e)
    elif f == "full":
        rec.ev("kernel", k=rec_k, obs=nest(K, 4), so=shape(K), **e)
    else:
        rec.ev("kernel", k=rec_k, oH=nest(K, 3), so=shape(K), **e)


def run(rec, thorough, rng):
    for cfg, groups in (("SimOptions.cfg", ("E2", "E3")), ("SimOptionsS.cfg", ("SE2", "SE3"))):
        hs = tlc.simulate("MCOptions", cfg, 60 if thorough else 20, 9, int(rng.integers(1, 10**6)))
        for h in gen.some(hs, 150 if thorough else 30, rng):
            for g in groups:
                for f in FORMS:
                    with rec.trace(("options", g, f)):
                        for o in h:
                            build(rec, g, f, o, rng)
    for cfg, groups, n in (("PairOptions.cfg", ("E2", "E3"), 3000), ("PairOptionsS.cfg", ("SE2", "SE3"), 1000)):
        os_ = gen.some(tlc.enumerate_all("MCOptions", cfg), 9999 if thorough else n, rng)
        for i in range(0, len(os_), 8):
            g, f = str(rng.choice(groups)), str(rng.choice(FORMS))
            with rec.trace(("pairs", g, f)):
                for o in os_[i:i + 8]:
                    build(rec, g, f, o, rng, rng.random() < 0.9)
    for rep in range(40 if thorough else 14):
        for f in ("sub", "sub"):
            with rec.trace(("kernel", "SO3", rep)):
                kernel(rec, "SE3", "sub", rng, False)
        for g in GROUPS:
            for f in FORMS:
                for via in (False, True):
                    with rec.trace(("kernel", g, f, rep, via)):
                        kernel(rec, g, f, rng, via)
