"""C17: saved models restore exactly and models do not affect each other."""
import copy
import io
import pickle

import numpy as np
import torch
from torch import nn

import gconv.gnn as gnn
from lib import gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, LAYER, REFL
from lib.rec import crc, q

TRACE = "TraceC17"
MODELS = [("MCModelStore", "MCModelStore.cfg", "MCModelStore_thorough.cfg")]
ASSUMPTIONS = ["a saved state is what torch.save writes or a deep copy of state_dict()"]


class Net(nn.Module):
    """A layer, or a lifting layer followed by others; output elements are fixed when it is probed."""

    def __init__(self, mods):
        super().__init__()
        self.mods = nn.ModuleList(mods)

    def forward(self, x, *grids):
        H, i = None, 0
        for m in self.mods:
            if hasattr(m, "kernel"):
                if i == 0 and len(grids) == 3:  # a single layer on lifted features
                    x, H = m(x, grids[0], grids[1])
                elif i == 0:
                    x, H = m(x, grids[0])
                else:
                    x, H = m(x, H, grids[min(i, len(grids) - 1)])
                i += 1
            else:
                x, H = m(x, H)
        return x


def size(g, plan):
    return plan["size"] if REFL[g] else plan["size"][0]


def plan(g, rng):
    """The arguments with which all models of one trace are built."""
    n = (int(rng.integers(1, 4)), int(rng.integers(0, 3)))
    depth = int(rng.integers(1, 3))
    return dict(forms=["lift"] + [str(rng.choice(["sep", "full"])) for _ in range(depth - 1)] if rng.random() < 0.6 else [str(rng.choice(["sep", "full"]))],
                size=n, mode=str(rng.choice(["rbf", "rbf", "nearest"])), norm=bool(rng.random() < 0.4), bias=bool(rng.random() < 0.6),
                groups=int(rng.choice([1, 2])), explicit=float(rng.choice([0, 0, 0, 0.7, 0.08])), mask=bool(rng.random() < 0.5), act=bool(rng.random() < 0.4))


def build(g, p, grid, rng):
    mods = []
    for i, f in enumerate(p["forms"]):
        kw = dict(groups=p["groups"], bias=p["bias"], mask=p["mask"], padding=1)
        if grid is not None:
            kw["grid_H"] = grid
        if f != "lift":
            kw["group_sampling_mode"] = p["mode"]
            if p["explicit"]:
                kw.update({"group_rotation_sampling_width": p["explicit"], "group_reflection_sampling_width": 0.8} if REFL[g] else {"group_sampling_width": p["explicit"]})
        mods.append(LAYER[(g, f)](2, 2, 3, group_kernel_size=size(g, p), **kw))
        if p["norm"]:
            mods.append(getattr(gnn, f"GBatchNorm{DIM[g]}d")(2))
        if p["act"]:
            mods.append(gnn.GReLU())
    return Net(mods)


def rand_grid(g, p, rng):
    nr, nf = p["size"]
    rows = [np.concatenate(([1.0], r)) for r in kern.spread(kern.par(g), nr, rng)]
    if REFL[g] and nf:
        rows += [np.concatenate(([-1.0], r)) for r in kern.spread(kern.par(g), nf, rng)]
    return kern.tensor(g, rows)


class World:
    def __init__(self, g, rng):
        self.g, self.rng, self.p = g, rng, plan(g, rng)
        self.m, self.grids, self.s = {}, {}, {}
        for i in (1, 2):
            self.grids[f"g{i}"] = rand_grid(g, self.p, rng)
        lift = self.p["forms"][0] == "lift"
        els = lambda n: kern.tensor(g, [kern.element(g, rng, False) for _ in range(n)])
        self.probe_grids = [els(2) for _ in range(len(self.p["forms"]))] if lift else [els(2), els(2), None]
        self.x = torch.tensor(rng.integers(-3, 4, size=(2, 2, *(() if lift else (2,)), *(3,) * DIM[g])), dtype=torch.float32)

    def probe(self, m):
        modes = [(k, k.training) for k in m.modules()]
        perm = [(k, k.permute_output_grid) for k in m.modules() if hasattr(k, "permute_output_grid")]
        m.eval()
        for k, _ in perm:
            k.permute_output_grid = False
        with torch.no_grad():
            y = m(self.x, *self.probe_grids)
        for k, t in modes:
            k.training = t
        for k, t in perm:
            k.permute_output_grid = t
        return y

    def now(self):
        out = []
        for n, m in self.m.items():
            y = self.probe(m)
            out.append(dict(name=n, fp=self.fp(m.state_dict()), y=q(y, 1e4), yc=crc(y)))
        for n, t in self.grids.items():
            out.append(dict(name=n, fp=crc(t), y=[], yc=0))
        for n, (kind, sd, y) in self.s.items():
            out.append(dict(name=n, fp=self.fp(self.state(n)), y=q(y, 1e4), yc=crc(y)))
        return out

    def fp(self, sd):
        return crc([torch.tensor([float(len(sd))])] + [sd[k] for k in sorted(sd)])

    def state(self, n):
        kind, sd, _ = self.s[n]
        return torch.load(io.BytesIO(sd)) if kind == "bytes" else sd

    def load(self, m, sd):
        u = self.rng.random()
        if u < 0.6:
            m.load_state_dict(sd)
        elif u < 0.8:
            m.load_state_dict({k: sd[k].clone() for k in reversed(list(sd))}, assign=bool(self.rng.random() < 0.5))
        else:  # one module after the other
            for n, k in m.mods.named_children():
                k.load_state_dict({a.split(".", 2)[2]: v for a, v in sd.items() if a.startswith(f"mods.{n}.")})

    def train(self, m):
        rng = self.rng
        opt = torch.optim.SGD(m.parameters(), lr=0.05) if rng.random() < 0.5 else torch.optim.Adam(m.parameters(), lr=0.05)
        m.train()
        for _ in range(2):
            opt.zero_grad()
            y = m(torch.randn_like(self.x), *self.probe_grids)
            (y * torch.randn_like(y)).sum().backward()
            opt.step()

    def touch(self, m):
        """Somebody changes what is inside a model."""
        k = [x for x in m.modules() if hasattr(x, "kernel")]
        k = k[int(self.rng.integers(len(k)))]
        with torch.no_grad():
            u = self.rng.random()
            if u < 0.5:
                e = kern.element(self.g, self.rng, False)
                e[0] = 1.0
                k.kernel.grid_H.copy_(kern.tensor(self.g, [kern.mul(kern.par(self.g), e, r) for r in kern.rows_of(self.g, k.kernel.grid_H)]))
            elif u < 0.7:
                k.kernel.weight.add_(1.0)
            elif u < 0.8:
                k.kernel.grid_Rn.mul_(0.9)
            elif u < 0.9 and k.kernel.mask is not None:
                k.kernel.mask.mul_(0.5)
            else:
                k.reset_parameters()

    def edit(self, t):
        with torch.no_grad():
            t.copy_(rand_grid(self.g, self.p, self.rng))

    def move(self, m):
        u = self.rng.random()
        if u < 0.4:
            m.to("cpu")
        elif u < 0.7:
            m.to(torch.float32)
        else:
            m.float().requires_grad_(True)

    def call(self, m):
        mode = [(k, k.training) for k in m.modules()]
        m.eval()
        y = m(self.x + 1, *self.probe_grids)
        if self.rng.random() < 0.5:
            y.sum().backward()
            m.zero_grad()
        for k, t in mode:
            k.training = t


def program(rec, g, h, rng):
    w = World(g, rng)
    rec.ev("begin", grp=g, now=w.now())
    for a in h:
        o, t, s = a["op"], a["t"], a["s"]
        tgt, src, ongrid, error = f"m{t}", "", True, ""
        try:
            if o == "build":
                grid = w.grids[f"g{s}"] if s else None
                w.m[tgt] = build(g, w.p, grid, rng)
                if grid is not None:
                    ongrid = all(crc(k.kernel.grid_H) == crc(grid) for k in w.m[tgt].modules() if hasattr(k, "kernel"))
            elif o in ("train", "touch", "move"):
                getattr(w, o)(w.m[tgt])
            elif o == "forward":
                w.call(w.m[tgt])
            elif o == "edit":
                tgt = f"g{t}"
                w.edit(w.grids[tgt])
            elif o == "save":
                tgt, src = f"s{t}", f"m{s}"
                m = w.m[src]
                y = w.probe(m)
                if rng.random() < 0.5:
                    b = io.BytesIO()
                    torch.save(m.state_dict(), b)
                    w.s[tgt] = ("bytes", b.getvalue(), y)
                else:
                    w.s[tgt] = ("dict", copy.deepcopy(m.state_dict()), y)
            elif o == "load":
                src = f"s{s}"
                w.m[tgt].train(bool(rng.random() < 0.5))
                w.load(w.m[tgt], w.state(src))
            elif o == "copy":
                src = f"m{s}"
                w.m[tgt] = copy.deepcopy(w.m[src])
            elif o == "pickle":
                src = f"m{s}"
                w.m[tgt] = pickle.loads(pickle.dumps(w.m[src]))
        except Exception as e:
            error = f"{type(e).__name__}: {e}"[:200]
            if tgt not in w.m and tgt not in w.s and tgt not in w.grids:
                raise
        rec.ev(o, target=tgt, src=src, ongrid=ongrid, error=error, now=w.now())


def run(rec, thorough, rng):
    hs = gen.some(tlc.simulate("MCModelStore", "SimModelStore.cfg", 200 if thorough else 60, 15, int(rng.integers(1, 10**6))), 400, rng)
    for rep in range(120 if thorough else 40):
        for g in GROUPS:
            with rec.trace(("store", g, rep)):
                program(rec, g, hs[int(rng.integers(len(hs)))], rng)
