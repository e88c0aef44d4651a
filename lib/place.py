"""Calls and lives of models under precisions and devices, as the specification Placement sees them."""
import copy

import numpy as np
import torch
from torch import nn

import gconv.gnn as gnn

from . import accel, calls, kern
from .layers import DIM, FORMS, GROUPS, LAYER, REFL
from .rec import q

BITS = {torch.float32: 32, torch.float64: 64, torch.float16: 16, torch.bfloat16: 17}
TYPE = {32: torch.float32, 64: torch.float64}


def at(t):
    if not isinstance(t, torch.Tensor):
        return ["nowhere", 0]
    dev = "acc" if isinstance(t, accel.Remote) or isinstance(t.data, accel.Remote) else str(t.device)
    return [dev, BITS.get(t.dtype, 0)]


def device(dev):
    return accel.DEVICE if dev == "acc" else torch.device("cpu")


def put(t, dev, prec):
    t = t.detach().to(TYPE[prec])
    return accel.send(t) if dev == "acc" else t.clone()


def tensors(r):
    return [t for t in (r if isinstance(r, (tuple, list)) else [r]) if t is not None]


def numbers(r):
    return sum([q(accel.fetch(t), 1e4) for t in tensors(r)], [])


def short(e):
    return f"{type(e).__name__}: {e}"[:160]


class Default:
    """The default precision, put back at the end."""

    def __init__(self, prec):
        self.prec = prec

    def __enter__(self):
        self.before = torch.get_default_dtype()
        torch.set_default_dtype(TYPE[self.prec])

    def __exit__(self, *_):
        torch.set_default_dtype(self.before)


def apply(rec, name, args, fn, dev, prec):
    """A function of tensors, wherever and however fine they are."""
    ref = fn(*[put(a, "cpu", 32) for a in args])
    here = [put(a, dev, prec) for a in args]
    outs, y, error = [], [], ""
    try:
        with accel.Accelerator() if dev == "acc" else Default(BITS[torch.get_default_dtype()]):
            r = fn(*here)
            outs, y = [at(t) for t in tensors(r)], numbers(r)
    except Exception as e:
        error = short(e)
    rec.ev("apply", name=name, args=[at(a) for a in here], outs=outs, error=error, y=y, ref=numbers(ref))


def make(rec, name, random, fn, dev):
    outs, y, ref, error = [], [], [], ""
    try:
        if not random:
            ref = numbers(fn())
        with accel.Accelerator() if dev == "acc" else Default(BITS[torch.get_default_dtype()]):
            r = fn(device=device(dev)) if dev == "acc" else fn()
            outs, y = [at(t) for t in tensors(r)], numbers(r)
    except Exception as e:
        error = short(e)
    rec.ev("make", name=name, dev=dev, outs=outs, error=error, same=not random, y=y, ref=ref, indicator="mask" in name)


FAR, BELOW = 1e-4, 1e-10


def smooth(name, n):
    """The arguments in which a function has no edges where it is called."""
    return range(2) if "grid_sample" in name else (2,) if "BCC" in name else range(n)


def respond(rec, name, fn, args, rng):
    """How far results in double precision move with each argument."""
    with torch.no_grad():
        base = [t.detach().clone() for t in tensors(fn(*args))]
        for i in smooth(name, len(args)):
            a = args[i]
            v = torch.tensor(rng.normal(size=tuple(a.shape))) * (a.abs() != 1)  # coefficients stay
            size = []
            for h in (BELOW, FAR):
                moved = list(args)
                moved[i] = a + h * v
                r = tensors(fn(*moved))
                size.append(max([float(((x - b).abs() / h).max()) if x.numel() else 0.0 for x, b in zip(r, base)] or [0.0]))
            rec.ev("fine", name=f"{name} by argument {i + 1}", small=q(size[0], 1e4)[0], big=q(size[1], 1e4)[0])


class Net(nn.Module):
    """A layer, or a lifting layer followed by other modules; keeps the grids the layers return."""

    def __init__(self, mods):
        super().__init__()
        self.mods = nn.ModuleList(mods)

    def layers(self):
        return [m for m in self.mods if hasattr(m, "kernel")]

    def permute(self, b):
        for m in self.layers():
            m.permute_output_grid = b

    def forward(self, x, H=None, grids=None):
        out = []
        for m in self.mods:
            if hasattr(m, "kernel"):
                want = () if grids is None else (grids[len(out)],)
                x, H = m(x, H, *want) if H is not None else m(x, *want)
                out.append(H)
            else:
                x, H = m(x, H)
        return x, out


class Life:
    """One model built, cast, moved, loaded, trained and called."""

    def __init__(self, rec, g, rng):
        self.rec, self.g, self.rng = rec, g, rng
        self.dev, self.prec = "cpu", 32
        self.nearest = bool(rng.random() < 0.15)
        self.depth = int(rng.integers(1, 3))
        self.lifts = self.depth > 1 or rng.random() < 0.4
        self.forms = (["lift"] if self.lifts else [str(rng.choice(["sep", "full"]))]) + [str(rng.choice(["sep", "full"])) for _ in range(self.depth - 1)]
        self.size = (int(rng.integers(1, 4)), int(rng.integers(0, 3))) if REFL[g] else int(rng.integers(1, 4))
        self.kw = dict(groups=int(rng.choice([1, 2])), bias=bool(rng.random() < 0.6), mask=bool(rng.random() < 0.5), padding=1)
        self.extra = [str(e) for e in rng.choice(["norm", "act", "pool"], size=int(rng.integers(0, 3)))]
        self.wide = bool(rng.random() < 0.3)
        n = sum(self.size) if REFL[g] else self.size
        self.x = torch.tensor(rng.normal(size=(2, 2, *(() if self.lifts else (2,)), *(4,) * DIM[g])))
        self.in_H = kern.tensor(g, [kern.element(g, rng, False) for _ in range(2)])
        self.given = None
        if rng.random() < 0.3:
            k = kern.par(g)
            rows = [np.concatenate(([1.0], r)) for r in kern.spread(k, self.size[0] if REFL[g] else n, rng)]
            rows += [np.concatenate(([-1.0], r)) for r in kern.spread(k, self.size[1], rng)] if REFL[g] else []
            self.given = kern.tensor(g, rows)

    def modules(self):
        mods = []
        for i, f in enumerate(self.forms):
            kw = dict(self.kw)
            if self.given is not None:
                kw["grid_H"] = self.given.to(torch.get_default_dtype())
            if f != "lift" and self.nearest:
                kw["group_sampling_mode"] = "nearest"
            elif f != "lift" and self.wide:
                kw.update({"group_rotation_sampling_width": 0.7, "group_reflection_sampling_width": 0.8} if REFL[self.g] else {"group_sampling_width": 0.7})
            mods.append(LAYER[(self.g, f)](2, 2, 3, group_kernel_size=self.size, **kw))
            if i == 0:
                d = DIM[self.g]
                for e in self.extra:
                    mods.append({"norm": lambda: getattr(gnn, f"GBatchNorm{d}d")(2), "act": gnn.GGELU,
                                 "pool": lambda: getattr(gnn, f"GAvgSpatialPool{d}d")(2, stride=1)}[e]())
        return mods

    def state(self):
        return {k: accel.fetch(v) for k, v in self.net.state_dict().items()}

    def slots(self, grads=False):
        out = [["mask" if n.endswith("mask") else "value", *at(t)] for n, t in [*self.net.named_parameters(), *self.net.named_buffers()] if t.is_floating_point()]
        if grads:
            out += [["value", *at(p.grad)] for p in self.net.parameters()]
        return out

    def args(self):
        x = put(self.x, self.dev, self.prec)
        return (x,) if self.lifts else (x, put(self.in_H, self.dev, self.prec))

    def step(self, a):
        o, rng = a["op"], self.rng
        error, grads = "", False
        try:
            if o == "build":
                self.net = Net(self.modules())
                self.dev, self.prec = "cpu", BITS[torch.get_default_dtype()]
                with Default(32):
                    self.twin = copy.deepcopy(self.net).to(torch.float32)
                self.net.train(bool(rng.random() < 0.6))
            elif o == "move":
                self.dev = a["dev"]
                self.net = self.net.to(device(self.dev))
            elif o == "cast":
                self.prec = a["prec"]
                self.net = self.net.to(TYPE[self.prec]) if rng.random() < 0.5 else self.net.double() if self.prec == 64 else self.net.float()
            elif o == "load":
                sd = {k: put(v, a["dev"], a["prec"]) if v.is_floating_point() else v for k, v in self.state().items()}
                self.net.load_state_dict(sd)
            elif o == "train":
                grads = True
                opt = torch.optim.SGD(self.net.parameters(), lr=0.01, momentum=0.9 if rng.random() < 0.5 else 0.0, foreach=False)
                mode = self.net.training
                self.net.train()
                y, _ = self.net(*self.args())
                (y * y).mean().backward()
                opt.step()
                self.net.train(mode)
            elif o == "forward":
                return self.call(a["permute"])
        except Exception as e:
            error = short(e)
        self.rec.ev(o, dev=a["dev"], prec=a["prec"], error=error, slots=self.slots(grads) if hasattr(self, "net") else [])
        if error:
            raise Dead
        if grads:
            self.net.zero_grad()

    def call(self, permute):
        self.net.permute(permute)
        outs, y, ref, error = [], [], [], ""
        try:
            before = self.state()
            with torch.no_grad():
                r, grids = self.net(*self.args())
            outs = [at(r)] + [at(h) for h in grids]
            y = [] if self.nearest else numbers((r, *grids))
            with Default(32), torch.no_grad():
                self.twin.load_state_dict({k: v.to(torch.float32) if v.is_floating_point() else v for k, v in before.items()})
                self.twin.train(self.net.training)
                self.twin.permute(False)
                x = [put(t, "cpu", 32) for t in ((self.x,) if self.lifts else (self.x, self.in_H))]
                hs = [accel.fetch(h).to(torch.float32) for h in grids]
                ref = [] if self.nearest else numbers((self.twin(*x, grids=hs)[0], *hs))
        except Exception as e:
            error = short(e)
        self.rec.ev("forward", permute=permute, outs=outs, error=error, y=y, ref=ref, slots=self.slots())
        if error:
            raise Dead
        if self.prec == 64 and self.dev == "cpu" and not self.net.training and not self.nearest:
            self.fine()

    def fine(self):
        """Responses of the model in double precision to its input, its grids and its weights."""
        self.net.permute(False)

        def some(n):
            k = kern.par(self.g)
            rows = calls.generic(n, self.rng) if k == "quat" else [[float(self.rng.uniform(0.2, 6))] for _ in range(n)]
            return kern.tensor(self.g, [[float(self.rng.choice([1.0, -1.0])) if REFL[self.g] else 1.0, *r] for r in rows]).double()

        grids = [some(2) for _ in self.forms]
        x = (self.x,) if self.lifts else (self.x, some(2))
        respond(self.rec, "network, input", lambda x0: self.net(x0, *x[1:], grids=grids)[0], [x[0]], self.rng)
        respond(self.rec, "network, grid", lambda *hs: self.net(*x, grids=list(hs))[0], grids, self.rng)
        ps = list(self.net.parameters())

        def weights(*ws):
            kept = [p.detach().clone() for p in ps]
            for p, w in zip(ps, ws):
                p.copy_(w)
            y = self.net(*x, grids=grids)[0]
            for p, k in zip(ps, kept):
                p.copy_(k)
            return y

        respond(self.rec, "network, weights", weights, [p.detach().clone() for p in ps], self.rng)


class Dead(Exception):
    pass


def life(rec, g, h, rng):
    """Replays one behaviour of MCPlacement on a model."""
    w = Life(rec, g, rng)
    before = torch.get_default_dtype()
    far = any(a["dev"] == "acc" for a in h)
    acc = accel.Accelerator() if far else Default(32)
    torch.manual_seed(int(rng.integers(1, 10**6)))
    try:
        with acc:
            for a in h:
                if a["op"] == "default":
                    torch.set_default_dtype(TYPE[a["prec"]])
                    rec.ev("default", prec=a["prec"])
                else:
                    w.step(a)
    except Dead:
        pass
    finally:
        torch.set_default_dtype(before)
