"""C16: every well-typed network runs and keeps features and grid in step."""
import importlib
import pkgutil

import numpy as np
import torch
from torch import nn

import gconv
import gconv.gnn as gnn
from lib import gen, kern, tlc
from lib.layers import LAYER, REFL
from lib.rec import attempt, shape

TRACE = "TraceC16"
MODELS = [("MCPipeline", "MCPipeline.cfg", "MCPipeline_thorough.cfg")]
ASSUMPTIONS = ["networks of up to ten modules with up to nine elements per kernel"]


class Plain(nn.Module):
    def forward(self, x):
        return torch.sigmoid(x)


def module(g, f, m, rng):
    """The module m, for features f."""
    o, nd = m["op"], f"{f['dim']}d"
    if o in ("lift", "sep", "full"):
        size = (m["nr"], m["nf"]) if REFL[g] else m["nr"]
        kw = dict(groups=m["groups"], stride=m["s"], dilation=m["d"], padding=m["p"] if m["pad"] == "amount" else m["pad"], padding_mode=m["mode"],
                  bias=bool(rng.random() < 0.5), mask=bool(rng.random() < 0.5))
        if rng.random() < 0.5:
            kw["permute_output_grid"] = bool(rng.random() < 0.5)
        if rng.random() < 0.3:
            n = m["nr"] + (m["nf"] if REFL[g] else 0)
            k = kern.par(g)
            rows = [np.concatenate(([1.0], r)) for r in kern.spread(k, m["nr"], rng)]
            if REFL[g]:
                rows += [np.concatenate(([-1.0], r)) for r in kern.spread(k, m["nf"], rng)]
            assert len(rows) == n
            kw["grid_H"] = kern.tensor(g, rows)
        if o != "lift" and rng.random() < 0.3:
            kw["group_sampling_mode"] = "nearest"
        if rng.random() < 0.2:
            kw["sampling_mode" if o == "lift" else "spatial_sampling_mode"] = "nearest"
        return LAYER[(g, o)](f["C"], m["co"], m["k"], group_kernel_size=size, **kw)
    if o in ("GReLU", "GGELU", "GLeakyReLU"):
        return getattr(gnn, o)()
    if o == "GWrap":
        return gnn.GWrap(Plain())
    if o in ("GBatchNorm", "GInstanceNorm"):
        return getattr(gnn, o + nd)(f["C"])
    if o == "GLayerNorm":
        return gnn.GLayerNorm(([f["N"], f["C"], f["H"], *f["sp"]])[-m["last"]:])
    if o.endswith("SpatialPool"):
        if "Adaptive" in o:
            return getattr(gnn, o + nd)(m["size"])
        return getattr(gnn, o + nd)(m["k"], stride=m["s"], padding=m["p"], ceil_mode=m["ceil"])
    return getattr(gnn, o)()


def mixed(g, f, m, rng):
    """In training mode or not."""
    return module(g, f, m, rng).train(bool(rng.random() < 0.7))


def network(rec, h, rng):
    f, mods = dict(h[0]), h[1:]
    g = {(2, False): "SE2", (2, True): "E2", (3, False): "SE3", (3, True): "E3"}[(f["dim"], f["refl"])]
    x = torch.randn(f["N"], f["C"], *f["sp"])
    H = None
    rec.ev("input", f=h[0], grp=g)
    for m in mods:
        ok, mod = attempt(mixed, g, f, m, rng)
        if not ok:
            rec.ev("module", m=m, error="building: " + mod, kind="", shape=[], grid=0, finite=False, float=False)
            return
        more = ()
        if m["op"] in ("lift", "sep", "full"):
            if m["no"] > 0:
                more = (kern.tensor(g, [kern.element(g, rng, bool(rng.random() < 0.3)) for _ in range(m["no"])]),)
            a = (x, *more) if m["op"] == "lift" else (x, H, *more)
        else:
            a = (x, H)
        ok, r = attempt(mod, *a)
        if not ok:
            rec.ev("module", m=m, error=r, kind="", shape=[], grid=0, finite=False, float=False)
            return
        kind = "tensor" if isinstance(r, torch.Tensor) else "pair" if isinstance(r, tuple) and len(r) == 2 else type(r).__name__
        x, H = (r, None) if kind == "tensor" else r
        rec.ev("module", m=m, error="", kind=kind, shape=shape(x), grid=len(H) if H is not None else 0,
               finite=bool(torch.isfinite(x).all()), float=x.dtype == torch.float32)
        s = shape(x)
        f = dict(f, C=s[1], H=s[2] if kind == "pair" else 0, sp=s[3:] if kind == "pair" else s[2:])


def names(rec):
    """What the packages say they offer is there."""
    for m in pkgutil.walk_packages(gconv.__path__, "gconv."):
        if ".tests" in m.name:
            continue
        mod = importlib.import_module(m.name)
        rec.ev("names", module=m.name, missing=[n for n in getattr(mod, "__all__", []) if not hasattr(mod, n)])


def run(rec, thorough, rng):
    with rec.trace("names"):
        names(rec)
    hs = tlc.simulate("MCPipeline", "SimPipeline.cfg", 3000 if thorough else 500, 11, int(rng.integers(1, 10**6)))
    for h in hs:
        with rec.trace(("network", h[0]["dim"], h[0]["refl"])):
            network(rec, h, rng)
