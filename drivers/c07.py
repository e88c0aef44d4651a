"""C07: the grid cache."""
import numpy as np
import torch

from lib import gen, tlc
from lib.rec import Interner, attempt, crc, shape
import gconv.gnn as gnn
from gconv.geometry import so2, o2, so3
from gconv.geometry.groups import o3, _grid_cache

TRACE = "TraceC07"
MODELS = [("MCRegistry", "MCRegistry.cfg", "MCRegistry_thorough.cfg")]


def run(rec, thorough, rng):
    hists = tlc.simulate("MCRegistry", "SimRegistry.cfg", 150 if thorough else 40, 25, int(rng.integers(1, 10**6)))
    for i, h in enumerate(gen.some(hists, 150 if thorough else 36, rng)):
        n = 26 + i * 37 % 150  # sizes that no earlier history cached
        keys = [(int(rng.integers(2, 25)), "matrix"), (1 if i % 3 == 0 else int(rng.integers(2, 25)), "matrix"), (n, "matrix"),
                (1 if i % 3 == 1 else int(rng.integers(1, 25)), "quat"), (n, "quat"), (n if i % 2 else 5, "euler")]
        if keys[0] == keys[1]:
            continue
        replay(rec, h, keys, rng)
    for name, fn in [("so2", lambda: so2.uniform_grid(5)), ("o2", lambda: o2.uniform_grid((4, 3))), ("o3", lambda: o3.uniform_grid((4, 0))),
                     ("o3", lambda: o3.uniform_grid((0, 6))), ("o3", lambda: o3.uniform_grid((1, 1))), ("o3", lambda: o3.uniform_grid((8, 8))),
                     ("o3m", lambda: o3.uniform_grid((6, 0), matrix_only=True)), ("o3m", lambda: o3.uniform_grid((3, 5), matrix_only=True)),
                     ("tetra", so3.tetrahedral), ("octa", so3.octahedral), ("icosa", so3.icosahedral), ("klein", so3.klein_group), ("id", so3.identity)]:
        with rec.trace(("again", name)):
            g = fn()
            first = crc(g)
            g.mul_(-0.5).add_(3.0)
            mutated = crc(g)
            rec.ev("again", name=name, first=first, mutated=mutated, again=crc(fn()))


def spell(p, rng):
    """Names are accepted in any case."""
    return p if rng.random() < 0.6 else [p.upper(), p.capitalize(), p.swapcase()][int(rng.integers(3))]


def replay(rec, h, keys, rng):
    tok = Interner()
    held, model = [None] * 3, [None] * 2

    def probe():
        out = []
        for n, p in keys:
            ok, g = attempt(_grid_cache.load_grid, n, *[spell(v, rng) for v in ("so3", p)])
            out.append(tok(crc(g)) if ok else 0)
        return out

    T = lambda t: 0 if t is None else tok(crc(t))
    state = lambda: dict(probe=probe(), held=[T(x) for x in held], model=[T(None if m is None else m.kernel.grid_H) for m in model])
    with rec.trace(("registry", keys)):
        rec.ev("start", keys=keys, **state())
        for a in h:
            so = []
            if a["op"] == "request":
                n, p = keys[a["k"] - 1]
                p = spell(p, rng)
                kw = {"cache_grid": True} if a["flag"] else {}
                g = so3.uniform_grid(n, p, steps=1, show_pbar=False, **kw)
                held[a["s"] - 1] = g
                so = shape(g)
            elif a["op"] == "mutate":
                g = held[a["s"] - 1]
                r = int(rng.integers(3))
                if r == 0:
                    g.add_(float(rng.uniform(0.1, 1)))
                elif r == 1:
                    g[int(rng.integers(len(g)))] = float(rng.uniform(-1, 1))
                else:
                    g.copy_(torch.randn(g.shape))
            elif a["op"] == "save":
                g = held[a["s"] - 1]
                p = {3: "matrix", 2: {4: "quat", 3: "euler"}.get(g.shape[-1])}[g.ndim]
                p = spell(p, rng)
                if a["flag"]:
                    _grid_cache.save_grid(g, spell("so3", rng), p, overwrite=True)
                else:
                    _grid_cache.save_grid(g, spell("so3", rng), p)
            elif a["op"] == "build":
                n, _p = keys[a["k"] - 1]
                cls = [lambda: gnn.GLiftingConvSE3(1, 1, 1, group_kernel_size=n), lambda: gnn.GConvSE3(1, 1, 1, n),
                       lambda: gnn.GSeparableConvSE3(1, 1, 1, n)][int(rng.integers(3)) if n < 25 else 0]
                model[a["t"] - 1] = cls()
            elif a["op"] == "give":
                model[a["t"] - 1] = gnn.GLiftingConvSE3(1, 1, 1, grid_H=held[a["s"] - 1])
            elif a["op"] == "mutmodel":
                with torch.no_grad():
                    model[a["t"] - 1].kernel.grid_H.add_(float(rng.uniform(0.1, 1)))
            elif a["op"] == "loadstate":
                # only the grid travels, so that different layers can be used
                src = {k: v for k, v in model[a["s"] - 1].state_dict().items() if k.endswith("grid_H")}
                model[a["t"] - 1].load_state_dict(src, strict=False)
            rec.ev("act", act=a, keys=keys, so=so, **state())
