"""C01: group laws."""
import math

import numpy as np
import torch

from lib import gen, tlc
from lib.rec import attempt, crc, shape
from gconv.geometry import so2, o2, so3
from gconv.geometry.groups import o3

TRACE = "TraceC01"
MODELS = [("MCGroups", "MCGroups.cfg", "MCGroups_thorough.cfg")]

MUL = {"so2a": so2.left_apply_angle, "quat": so3.left_apply_quat, "so3m": so3.left_apply_matrix,
       "o2": o2.left_apply_angle, "o3": o3.left_apply_O3}
MUL_TO = {"so2a": so2.left_apply_to_angle, "so3m": so3.left_apply_to_matrix,
          "o2": o2.left_apply_to_angle, "o3": o3.left_apply_to_O3}
INV = {"so2a": so2.inverse_angle, "so2m": so2.inverse_matrix, "quat": so3.quat_inverse,
       "so3m": so3.matrix_inverse, "o2": o2.inverse, "o3": o3.inverse}
DET = {"o2": o2.det, "o3": o3.det}

PAIRS = [((), ()), ((3,), (3,)), ((1,), (4,)), ((4,), (1,)), ((), (3,)), ((3,), ()), ((2, 3), (2, 3)), ((2, 3), (3,)),
         ((2, 3), ()), ((3,), (2, 3)), ((2, 1), (1, 3)), ((2, 1, 2), (3, 1)), ((0,), (0,)), ((1,), (0,)), ((1, 1), (5,)),
         ((4,), (4,)), ((3, 3), (3,)), ((3,), (3, 3)), ((3, 1), (3,)), ((2, 2), (2, 2)), ((4, 1), (4,)), ((1, 3), (3, 1))]


def run(rec, thorough, rng):
    reps = 6 if thorough else 1
    for _ in range(reps):
        for kind in MUL:
            for sa, sb in PAIRS:
                for dt in (torch.float32, torch.float64):
                    a = gen.relayout(gen.elements(kind, sa, rng, dt), rng, len(sa))
                    b = gen.relayout(gen.elements(kind, sb, rng, dt), rng, len(sb))
                    if rng.random() < 0.1 and sa == sb:
                        b = a
                    with rec.trace(("mul", kind, sa, sb)):
                        c0 = crc([a, b])
                        r = MUL[kind](a, b)
                        rec.ev("bin", kind=kind, fn="mul", sa=sa, sb=sb, a=gen.fix(kind, a), b=gen.fix(kind, b),
                               r=gen.fix(kind, r) if shape(r)[len(r.shape) - len(gen.ELSHAPE[kind]):] == list(gen.ELSHAPE[kind]) else [],
                               so=shape(r), c0=c0, c1=crc([a, b]))
        for kind in MUL_TO:
            for n, m in [(1, 1), (1, 5), (5, 1), (3, 4), (4, 3), (4, 4), (2, 7), (0, 3), (3, 3), (5, 5), (6, 6)]:
                dt = torch.float64 if rng.random() < 0.3 else torch.float32
                a = gen.relayout(gen.elements(kind, (n,), rng, dt), rng, 1)
                b = gen.relayout(gen.elements(kind, (m,), rng, dt), rng, 1)
                if kind == "o3":
                    a, b = a.contiguous(), b.contiguous()
                if n == m and n != 1 and rng.random() < 0.6:
                    b = a  # the table of a list with itself, most often that very list
                with rec.trace(("mul_to", kind, n, m)):
                    c0 = crc([a, b])
                    r = MUL_TO[kind](a, b)
                    ok = list(r.shape[r.ndim - len(gen.ELSHAPE[kind]):]) == list(gen.ELSHAPE[kind])
                    rec.ev("bin", kind=kind, fn="mul_to", sa=[n], sb=[m], a=gen.fix(kind, a), b=gen.fix(kind, b),
                           r=gen.fix(kind, r) if ok else [], so=shape(r), c0=c0, c1=crc([a, b]))
        for kind in MUL:  # long lists, of which some elements are looked at
            for n in gen.MANY:
                dt = torch.float64 if rng.random() < 0.3 else torch.float32
                a, b = (gen.relayout(gen.elements(kind, (n,), rng, dt), rng, 1) for _ in "ab")
                with rec.trace(("mul", kind, n)):
                    c0 = crc([a, b])
                    i = gen.few(n, rng)
                    big(rec, "mul", kind, gen.at(a, (n,), i), gen.at(b, (n,), i), gen.at(MUL[kind](a, b), (n,), i), c0, crc([a, b]))
                    r = INV[kind](a)
                    r = gen.at(r, (n,), i)
                    a_ = gen.at(a, (n,), i)
                    rec.ev("inv", kind=kind, sa=[len(i)], a=gen.fix(kind, a_), r=gen.fix(kind, r) if same(kind, r) else [], so=shape(r), c0=c0, c1=crc([a, b]))
                    if kind in DET:
                        r = gen.at(DET[kind](a), (n,), i)
                        rec.ev("det", kind=kind, sa=[len(i)], a=gen.fix(kind, a_), r=q1(r), so=shape(r), c0=c0, c1=crc([a, b]))
        for kind in MUL_TO:
            for n, m in [(24, 24), (33, 9), (6, 130), (60, 60), (257, 4), (3, 1030)]:
                dt = torch.float64 if rng.random() < 0.3 else torch.float32
                a, b = gen.elements(kind, (n,), rng, dt), gen.elements(kind, (m,), rng, dt)
                with rec.trace(("mul_to", kind, n, m)):
                    c0 = crc([a, b])
                    i, j = gen.few(n, rng, 2), gen.few(m, rng, 2)
                    big(rec, "mul_to", kind, gen.at(a, (n,), i), gen.at(b, (m,), j), gen.at(MUL_TO[kind](a, b), (n, m), i, j), c0, crc([a, b]))
        for kind in INV:
            for sa in [(), (1,), (4,), (2, 3), (2, 1, 3), (0,), (3, 3), (4, 4)]:
                a = gen.relayout(gen.elements(kind, sa, rng, torch.float64 if rng.random() < 0.3 else torch.float32), rng, len(sa))
                with rec.trace(("inv", kind, sa)):
                    c0 = crc(a)
                    r = INV[kind](a)
                    ok = list(r.shape[r.ndim - len(gen.ELSHAPE[kind]):]) == list(gen.ELSHAPE[kind])
                    rec.ev("inv", kind=kind, sa=sa, a=gen.fix(kind, a), r=gen.fix(kind, r) if ok else [], so=shape(r),
                           c0=c0, c1=crc(a))
                if kind in DET:
                    with rec.trace(("det", kind, sa)):
                        c0 = crc(a)
                        r = DET[kind](a)
                        rec.ev("det", kind=kind, sa=sa, a=gen.fix(kind, a), r=q1(r), so=shape(r), c0=c0, c1=crc(a))

    # behaviours of the specification, replayed in every parameterization
    hists = tlc.simulate("MCGroups", "SimGroups.cfg", 120 if thorough else 24, 15, int(rng.integers(1, 10**6)))
    for h in hists:
        g = h["init"]["g"]
        for kind in {"so2": ["so2a"], "o2": ["o2"], "so3": ["quat", "so3m"], "o3": ["o3"]}[g]:
            replay(rec, h, g, kind)


def same(kind, r):
    return list(r.shape[r.ndim - len(gen.ELSHAPE[kind]):]) == list(gen.ELSHAPE[kind])


def big(rec, fn, kind, a, b, r, c0, c1):
    rec.ev("bin", kind=kind, fn=fn, sa=[len(a)], sb=[len(b)], a=gen.fix(kind, a), b=gen.fix(kind, b), r=gen.fix(kind, r) if same(kind, r) else [],
           so=shape(r), c0=c0, c1=c1)


def q1(t):
    from lib.rec import q
    return q(t, 1e4)


def real(kind, g):
    if kind == "so2a":
        return torch.tensor([2 * math.pi * g[0] / 24])
    if kind == "o2":
        return torch.tensor([float(g[0]), 2 * math.pi * g[1] / 24])
    if kind == "quat":
        return torch.tensor(gen.quat_of(np.array(g, dtype=float).reshape(3, 3)), dtype=torch.float32)
    if kind == "so3m":
        return torch.tensor(g, dtype=torch.float32).reshape(3, 3)
    if kind == "o3":
        return torch.tensor(g, dtype=torch.float32)


def replay(rec, h, g, kind):
    with rec.trace(("program", kind)):
        regs = [real(kind, r) for r in h["init"]["r"]]
        rec.ev("start", g=g, regs=h["init"]["r"])
        for n, act in enumerate(h["acts"]):
            before = crc(regs)
            if act["op"] == "mul":
                x, y = regs[act["a"] - 1], regs[act["b"] - 1]
                if n % 2 and kind in MUL_TO:
                    out = MUL_TO[kind](x[None], y[None])[0, 0]
                else:
                    out = MUL[kind](x, y)
            else:
                x = regs[act["a"] - 1]
                out = INV[kind](x[None])[0] if n % 2 else INV[kind](x)
            after = crc(regs)
            regs[act["d"] - 1] = out
            rec.ev("act", kind=kind, act=act, r=gen.fix(kind, out)[0], c0=before, c1=after)
