"""C02: the action on vectors."""
import math

import numpy as np
import torch

from lib import gen, tlc
from lib.rec import crc, q, shape
from gconv.geometry import so2, o2, so3
from gconv.geometry.groups import o3

TRACE = "TraceC02"
MODELS = [("MCAction", "MCAction.cfg", "MCAction_thorough.cfg")]

APPLY = {"so2a": so2.left_apply_angle_to_R2, "so2m": so2.left_apply_matrix_to_R2, "so3m": so3.left_apply_to_R3,
         "o2": o2.left_apply_to_R2, "o3": o3.left_apply_to_R3}
MUL = {"so2a": so2.left_apply_angle, "so3m": so3.left_apply_matrix, "o2": o2.left_apply_angle, "o3": o3.left_apply_O3}
INV = {"so2a": so2.inverse_angle, "so2m": so2.inverse_matrix, "so3m": so3.matrix_inverse, "o2": o2.inverse, "o3": o3.inverse}
DET = {"o2": o2.det, "o3": o3.det}
ONE = {"so2a": [0.0], "so2m": [[1.0, 0], [0, 1]], "so3m": np.eye(3).tolist(), "o2": [1.0, 0.0],
       "o3": [1.0] + np.eye(3).reshape(-1).tolist()}
DIM = {"so2a": 2, "so2m": 2, "so3m": 3, "o2": 2, "o3": 3}
FULL = {"so3m", "o3"}  # these document arbitrary leading shapes


def vec(t, dim):
    return [q(v, 1000) for v in t.reshape(-1, dim)] if t.shape[-1:] == (dim,) else []


def run(rec, thorough, rng):
    reps = 5 if thorough else 1
    for _ in range(reps):
        for kind in APPLY:
            d = DIM[kind]
            leads = [(1,), (2,), (5,), (0,)] + ([(), (2, 3), (2, 1, 2)] if kind in FULL else [])
            grids = [(1, 1), (2, 3), (3, 2), (3, 3), (1, 4)] if d == 2 else [(1, 1, 1), (2, 3, 1), (3, 2, 2), (2, 2, 2), (3, 3, 3), (1, 1, 4)]
            for sa in leads:
                for sv in grids:
                    for dt in (torch.float32, torch.float64):
                        a = gen.elements(kind, sa, rng, dt)
                        a = gen.relayout(a, rng, len(sa))
                        v = torch.tensor(rng.integers(-500, 501, size=(*sv, d)) / 100.0, dtype=dt)
                        v = gen.relayout(v, rng, len(sv))
                        with rec.trace(("apply", kind, sa, sv)):
                            c0 = crc([a, v])
                            r = APPLY[kind](a, v)
                            rec.ev("apply", kind=kind, sa=sa, a=gen.fix(kind, a), sv=sv, v=vec(v, d), so=shape(r), r=vec(r, d),
                                   c0=c0, c1=crc([a, v]))
            for n in gen.MANY:  # long lists of elements; large grids of vectors
                for side in (0, 1):
                    sv = ((n, 2) if side else (2, 2)) + ((2,) if d == 3 else ())
                    m = 3 if side else n
                    dt = torch.float64 if rng.random() < 0.3 else torch.float32
                    a = gen.relayout(gen.elements(kind, (m,), rng, dt), rng, 1)
                    v = torch.tensor(rng.integers(-500, 501, size=(*sv, d)) / 100.0, dtype=dt)
                    with rec.trace(("apply", kind, m, sv)):
                        c0 = crc([a, v])
                        i, j = gen.few(m, rng, 2), gen.few(sv[0], rng, 2)
                        r = gen.at(APPLY[kind](a, v), (m, *sv), i, j)
                        a_, v_ = gen.at(a, (m,), i), gen.at(v, sv, j)
                        rec.ev("apply", kind=kind, sa=[len(i)], a=gen.fix(kind, a_), sv=shape(v_)[:-1], v=vec(v_, d), so=shape(r), r=vec(r, d),
                               c0=c0, c1=crc([a, v]))
            # homomorphism, inverse, identity on generic elements
            for _i in range(6):
                if kind not in MUL:
                    continue
                a, b = gen.elements(kind, (1,), rng), gen.elements(kind, (1,), rng)
                sv = (2, 2) if d == 2 else (2, 2, 1)
                v = torch.tensor(rng.integers(-500, 501, size=(*sv, d)) / 100.0, dtype=torch.float32)
                with rec.trace(("comp", kind)):
                    f = APPLY[kind]
                    two = f(a, f(b, v)[0])[0]
                    one = f(MUL[kind](a, b), v)[0]
                    back = f(INV[kind](a), f(a, v)[0])[0]
                    ident = f(torch.tensor([ONE[kind]]), v)[0]
                    rec.ev("comp", kind=kind, two=vec(two, d), one=vec(one, d), back=vec(back, d), v=vec(v, d), id=vec(ident, d))
            # orientation
            for _i in range(8):
                a = gen.elements(kind, (1,), rng)
                if kind in DET:
                    a[0, 0] = 1.0 if _i % 2 else -1.0
                with rec.trace(("orient", kind)):
                    e = torch.eye(d).reshape(*([1] * (d - 1)), d, d) if d == 3 else torch.eye(2)[None]
                    img = APPLY[kind](a, e).reshape(d, d).T
                    det = float(DET[kind](a).reshape(-1)[0]) if kind in DET else 1.0
                    rec.ev("orient", kind=kind, m=q(img, 1e4), det=int(round(det * 10000)))

    hists = tlc.simulate("MCAction", "SimAction.cfg", 60 if thorough else 16, 9, int(rng.integers(1, 10**6)))
    for h in hists:
        g = h["g"]
        for kind in {"so2": ["so2a", "so2m"], "o2": ["o2"], "so3": ["so3m"], "o3": ["o3"]}[g]:
            d = DIM[kind]
            with rec.trace(("walk", kind)):
                v = torch.tensor(rng.integers(-9, 10, size=(2, 3, d) if d == 2 else (2, 1, 3, d))).float()
                rec.ev("start", g=g, v=vec(v, d))
                for x in h["acts"]:
                    a = real(kind, x)[None]
                    c0 = crc([a, v])
                    r = APPLY[kind](a, v)
                    c1 = crc([a, v])
                    rec.ev("move", x=x, r=vec(r, d), c0=c0, c1=c1)
                    v = r[0]


def real(kind, x):
    if kind == "so2a":
        return torch.tensor([math.pi / 2 * x[0]])
    if kind == "so2m":
        return torch.tensor(np.rint(gen.rot2(math.pi / 2 * x[0]))).float()
    if kind == "o2":
        return torch.tensor([float(x[0]), math.pi / 2 * x[1]])
    if kind == "so3m":
        return torch.tensor(x).float().reshape(3, 3)
    return torch.tensor(x).float()
