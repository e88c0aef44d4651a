"""C23: everything is computed in the precision of what it is computed from."""
import math

import numpy as np
import torch

from gconv.geometry.groups import o2, o3, s2, so2, so3
from drivers.c19 import default_width
from lib import calls, gen, kern, place, tlc
from lib.layers import GROUPS, KERNEL, REFL
from lib.rec import q

TRACE = "TraceC23"
MODELS = [("MCPlacement", "MCPlacement.cfg", None)]
ASSUMPTIONS = ["single and double precision", "the default precision changes only between calls"]


def identities(rng):
    """What double precision must get right, as residuals."""
    n = int(rng.integers(2, 5))
    Q, P, M, N, E = calls.quats(n, rng), calls.quats(n, rng), calls.matrices(n, rng), calls.matrices(n, rng), calls.eulers(n, rng)
    A, B, U, X = calls.angles(n, rng), calls.angles(n, rng), calls.sphere(n, rng), calls.spherical(n, rng)
    C, D, S, T = calls.o2s(n, rng), calls.o2s(n, rng), calls.o3s(n, rng), calls.o3s(n, rng)
    R2, R3 = calls.vectors(2, rng, 3, 2), calls.vectors(3, rng, 2, 2, 2)
    eye = lambda m: torch.matmul(m, m.transpose(-1, -2)) - torch.eye(m.shape[-1], dtype=m.dtype)
    m = so3.quat_to_matrix
    yield "quat_to_matrix", eye(m(Q))
    yield "matrix_to_quat", m(so3.matrix_to_quat(M)) - M
    yield "matrix_to_euler", so3.euler_to_matrix(so3.matrix_to_euler(M)) - M
    yield "quat_to_euler", so3.euler_to_matrix(so3.quat_to_euler(Q)) - m(Q)
    yield "euler_to_quat", m(so3.euler_to_quat(E)) - so3.euler_to_matrix(E)
    yield "left_apply_quat", m(so3.left_apply_quat(Q, P)) - torch.matmul(m(Q), m(P))
    yield "left_apply_matrix", so3.left_apply_matrix(M, N) - torch.matmul(M, N)
    yield "quat_inverse", m(so3.quat_inverse(Q)) - m(Q).transpose(-1, -2)
    yield "matrix_inverse", torch.matmul(so3.matrix_inverse(M), M) - torch.eye(3, dtype=M.dtype)
    for f in (so3.matrix_x, so3.matrix_y, so3.matrix_z):
        yield f.__name__, eye(f(A[:, 0]))
    yield "so3 distance", so3.geodesic_distance(Q, P) - torch.acos((Q * P).sum(-1).abs().clamp(max=1 - 1e-7))
    yield "so2.angle_to_matrix", eye(so2.angle_to_matrix(A))
    yield "so2 product", so2.angle_to_matrix(so2.left_apply_angle(A, B)) - torch.matmul(so2.angle_to_matrix(A), so2.angle_to_matrix(B))
    yield "so2 inverse", so2.angle_to_matrix(so2.inverse_angle(A)) - so2.angle_to_matrix(A).transpose(-1, -2)
    yield "so2 action", so2.left_apply_angle_to_R2(A, so2.left_apply_angle_to_R2(-A, R2)[0])[0] - R2
    yield "o2 product", o2.left_apply_angle(C, D)[:, 1] - (C[:, 1] + D[:, 1]) % (2 * math.pi)
    yield "o3 product", o3.left_apply_O3(S, T)[:, 1:] - torch.matmul(S[:, 1:].view(-1, 3, 3), T[:, 1:].view(-1, 3, 3)).flatten(-2, -1)
    yield "o3 action", torch.linalg.norm(o3.left_apply_to_R3(S, R3), dim=-1) - torch.linalg.norm(R3, dim=-1)
    yield "s2 conversions", s2.spherical_to_euclid(s2.euclid_to_spherical(U)) - U
    yield "s2 conversions back", s2.euclid_to_spherical(s2.spherical_to_euclid(X)) - X
    sig = calls.arr(rng.normal(size=(4, 3)))
    grid = calls.spaced(4, rng)
    yield "so2.grid_sample", so2.grid_sample(grid, sig, grid, "rbf", 0.8) - sig


def default_widths(rng):
    """Kernels of unevenly spaced grids against kernels with the width computed here, which is given."""
    for g in GROUPS:
        for f in ("sep", "full"):
            rows = [np.concatenate(([c], e)) for c in ((1.0, -1.0) if REFL[g] else (1.0,)) for e in kern.spread(kern.par(g), 3, rng)]
            grid = kern.tensor(g, rows, torch.float64)
            w = default_width(kern.par(g), rows)
            kw = dict(zip(("group_rotation_sampling_width", "group_reflection_sampling_width") if REFL[g] else ("group_sampling_width",), w))
            els = [kern.tensor(g, [kern.element(g, rng, False) for _ in range(2)], torch.float64) for _ in range(2)]
            with place.Default(64), torch.no_grad():
                a, b = (KERNEL[(g, f)](2, 2, 3, 3, grid_H=grid, **k) for k in ({}, kw))
                b.load_state_dict(a.state_dict())
                a, b = (k(*els) for k in (a, b))
            yield f"default width {g} {f}", (a[0] - b[0] if f == "sep" else a - b).flatten()[:200]


def run(rec, thorough, rng):
    for rep in range(12 if thorough else 3):
        for default in (32, 64):
            for name, args, fn in calls.operations(rng):
                with rec.trace((name, rep, default)):
                    if default == 64:
                        rec.ev("default", prec=64)
                    with place.Default(default):
                        for prec in (32, 64):
                            place.apply(rec, name, args, fn, "cpu", prec)
                    place.respond(rec, name, fn, [a.clone() for a in args], rng)
            for name, x, H, build in calls.modules(rng):
                with rec.trace((name, rep, default)):
                    if default == 64:
                        rec.ev("default", prec=64)
                    for prec in (32, 64):
                        call = lambda x, h: build().to(x.dtype)(x, h)
                        with place.Default(default):
                            place.apply(rec, name, (x, H), call, "cpu", prec)
                    place.respond(rec, name, lambda x, build=build: build().double()(x, H), [x], rng)
            for name, H, k in calls.kernels(rng):
                with rec.trace((name, rep, default)):
                    if default == 64:
                        rec.ev("default", prec=64)
                    for prec in (32, 64):
                        with place.Default(default):
                            place.apply(rec, name, H, calls.moved(k), "cpu", prec)
                    place.respond(rec, name, calls.moved(k), H, rng)
            for name, random, fn in calls.makers(rng):
                with rec.trace((name, rep, default)):
                    if default == 64:
                        rec.ev("default", prec=64)
                    with place.Default(default):
                        place.make(rec, name, random, fn, "cpu")
        with rec.trace(("identities", rep)):
            for name, r in (*identities(rng), *default_widths(rng)):
                rec.ev("exact", name=name, off=q(r, 1e12))
    hs = gen.some(tlc.simulate("MCPlacement", "SimPlacementPrec.cfg", 400 if thorough else 120, 10, int(rng.integers(1, 10**6))), 400, rng)
    for rep in range(80 if thorough else 25):
        for g in GROUPS:
            with rec.trace(("life", g, rep)):
                place.life(rec, g, hs[int(rng.integers(len(hs)))], rng)
