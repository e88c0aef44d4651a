"""What the library offers on tensors, as (name, arguments, function of the arguments)."""
import copy
import math

import numpy as np
import torch
from torch import nn

import gconv.gnn as gnn
import gconv.gnn.kernels as kn
from gconv.geometry import interpolation, repulsion
from gconv.geometry.groups import o2, o3, s2, so2, so3
from gconv.gnn.functional import grid as fgrid
from gconv.gnn.functional import mask as fmask

from . import gen, kern
from .layers import DIM, KERNEL, REFL

PI = math.pi


def arr(x):
    return torch.tensor(np.array(x, dtype=np.float64))


def angles(n, rng, near=None):
    """Apart from one another and from full and half turns; also from those given."""
    if near is None:
        return arr(rng.uniform(0.2, 6.0, size=(n, 1)))
    return near[:n] + arr(rng.choice([1.0, -1.0], size=(n, 1)) * rng.uniform(0.5, 2.5, size=(n, 1)))


def spaced(n, rng):
    return arr(((np.arange(n) + rng.uniform(-0.2, 0.2, size=n) + 0.4) * 2 * PI / n)[:, None])


def generic(n, rng):
    """Rotations apart from one another, from the identity, half turns and gimbal locks."""
    out = []
    while len(out) < n:
        v = rng.normal(size=4)
        v /= np.linalg.norm(v)
        v *= np.sign(v[0])
        m = gen.mat_of(v)
        d = sorted([*np.diag(m), np.trace(m)])
        if np.abs(v).min() < 0.1 or v[0] > 0.95 or abs(m[2, 2]) > 0.95 or d[3] - d[2] < 0.05 or any(not 0.1 < abs(float(v @ u)) < 0.95 for u in out):
            if rng.random() < 0.001:
                out = []
            continue
        out.append(v)
    return out


def quats(n, rng):
    return arr(generic(n, rng))


def matrices(n, rng):
    return arr([gen.mat_of(v) for v in generic(n, rng)])


def eulers(n, rng):
    return arr(np.stack((rng.uniform(-3, 3, n), rng.uniform(0.3, 2.8, n), rng.uniform(-3, 3, n)), -1))


def signs(n, rng):
    return arr(rng.choice([1.0, -1.0], size=(n, 1)))


def o2s(n, rng):
    return torch.cat((signs(n, rng), angles(n, rng)), -1)


def o3s(n, rng):
    return torch.cat((signs(n, rng), matrices(n, rng).flatten(-2, -1)), -1)


def sphere(n, rng):
    x = rng.normal(size=(n, 3))
    return arr(x / np.linalg.norm(x, axis=-1, keepdims=True))


def spherical(n, rng):
    return arr(np.stack((rng.uniform(0.3, 2.8, n), rng.uniform(-3, 3, n)), -1))


def vectors(d, rng, *shape):
    return arr(rng.uniform(-1, 1, size=(*shape, d)))


def operations(rng):
    """Deterministic functions of tensors on the groups and spaces."""
    n = int(rng.integers(2, 5))
    A, B = angles(n, rng), angles(3, rng)
    both = quats(2 * n, rng)
    Q, P = both[:n], both[n:]
    M, N, E = matrices(n, rng), matrices(3, rng), eulers(n, rng)
    C, D, S, T = o2s(n, rng), o2s(3, rng), o3s(n, rng), o3s(3, rng)
    X, U = spherical(n, rng), sphere(n, rng)
    R2, R3, th = vectors(2, rng, 3, 3), vectors(3, rng, 2, 2, 2), arr(rng.uniform(-3, 3, n))
    m2 = so2.angle_to_matrix(A)
    m2b = so2.angle_to_matrix(B)
    sig = arr(rng.normal(size=(4, 5)))
    yield "so2.angle_to_matrix", (A,), so2.angle_to_matrix
    yield "so2.angle_to_euclid", (A,), so2.angle_to_euclid
    yield "so2.inverse_matrix", (m2,), so2.inverse_matrix
    yield "so2.inverse_angle", (A,), so2.inverse_angle
    yield "so2.left_apply_angle", (A, angles(n, rng)), so2.left_apply_angle
    yield "so2.left_apply_to_angle", (A, B), so2.left_apply_to_angle
    yield "so2.left_apply_angle_to_R2", (A, R2), so2.left_apply_angle_to_R2
    yield "so2.left_apply_matrix_to_R2", (m2b, R2), so2.left_apply_matrix_to_R2
    yield "so2.geodesic_distance", (A, angles(n, rng, A)), so2.geodesic_distance
    yield "so2.geodesic_distance_euclid", (so2.angle_to_euclid(A), so2.angle_to_euclid(angles(n, rng, A))), so2.geodesic_distance_euclid
    yield "so2.nearest_neighbour_distance", (spaced(4, rng),), so2.nearest_neighbour_distance
    yield "o2.inverse", (C,), o2.inverse
    yield "o2.det", (C,), o2.det
    yield "o2.left_apply_angle", (C, o2s(n, rng)), o2.left_apply_angle
    yield "o2.left_apply_to_angle", (C, D), o2.left_apply_to_angle
    yield "o2.left_apply_to_R2", (C, R2), o2.left_apply_to_R2
    for f in (so3.matrix_x, so3.matrix_y, so3.matrix_z):
        yield "so3." + f.__name__, (th,), f
    for f in (so3.quat_inverse, so3.quat_to_matrix, so3.quat_to_euler, so3.quaternion_log, so3.nearest_neighbour_distance):
        yield "so3." + f.__name__, (Q,), f
    for f in (so3.matrix_inverse, so3.matrix_to_quat, so3.matrix_to_euler, so3.so3_log):
        yield "so3." + f.__name__, (M,), f
    for f in (so3.euler_to_quat, so3.euler_to_matrix):
        yield "so3." + f.__name__, (E,), f
    yield "so3.left_apply_quat", (Q, P), so3.left_apply_quat
    yield "so3.left_apply_matrix", (M, matrices(n, rng)), so3.left_apply_matrix
    yield "so3.left_apply_to_matrix", (M, N), so3.left_apply_to_matrix
    yield "so3.left_apply_to_R3", (M, R3), so3.left_apply_to_R3
    yield "so3.geodesic_distance", (Q, P), so3.geodesic_distance
    yield "o3.inverse", (S,), o3.inverse
    yield "o3.det", (S,), o3.det
    yield "o3.left_apply_O3", (S, o3s(n, rng)), o3.left_apply_O3
    yield "o3.left_apply_to_O3", (S, T), o3.left_apply_to_O3
    yield "o3.left_apply_to_R3", (S, R3), o3.left_apply_to_R3
    yield "s2.spherical_to_euclid", (X,), s2.spherical_to_euclid
    yield "s2.euclid_to_spherical", (U,), s2.euclid_to_spherical
    yield "s2.geodesic_distance_s2", (sphere(n, rng), U * 0.6), s2.geodesic_distance_s2
    yield "s2.spherical_to_euler", (X,), s2.spherical_to_euler
    yield "s2.spherical_to_euler_neg_gamma", (X,), s2.spherical_to_euler_neg_gamma
    so = quats(4, rng)
    two = torch.cat((arr([[1.0], [1.0], [-1.0], [-1.0]]), spaced(4, rng)), -1)
    three = torch.cat((arr([[1.0], [1.0], [-1.0], [-1.0]]), matrices(4, rng).flatten(-2, -1)), -1)
    for mode in ("rbf", "nearest"):
        yield f"so2.grid_sample {mode}", (A, sig, spaced(4, rng)), lambda g, s, h, mode=mode: so2.grid_sample(g, s, h, mode, 0.8)
        yield f"so3.grid_sample {mode}", (Q, sig, so), lambda g, s, h, mode=mode: so3.grid_sample(g, s, h, mode, 0.5)
        yield f"o2.grid_sample {mode}", (C, sig, two), lambda g, s, h, mode=mode: o2.grid_sample(g, s, h, (2, 2), mode, 0.8, 0.7)
        yield f"o3.grid_sample {mode}", (S, sig, three), lambda g, s, h, mode=mode: o3.grid_sample(g, s, h, (2, 2), mode, 0.5, 0.6)
    dist = lambda a, b: torch.linalg.norm(a - b, dim=-1)
    nodes, ref, val = vectors(3, rng, 2, 3), vectors(3, rng, 2, 4), vectors(2, rng, 2, 4)
    yield "interpolate_RBF", (nodes, ref, val), lambda a, b, c: interpolation.interpolate_RBF(a, b, c, dist_fn=dist, width=1.0)
    yield "interpolate_NN", (nodes, ref, val), lambda a, b, c: interpolation.interpolate_NN(a, b, c, dist_fn=dist)
    yield "interpolate_BCC", (nodes, ref, val), lambda a, b, c: interpolation.interpolate_BCC(a, b, c, dist_fn=dist)
    yield "repulsion.columb_energy", (arr(rng.uniform(0.5, 2, size=(3,))),), repulsion.columb_energy
    for inplace in (False, True):
        yield f"repulse {'in place' if inplace else 'copy'}", (quats(3, rng),), lambda a, inplace=inplace: repulsion.repulse(
            a.clone(), 2, 0.01, so3.geodesic_distance, alpha=0.0, show_pbar=False, in_place=inplace)


def modules(rng):
    """Layers without a kernel: (name, features, group grid, module)."""
    for d in (2, 3):
        x = arr(rng.normal(size=(2, 3, 2, *(4,) * d)))
        H = angles(2, rng)
        for name, make in (
            ("GReLU", gnn.GReLU), ("GGELU", gnn.GGELU), ("GLeakyReLU", gnn.GLeakyReLU), ("GWrap", lambda: gnn.GWrap(nn.Tanh())),
            ("GLayerNorm", lambda: gnn.GLayerNorm((4,) * d)),
            (f"GBatchNorm{d}d", lambda: getattr(gnn, f"GBatchNorm{d}d")(3)), (f"GInstanceNorm{d}d", lambda: getattr(gnn, f"GInstanceNorm{d}d")(3, affine=True)),
            (f"GMaxSpatialPool{d}d", lambda: getattr(gnn, f"GMaxSpatialPool{d}d")(2)), (f"GAvgSpatialPool{d}d", lambda: getattr(gnn, f"GAvgSpatialPool{d}d")(2)),
            (f"GAdaptiveMaxSpatialPool{d}d", lambda: getattr(gnn, f"GAdaptiveMaxSpatialPool{d}d")(1)),
            (f"GAdaptiveAvgSpatialPool{d}d", lambda: getattr(gnn, f"GAdaptiveAvgSpatialPool{d}d")(1)),
            ("GMaxGroupPool", gnn.GMaxGroupPool), ("GAvgGroupPool", gnn.GAvgGroupPool), ("GMaxGlobalPool", gnn.GMaxGlobalPool), ("GAvgGlobalPool", gnn.GAvgGlobalPool),
        ):
            yield f"{name} {d}d", x, H, make


def makers(rng):
    """Functions that make elements; each takes the device, and how many elements of what shape it makes."""
    n = int(rng.integers(1, 6))
    big = int(rng.integers(28, 40))
    yield "so2.uniform_grid", False, lambda **k: so2.uniform_grid(n, **k)
    yield "so2.random_grid", True, lambda **k: so2.random_grid(n, **k)
    yield "o2.uniform_grid", False, lambda **k: o2.uniform_grid((n, n - 1), **k)
    yield "o2.random_grid", True, lambda **k: o2.random_grid(n, **k)
    for p in ("quat", "matrix", "euler"):
        yield f"so3.uniform_grid cached {p}", p == "euler", lambda p=p, **k: so3.uniform_grid(n, p, steps=2, show_pbar=False, **k)
        yield f"so3.uniform_grid fresh {p}", True, lambda p=p, **k: so3.uniform_grid(big, p, steps=2, show_pbar=False, **k)
    yield "so3.uniform_grid empty", False, lambda **k: so3.uniform_grid(0, **k)
    for f in (so3.random_quat, so3.random_matrix, so3.random_euler):
        yield "so3." + f.__name__, True, lambda f=f, **k: f(n, **k)
    yield "o3.uniform_grid", False, lambda **k: o3.uniform_grid((n, n - 1), **k)
    yield "o3.uniform_grid matrix", False, lambda **k: o3.uniform_grid((n, 0), True, **k)
    yield "o3.random_grid", True, lambda **k: o3.random_grid(n, **k)
    for f in (so3.identity, so3.klein_group, so3.tetrahedral, so3.octahedral, so3.icosahedral):
        yield "so3." + f.__name__, False, lambda f=f, **k: f(**k)
    for f in (so3.cyclic_x, so3.cyclic_y, so3.cyclic_z):
        yield "so3." + f.__name__, False, lambda f=f, **k: f(n, **k)
    for axis in "xyz":
        yield f"so3.cyclic {axis}", False, lambda axis=axis, **k: so3.cyclic(n, axis, **k)
    yield "s2.random_s2", True, lambda **k: s2.random_s2((n,), **k)
    for p in ("spherical", "euclidean", "quat", "matrix", "euler"):
        yield f"s2.uniform_grid_s2 {p}", True, lambda p=p, **k: s2.uniform_grid_s2(n, p, bool(n % 2), steps=2, show_pbar=False, **k)
    for d in (2, 3):
        yield f"create_grid_R{d}", False, lambda d=d, **k: getattr(fgrid, f"create_grid_R{d}")(n, **k)
        yield f"create_spherical_mask_R{d}", False, lambda d=d, **k: getattr(fmask, f"create_spherical_mask_R{d}")(n, **k)


def kernels(rng):
    """Kernels called on elements: (name, elements, kernel)."""
    for (g, f), cls in sorted(KERNEL.items()):
        size = (2, 1) if REFL[g] else 3
        kw = dict(groups=int(rng.choice([1, 2])), mask=bool(rng.random() < 0.5))
        if f != "lift" and rng.random() < 0.3:
            kw["group_sampling_mode"] = "nearest"
        two = [[] if DIM[g] == 2 else generic(4, rng)][0] or [[float(rng.uniform(0.2, 6))] for _ in range(4)]
        rows = [[float(rng.choice([1.0, -1.0])) if REFL[g] else 1.0, *r] for r in two]
        H = [kern.tensor(g, rows[:2]).double()] if f == "lift" else [kern.tensor(g, rows[:2]).double(), kern.tensor(g, rows[2:]).double()]
        args = (4, 2, 3, size) if f != "sep" else (4, 2, 3, size)
        with_seed = int(rng.integers(1, 10**6))
        k = seeded(lambda: cls(*args, **kw), with_seed)
        yield f"{cls.__name__}", H, k
    m = matrices(4, rng)
    k = seeded(lambda: kn.kernel_sen.GSubgroupKernelSO3(4, 2, 3), int(rng.integers(1, 10**6)))
    yield "GSubgroupKernelSO3", [m[:2], m[2:]], k


def seeded(fn, seed):
    torch.manual_seed(seed)
    before = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32)
    try:
        return fn()
    finally:
        torch.set_default_dtype(before)


def moved(module):
    """Calls a copy of the module that was taken to where the arguments are."""
    return lambda *a: copy.deepcopy(module).to(device=a[0].device, dtype=a[0].dtype)(*a)
