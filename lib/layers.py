"""The library's layers and kernels by group and form, and elements for their grids."""
import numpy as np
import torch

from . import gen
from .rec import q  # noqa

import gconv.gnn as gnn
import gconv.gnn.kernels as kn
from gconv.geometry import so2, o2, so3
from gconv.geometry.groups import o3

GROUPS = ["SE2", "SE3", "E2", "E3"]
FORMS = ["lift", "sep", "full"]
DIM = {"SE2": 2, "E2": 2, "SE3": 3, "E3": 3}
KIND = {"SE2": "so2a", "E2": "o2", "SE3": "so3m", "E3": "o3"}  # parameterization of grid_H, see Groups.tla
REFL = {"SE2": False, "SE3": False, "E2": True, "E3": True}
LAYER = {(g, f): getattr(gnn, n + g) for g in GROUPS
         for f, n in (("lift", "GLiftingConv"), ("sep", "GSeparableConv"), ("full", "GConv"))}
KERNEL = {(g, f): getattr(kn, n + g) for g in GROUPS
          for f, n in (("lift", "GLiftingKernel"), ("sep", "GSeparableKernel"), ("full", "GKernel"))}
MUL = {"so2a": so2.left_apply_angle, "so3m": so3.left_apply_matrix, "o2": o2.left_apply_angle, "o3": o3.left_apply_O3,
       "quat": so3.left_apply_quat}


def unpermuted(layer):
    layer.permute_output_grid = False
    return layer


def spatial_mode_names(form):
    """Keyword names of (spatial mode, spatial padding mode) in the layers."""
    return ("sampling_mode", "sampling_padding_mode") if form == "lift" else ("spatial_sampling_mode", "spatial_sampling_padding_mode")


def el_tensor(kind, els):
    """Elements given as flat float rows."""
    sh = gen.ELSHAPE[kind]
    return torch.tensor(np.array(els, dtype=np.float64).reshape((len(els), *sh)), dtype=torch.float32)


def lattice(kind):
    """All elements that map the square or cubic lattice onto itself, as float rows."""
    if kind == "so2a":
        return [np.array([k * np.pi / 2]) for k in range(4)]
    if kind == "o2":
        return [np.array([c, k * np.pi / 2]) for c in (1.0, -1.0) for k in range(4)]
    if kind == "so3m":
        return [m.reshape(-1) for m in gen.OCT]
    if kind == "quat":
        return [gen.quat_of(m) for m in gen.OCT]
    if kind == "o3":
        return [np.concatenate(([c], m.reshape(-1))) for c in (1.0, -1.0) for m in gen.OCT]


TETRA = [m for m in gen.OCT if round(np.trace(m)) in (3, -1, 0) and abs(np.linalg.det(m) - 1) < 1e-9
         and all(abs(gen.quat_of(m)[i]) in (0.0, 0.5, 1.0) or abs(abs(gen.quat_of(m)[i]) % 0.5) < 1e-6 for i in range(4))]


def closed_grid(kind, rng, size=None):
    """A grid closed under the group: products with its elements are grid elements again."""
    if kind == "so2a":
        n = size or int(rng.choice([1, 2, 4]))
        return [np.array([2 * np.pi * k / n]) for k in range(n)]
    if kind == "o2":
        n = size or int(rng.choice([1, 2, 4]))
        return [np.array([c, 2 * np.pi * k / n]) for c in (1.0, -1.0) for k in range(n)]
    sub = size or int(rng.choice([1, 2, 4]))
    D = [np.diag(d).astype(float) for d in ((1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1))]
    Z4 = [gen.rz(k * np.pi / 2).round() for k in range(4)]
    m = {1: D[:1], 2: [D[0], D[int(rng.integers(1, 4))]], 4: D if rng.random() < 0.5 else Z4, 12: TETRA, 24: gen.OCT}[sub]
    if kind == "so3m":
        return [a.reshape(-1) for a in m]
    if kind == "o3":
        return [np.concatenate(([c], a.reshape(-1))) for c in (1.0, -1.0) for a in m]


def pick(els, n, rng, repeat=True):
    return [els[int(i)] for i in rng.choice(len(els), size=n, replace=repeat or n > len(els))]


def rand_els(kind, n, rng):
    return [gen.rand_el(kind, rng) for _ in range(n)]


def set_int_weights(mod, rng, lim=5):
    """Integer parameters, so that everything downstream can be exact; in training mode or not."""
    mod.train(bool(rng.random() < 0.6))
    with torch.no_grad():
        for p in mod.parameters():
            p.copy_(torch.tensor(rng.integers(-lim, lim + 1, size=tuple(p.shape)), dtype=p.dtype))


def ints(t, scale=1):
    return q(t, scale)
