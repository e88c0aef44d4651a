"""C04: named finite groups."""
import torch

from lib.rec import attempt, crc, q, shape
from gconv.geometry import so3

TRACE = "TraceC04"
MODELS = [("MCNamed", "MCNamed.cfg")]
NAMED = {"identity": so3.identity, "klein": so3.klein_group, "tetrahedral": so3.tetrahedral, "octahedral": so3.octahedral,
         "icosahedral": so3.icosahedral}


def rows(t):
    return [q(r, 1e4) for r in t] if t.ndim == 2 else []


def fine(t):
    return [q(r, 1e8) for r in t] if t.ndim == 2 else []


def run(rec, thorough, rng):
    for name, fn in NAMED.items():
        for dev in (None, "cpu"):
            with rec.trace(("named", name)):
                g = fn(device=dev) if dev else fn()
                rec.ev("named", name=name, so=shape(g), q=rows(g), f=fine(g))
                c0 = crc(g)
                g.mul_(-0.5).add_(1)  # the caller does what it likes with its grid
                rec.ev("again", c0=c0, c1=crc(fn()))
    sizes = list(range(1, 26)) + [30, 32, 36, 45, 60, 64, 90, 100, 128] + ([180, 256, 360, 500] if thorough else [360])
    for n in sizes:
        for ax in "xyz":
            with rec.trace(("cyclic", n, ax)):
                cyc(rec, n, ax, so3.cyclic, n, ax)
                cyc(rec, n, ax.upper(), so3.cyclic, n, ax.upper())
                cyc(rec, n, ax, {"x": so3.cyclic_x, "y": so3.cyclic_y, "z": so3.cyclic_z}[ax], n)
                with_dev = so3.cyclic(n, ax, device="cpu")
                c0 = crc(with_dev)
                with_dev.zero_()
                rec.ev("again", c0=c0, c1=crc(so3.cyclic(n, ax)))
    for bad in ["w", "", "xy", "xx", "0", "a", "W", "zx", " x", "yz", "-z", "xyz", "1"]:
        for n in (1, 4):
            with rec.trace(("cyclic", bad)):
                cyc(rec, n, bad, so3.cyclic, n, bad)


def cyc(rec, n, axis, fn, *a):
    ok, r = attempt(fn, *a)
    good = ok and isinstance(r, torch.Tensor)
    rec.ev("cyclic", n=n, axis=axis, ok=ok, so=shape(r) if good else [], q=rows(r) if good else [], f=fine(r) if good else [])
