"""C24: everything stays on the device of what it is computed from."""
from lib import calls, gen, place, tlc
from lib.layers import GROUPS

TRACE = "TraceC24"
MODELS = [("MCPlacement", "MCPlacement.cfg", None)]
ASSUMPTIONS = ["the accelerator is a stand-in that computes on the CPU and enforces that tensors of one operation share a device"]


def run(rec, thorough, rng):
    for rep in range(12 if thorough else 3):
        for name, args, fn in calls.operations(rng):
            with rec.trace((name, rep)):
                place.apply(rec, name, args, fn, "acc", 32)
        for name, x, H, build in calls.modules(rng):
            with rec.trace((name, rep)):
                place.apply(rec, name, (x, H), lambda x, h: build().to(x.device)(x, h), "acc", 32)
        for name, H, k in calls.kernels(rng):
            with rec.trace((name, rep)):
                place.apply(rec, name, H, calls.moved(k), "acc", 32)
        for name, random, fn in calls.makers(rng):
            with rec.trace((name, rep)):
                place.make(rec, name, random, fn, "acc")
    hs = gen.some(tlc.simulate("MCPlacement", "SimPlacementDev.cfg", 400 if thorough else 120, 10, int(rng.integers(1, 10**6))), 400, rng)
    for rep in range(80 if thorough else 25):
        for g in GROUPS:
            with rec.trace(("life", g, rep)):
                place.life(rec, g, hs[int(rng.integers(len(hs)))], rng)
