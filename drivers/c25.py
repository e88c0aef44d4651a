"""C25: randomness comes from torch's global generator alone, and deterministic calls leave it alone."""
import random

import numpy as np
import torch

import gconv.gnn as gnn
from gconv.geometry import repulsion
from gconv.geometry.groups import o2, o3, s2, so2, so3
from lib import calls, gen, kern, tlc
from lib.layers import DIM, FORMS, GROUPS, LAYER, REFL
from lib.place import numbers, short
from lib.rec import crc

TRACE = "TraceC25"
MODELS = [("MCRandom", "MCRandom.cfg", "MCRandom_thorough.cfg")]
ASSUMPTIONS = ["random operations draw from torch's default generator of the CPU", "memory nobody has written to reads as nan (torch.utils.deterministic.fill_uninitialized_memory)"]


def others():
    return (crc(torch.tensor(np.random.get_state()[1].astype(np.int64))), np.random.get_state()[2], hash(random.getstate()))


def state():
    return crc(torch.get_rng_state())


def options(g, f, rng):
    kw = dict(groups=int(rng.choice([1, 2])), bias=bool(rng.random() < 0.5), mask=bool(rng.random() < 0.5), padding=1)
    if f != "lift" and rng.random() < 0.3:
        kw["group_sampling_mode"] = "nearest"
    big = rng.random() < 0.1  # more rotations than there are cached
    size = ((2, int(rng.integers(0, 3))) if REFL[g] else int(rng.integers(1, 4)))
    if big and DIM[g] == 3:
        size = (26, 1) if REFL[g] else 26
    return size, kw


def parameters(m):
    return [p.detach().clone() for p in m.state_dict().values() if p.is_floating_point()]


def layers(rng):
    """Building, resetting and calling layers."""
    for g in GROUPS:
        for f in FORMS:
            size, kw = options(g, f, rng)
            k = int(rng.choice([1, 2, 3]))
            build = lambda g=g, f=f, size=size, kw=kw, k=k: LAYER[(g, f)](2, 2, k, group_kernel_size=size, **kw)
            yield f"building {g} {f}", "random", lambda build=build: parameters(build())
            for name in [n for n, p in build().named_parameters()]:
                def reset(build=build, name=name):
                    before = torch.get_rng_state()
                    m = build()
                    torch.set_rng_state(before)
                    with torch.no_grad():
                        for p in m.parameters():
                            p.fill_(7.0)
                    m.reset_parameters()
                    return dict(m.named_parameters())[name]

                yield f"resetting {name} of {g} {f}", "random", reset

                def own(m=build(), name=name):
                    with torch.no_grad():
                        for p in m.parameters():
                            p.fill_(7.0)
                    m.kernel.reset_parameters()
                    return dict(m.named_parameters())[name]

                if name != "bias":
                    yield f"resetting {name} of the kernel of {g} {f}", "random", own
            layer = calls.seeded(build, int(rng.integers(1, 10**6)))
            x = torch.tensor(rng.normal(size=(1, 2, *(() if f == "lift" else (2,)), *(3,) * DIM[g])), dtype=torch.float32)
            H = [] if f == "lift" else [kern.tensor(g, [kern.element(g, rng, False) for _ in range(2)])]
            for permute in (True, False):
                def forward(layer=layer, x=x, H=H, permute=permute, ev=bool(rng.random() < 0.5)):
                    layer.permute_output_grid = permute
                    layer.train(not ev)
                    with torch.set_grad_enabled(not ev):
                        return layer(x, *H)

                yield f"calling {g} {f}, permutation {'on' if permute else 'off'}", "random" if permute else "fixed", forward


def spreading(rng):
    a = calls.quats(3, rng).float()
    b = calls.spaced(4, rng).float()
    for noise in (0.1, 0.0):
        for inplace in (False, True):
            for steps in (0, 3):
                kind = "fixed" if steps == 0 else "random" if noise else "any"
                yield f"repulse {steps} {noise} {inplace}", kind, lambda noise=noise, inplace=inplace, steps=steps: repulsion.repulse(
                    a.clone(), steps, 0.01, so3.geodesic_distance, alpha=noise, show_pbar=False, in_place=inplace)
    yield "repulse angles", "random", lambda: repulsion.repulse(b.clone(), 2, 0.01, so2.geodesic_distance, alpha=0.05, show_pbar=False)


def shapes(rng):
    """Random elements of all kinds and shapes, and grids that take no steps."""
    for f in (so3.random_quat, so3.random_matrix, so3.random_euler, s2.random_s2):
        for shape in (1, int(rng.integers(2, 9)), (2,), (3, 2), (1, 4), (2, 2, 2)):
            if f is s2.random_s2:
                shape = shape if isinstance(shape, tuple) else (shape,)
                yield f"s2.random_s2 {shape}", lambda shape=shape: s2.random_s2(shape)
            else:
                yield f"so3.{f.__name__} {shape}", lambda f=f, shape=shape: f(shape)
    for g, ns in ((so2, (1, 2, 7)), (o2, (1, 2, 7)), (o3, (1, 2, 7))):
        for n in ns:
            yield f"{g.__name__} random_grid {n}", lambda g=g, n=n: g.random_grid(n)
    for p in ("quat", "matrix", "euler"):
        n = int(rng.integers(28, 40))
        yield f"so3.uniform_grid without steps {n} {p}", lambda n=n, p=p: so3.uniform_grid(n, p, steps=0, show_pbar=False)
    for p in ("spherical", "euclidean", "quat", "matrix", "euler"):
        n = int(rng.integers(1, 6))
        yield f"s2.uniform_grid_s2 without steps {n} {p}", lambda n=n, p=p: s2.uniform_grid_s2(n, p, bool(n % 2), steps=0, show_pbar=False)


def pool(rng):
    out = [(name, "random", fn) for name, fn in shapes(rng)]
    for name, random, fn in calls.makers(rng):
        # converting cached grids would do as well as making new ones
        kind = "any" if name == "so3.uniform_grid cached euler" else "random" if random else "fixed"
        out.append((name, kind, fn))
    for name, args, fn in calls.operations(rng):
        if name.startswith("repulse"):
            continue
        out.append((name, "fixed", lambda fn=fn, args=args: fn(*[a.float() for a in args])))
    for name, H, k in calls.kernels(rng):
        out.append((name, "fixed", lambda k=k, H=H: k(*[h.float() for h in H])))
    for name, x, H, build in calls.modules(rng):
        m = build()
        if "Norm" in name:
            m.eval()
        out.append((name, "fixed", lambda m=m, x=x, H=H: m(x.float(), H.float())))
        out.append(("building " + name, "fixed", lambda build=build: parameters(build())))
    return out + list(layers(rng)) + list(spreading(rng))


def program(rec, h, ops, rng):
    saved = None
    seeds = {k: int(rng.integers(1, 2**31)) for k in (1, 2)}
    torch.manual_seed(int(rng.integers(1, 2**31)))
    rec.ev("start", post=state())
    for a in h:
        o, n = a["op"], a["n"]
        if o == "seed":
            torch.manual_seed(seeds[n])
            rec.ev("seed", n=n, post=state())
        elif o == "save":
            saved = torch.get_rng_state()
            rec.ev("save", n=0)
        elif o == "restore":
            torch.set_rng_state(saved)
            rec.ev("restore", n=0, post=state())
        else:
            name, kind, fn = ops[n - 1]
            pre, before = state(), others()
            y, error = [], ""
            try:
                y = numbers(fn())
            except Exception as e:
                error = short(e)
            if len(y) > 60:
                y = y[:30] + y[-30:] if all(abs(v) < 2 * 10**9 for v in y) else [2 * 10**9]
            rec.ev("do", n=n, name=name, kind=kind, pre=pre, post=state(), error=error, others=others() == before, y=y)


def run(rec, thorough, rng):
    hs = gen.some(tlc.simulate("MCRandom", "SimRandom.cfg", 300 if thorough else 100, 17, int(rng.integers(1, 10**6))), 400, rng)
    was = torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled()
    torch.use_deterministic_algorithms(True, warn_only=True)  # fills new memory with nan
    try:
        for rep in range(8 if thorough else 2):
            ops = pool(rng)
            rest = [o for o in ops if o[1] != "random"]
            rand = [o for o in ops if o[1] == "random"]
            rest = [rest[int(i)] for i in rng.permutation(len(rest))]
            rand = [rand[int(i)] for i in rng.permutation(len(rand))]
            for i in range(max(len(rand), len(rest)) // 2 + 1):
                # operations 1 and 4 of the behaviour are fixed or any, 2 and 3 are random
                four = [rest[(2 * i) % len(rest)], rand[(2 * i) % len(rand)], rand[(2 * i + 1) % len(rand)], rest[(2 * i + 1) % len(rest)]]
                h = hs[int(rng.integers(len(hs)))]
                done = {a["n"] for a in h if a["op"] == "do"}
                h = h + [dict(op="do", n=k) for k in (1, 2, 3, 4) if k not in done]
                with rec.trace(("program", [o[0] for o in four])):
                    program(rec, h, four, rng)
    finally:
        torch.use_deterministic_algorithms(was[0], warn_only=was[1])
