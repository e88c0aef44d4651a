"""C03: conversions between parameterizations."""
import math

import numpy as np
import torch

from lib import gen, tlc
from lib.rec import crc, q, shape
from gconv.geometry import so2, so3
from gconv.geometry.groups import s2

TRACE = "TraceC03"
MODELS = [("MCParam", "MCParam.cfg")]
PI = math.pi

CONV = [
    ("angle", "so2m", "", so2.angle_to_matrix), ("angle", "euclid2", "", so2.angle_to_euclid),
    ("euler", "so3m", "", so3.euler_to_matrix), ("euler", "quat", "", so3.euler_to_quat),
    ("so3m", "quat", "", so3.matrix_to_quat), ("so3m", "euler", "", so3.matrix_to_euler),
    ("quat", "so3m", "", so3.quat_to_matrix), ("quat", "euler", "", so3.quat_to_euler),
    ("thx", "so3m", "", so3.matrix_x), ("thy", "so3m", "", so3.matrix_y), ("thz", "so3m", "", so3.matrix_z),
    ("sph", "vec3", "", s2.spherical_to_euclid), ("vec3", "sph", "", s2.euclid_to_spherical),
    ("sph", "euler", "zero", s2.spherical_to_euler), ("sph", "euler", "neg_gamma", s2.spherical_to_euler_neg_gamma),
]
STEP = {(f, t): fn for f, t, n, fn in CONV if f in ("euler", "so3m", "quat")}
ESH = {"angle": (1,), "euclid2": (2,), "so2m": (2, 2), "euler": (3,), "quat": (4,), "so3m": (3, 3), "thx": (), "thy": (),
       "thz": (), "sph": (2,), "vec3": (3,)}
ANG = {"angle", "euler", "thx", "thy", "thz", "sph"}


def fixp(p, t):
    w = int(np.prod(ESH[p])) if ESH[p] else 1
    a = t.detach().to(torch.float64).reshape(-1, w)
    return [q(r, 1e5 if p in ANG else 1e4) for r in a]


def beta(rng):
    r = rng.random()
    if r < 0.2:
        return float(rng.choice([0.0, PI, PI / 2]))
    if r < 0.4:
        return 10 ** float(rng.uniform(-7, -1))
    if r < 0.55:
        return PI - 10 ** float(rng.uniform(-7, -1))
    return float(rng.uniform(0, PI))


def rand_so3(rng):
    """A rotation matrix: generic, special, near a half turn, near or at gimbal lock."""
    r = rng.random()
    if r < 0.25:
        return gen.OCT[int(rng.integers(24))].copy()
    if r < 0.4:
        return [gen.rx, gen.ry, gen.rz][int(rng.integers(3))](PI / 12 * int(rng.integers(0, 24)))
    if r < 0.6:
        return gen.rz(gen.rand_angle(rng)) @ gen.ry(beta(rng)) @ gen.rz(gen.rand_angle(rng))
    if r < 0.75:  # at or near a half turn
        return gen.mat_of(gen.axis_angle(rng.normal(size=3), PI - float(rng.choice([0, 1e-5, 1e-3, 0.1]))))
    return gen.mat_of(gen.rand_quat(rng))


def rand_vec3(rng):
    r = rng.random()
    if r < 0.3:
        v = np.zeros(3)
        v[int(rng.integers(3))] = rng.choice([-1.0, 1.0])
        return v
    if r < 0.5:  # near a pole
        t = 10 ** rng.uniform(-5, -1)
        f = rng.uniform(0, 2 * PI)
        return np.array([math.sin(t) * math.cos(f), math.sin(t) * math.sin(f), math.cos(t) * rng.choice([-1, 1])])
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def rand_p(p, rng):
    if p in ("angle", "thx", "thy", "thz"):
        return np.array(gen.rand_angle(rng, wide=True))
    if p == "euler":
        b = beta(rng)
        if rng.random() < 0.2:
            b = float(rng.uniform(-7, 7))
        return np.array([gen.rand_angle(rng, True), b, gen.rand_angle(rng, True)])
    if p == "so3m":
        return rand_so3(rng)
    if p == "quat":
        v = gen.quat_of(rand_so3(rng))
        return v if rng.random() < 0.5 else -v
    if p == "sph":
        return np.array([beta(rng), gen.rand_angle(rng, True)])
    if p == "vec3":
        return rand_vec3(rng)


def batch(p, lead, rng, dt):
    n = int(np.prod(lead)) if lead else 1
    a = np.array([rand_p(p, rng) for _ in range(n)], dtype=np.float64).reshape((*lead, *ESH[p]))
    return torch.tensor(a, dtype=dt)


def conv(rec, f, t, n, fn, x, lead, look=None):
    with rec.trace((f, t, n, tuple(lead))):
        c0 = crc(x)
        r = fn(x)
        if look:
            r, x0, lead = gen.at(r, lead, look), x, [len(look)]
            x = gen.at(x, x.shape[:1], look)
            c0 = crc(x) if crc(x0) == c0 else -1
        es = list(ESH[t])
        ok = list(r.shape[r.ndim - len(es):]) == es
        rec.ev("conv", fn=n, **{"from": f, "to": t}, sa=list(lead), a=fixp(f, x), so=shape(r), r=fixp(t, r) if ok else [],
               c0=c0, c1=crc(x))


def run(rec, thorough, rng):
    leads = [(), (1,), (7,), (2, 3), (3, 1, 2), (0,), (16,), (3,), (4,), (2, 0), (2, 2, 2, 2)]
    for _ in range(8 if thorough else 2):
        for f, t, n, fn in CONV:
            for lead in leads:
                if f == "sph" and t == "euler" and len(lead) != 1:
                    continue  # documented for lists of directions
                for dt in (torch.float32, torch.float64):
                    x = gen.relayout(batch(f, lead, rng, dt), rng, len(lead))
                    conv(rec, f, t, n, fn, x, lead)
    for f, t, n, fn in CONV:  # long lists, of which some are looked at
        for k in gen.MANY if thorough else rng.permutation(gen.MANY)[:3]:
            x = gen.relayout(batch(f, (int(k),), rng, torch.float64 if rng.random() < 0.3 else torch.float32), rng, 1)
            conv(rec, f, t, n, fn, x, (int(k),), gen.few(int(k), rng))
    # every rotation of the cube at once, and one by one, from each parameterization
    mats = torch.tensor(np.array(gen.OCT), dtype=torch.float32)
    quats = torch.tensor(np.array([gen.quat_of(m) for m in gen.OCT]), dtype=torch.float32)
    eul = torch.tensor([[a * PI / 2, b * PI / 2, c * PI / 2] for a in range(4) for b in range(3) for c in range(4)])
    for f, x in (("so3m", mats), ("quat", quats), ("quat", -quats), ("euler", eul), ("euler", -eul)):
        for f2, t, n, fn in CONV:
            if f2 == f:
                conv(rec, f, t, n, fn, x, x.shape[:1])
                for i in range(len(x)):
                    conv(rec, f, t, n, fn, x[i], ())
    for _ in range(60 if thorough else 15):
        for dt in (torch.float32, torch.float64):
            fine(rec, rng, dt)
    # chains of conversions: behaviours of the specification
    hists = tlc.simulate("MCParam", "SimParam.cfg", 120 if thorough else 40, 10, int(rng.integers(1, 10**6)))
    for h in hists:
        with rec.trace(("chain", tuple(h["path"]))):
            m = np.array(h["start"], dtype=np.float64).reshape(3, 3)
            k = h["path"][0]
            x = {"so3m": lambda: m, "quat": lambda: gen.quat_of(m) * (-1) ** int(rng.integers(2)),
                 "euler": lambda: euler_of(m)}[k]()
            x = torch.tensor(np.asarray(x), dtype=torch.float32)
            rec.ev("start", m=h["start"])
            chain(rec, x, k, h["path"][1:], rng)
    for _ in range(200 if thorough else 60):
        path = ["so3m"]
        for _i in range(8):
            path.append(str(rng.choice([p for p in ("so3m", "euler", "quat") if p != path[-1]])))
        with rec.trace(("chain", tuple(path))):
            x = torch.tensor(rand_so3(rng), dtype=torch.float32)
            rec.ev("startg", p="so3m", r=fixp("so3m", x)[0])
            chain(rec, x, "so3m", path[1:], rng)


U = 1e7
ONE = {(f, t): fn for f, t, n, fn in CONV}
FINE = {
    "euler": [["so3m"], ["quat"], ["so3m", "quat"], ["so3m", "euler"], ["so3m", "euler", "so3m"], ["quat", "euler", "quat", "so3m"]],
    "so3m": [["quat"], ["euler"], ["quat", "so3m"], ["euler", "so3m"], ["euler", "quat"], ["euler", "so3m", "quat"]],
    "quat": [["so3m"], ["euler"], ["so3m", "quat"], ["euler", "quat"], ["euler", "so3m"]],
    "sph": [["vec3"], ["vec3", "sph"], ["vec3", "sph", "vec3"]],
    "vec3": [["sph"], ["sph", "vec3"]],
    "thx": [["so3m"], ["so3m", "euler", "so3m"]], "thy": [["so3m"], ["so3m", "euler", "so3m"]], "thz": [["so3m"], ["so3m", "quat"]],
}


def lattice_quat(m):
    """Integers p with p / 2 (half) or p times the root of a half the quaternion of m."""
    v = gen.quat_of(m)
    half = all(abs(2 * x - round(2 * x)) < 1e-6 for x in v)
    return [int(round(x * (2 if half else math.sqrt(2)))) for x in v], half


def fine(rec, rng, dt):
    for f, vias in FINE.items():
        for via in vias:
            lead = [(), (5,), (2, 2)][int(rng.integers(3))]
            n = int(np.prod(lead)) if lead else 1
            size = int(rng.choice([30, 300, 3000]))
            xs, facts = [], []
            for _ in range(n):
                d = [int(v) for v in rng.integers(-size, size + 1, 3)]
                for i in range(3):
                    if rng.random() < 0.4:
                        d[i] = 0
                k = [int(v) for v in rng.integers(-2, 5, 3)]
                if f in ("euler", "sph", "thx", "thy", "thz"):
                    w = {"euler": 3, "sph": 2}.get(f, 1)
                    if f in ("euler", "sph"):
                        i = 1 if f == "euler" else 0
                        k[i] = int(rng.integers(0, 3))
                    x = np.array([a * PI / 2 + b / U for a, b in zip(k, d)])[:w]
                    facts.append(dict(k=k[:w], d=d[:w], m=[], w=[], p=[], half=True))
                else:
                    m = gen.OCT[int(rng.integers(24))]
                    v = np.array(d) / U
                    t = np.linalg.norm(v)
                    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
                    R = (np.eye(3) + K + K @ K / 2) @ m
                    p, half = lattice_quat(m)
                    qn = np.array(p) * (0.5 if half else math.sqrt(0.5))
                    dq = np.array([math.sqrt(1 - t * t / 4), *(v / 2)])
                    ham = np.array([dq[0] * qn[0] - dq[1:] @ qn[1:], *(dq[0] * qn[1:] + qn[0] * dq[1:] + np.cross(dq[1:], qn[1:]))])
                    x = {"so3m": R, "quat": ham * rng.choice([-1, 1]), "vec3": R[:, 2]}[f]
                    facts.append(dict(k=[], d=[], m=[int(a) for a in m.reshape(-1)], w=d, p=p, half=bool(half)))
                xs.append(x)
            if f in ("euler", "sph", "thx", "thy", "thz"):
                for i, fact in enumerate(facts):  # the quaternion is only needed to name the sign
                    kk = {"euler": lambda: fact["k"], "sph": lambda: [0, *fact["k"]]}.get(f, lambda: [0, 0, 0])()
                    M = np.rint(gen.rz(kk[2] * PI / 2) @ gen.ry(kk[1] * PI / 2) @ gen.rz(kk[0] * PI / 2))
                    if f in ("thx", "thy", "thz"):
                        M = np.rint({"thx": gen.rx, "thy": gen.ry, "thz": gen.rz}[f](fact["k"][0] * PI / 2))
                    fact["p"], fact["half"] = lattice_quat(M)
            x = torch.tensor(np.array(xs).reshape((*lead, *ESH[f])), dtype=dt)
            with rec.trace(("fine", f, tuple(via), tuple(lead))):
                y, at = x, f
                for t in via:
                    y, at = ONE[(at, t)](y), t
                w = int(np.prod(ESH[at]))
                ys = y.detach().double().reshape(-1, w)
                for fact, r in zip(facts, ys):
                    rec.ev("fine", **{"from": f}, via=via, r=q(r, U), **fact)


def chain(rec, x, k, path, rng):
    for t in path:
        batched = rng.random() < 0.5
        x = STEP[k, t](x[None])[0] if batched else STEP[k, t](x)
        k = t
        rec.ev("hop", p=k, r=fixp(k, x)[0])


def euler_of(m):
    b = math.acos(max(-1, min(1, m[2, 2])))
    if abs(m[2, 2]) > 0.99:
        return [math.atan2(m[1, 0], m[1, 1]), b, 0.0]
    return [math.atan2(m[2, 1], -m[2, 0]), b, math.atan2(m[1, 2], m[0, 2])]
