"""Recording of what the real code did.

A Recorder collects *traces*: lists of events, each event a flat JSON record with
integers, strings, booleans and (nested) lists only.  The recorder and the drivers
never decide whether something is right; they only write down, as integers at a
stated scale, what was asked of the library and what came back.  The judgement is
the TLA+ specification's.
"""
import contextlib
import os
import sys
import traceback
import zlib

REPO = os.environ.get("GCONV_REPO", "/repo")
os.environ.setdefault("TQDM_DISABLE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import warnings

warnings.filterwarnings("ignore")

import numpy as np
import torch
import tqdm.std

tqdm.std.tqdm.status_printer = staticmethod(lambda file: lambda s: None)  # no progress bars

torch.set_num_threads(1)

BAD = 2000000000  # stands for "not a finite number of sensible size"


def q(x, scale, lim=1e8):
    """Flat list of round(x * scale); BAD for nan, inf and anything larger than lim."""
    a = torch.as_tensor(x).detach().to(torch.float64).cpu().numpy().reshape(-1) * scale
    ok = np.isfinite(a) & (np.abs(np.where(np.isfinite(a), a, 0)) <= lim)
    return [int(v) if o else BAD for v, o in zip(np.rint(np.where(ok, a, 0)), ok)]


def qn(x, scale, lim=1e8):
    """As q, but nested along the first dimension."""
    t = torch.as_tensor(x).detach()
    return [q(r, scale, lim) for r in t]


def shape(t):
    return [int(s) for s in t.shape] if isinstance(t, torch.Tensor) else [-1]


def crc(t):
    """Fingerprint of the exact contents of a tensor (or of several)."""
    if t is None:
        return 0
    if isinstance(t, (list, tuple)):
        h = 0
        for x in t:
            h = (h * 31 + crc(x)) & 0x3FFFFFFF
        return h
    t = t.detach()
    # + 0.0 makes -0.0 and 0.0 the same value
    a = t.cpu().contiguous()
    if a.dtype.is_floating_point:
        a = a + 0.0
    h = zlib.crc32(a.numpy().tobytes())
    return zlib.crc32((str(tuple(t.shape)) + str(t.dtype)).encode(), h) & 0x3FFFFFFF


def attempt(fn, *a, **k):
    """(True, value) or (False, name of the exception raised)."""
    try:
        return True, fn(*a, **k)
    except Exception as e:  # noqa
        return False, type(e).__name__


class Interner:
    """Maps fingerprints to small consecutive integers."""

    def __init__(self):
        self.d = {}

    def __call__(self, key):
        return self.d.setdefault(key, len(self.d) + 1)


class Recorder:
    def __init__(self):
        self.traces = []
        self.cur = None
        self.exceptions = []

    @contextlib.contextmanager
    def trace(self, label="", guard=True):
        """Everything recorded inside belongs to one trace.  An exception escaping from
        the library is itself recorded: the specification has no such step."""
        self.cur = []
        self.traces.append(self.cur)
        try:
            yield self
        except Exception as e:  # noqa
            if not guard:
                raise
            tb = traceback.format_exc()
            self.exceptions.append((label, tb))
            where = ""
            for f in traceback.extract_tb(e.__traceback__):
                where = f"{os.path.basename(f.filename)}:{f.name}"
            self.ev("exception", what=f"{type(e).__name__}: {e}"[:300], where=where, case=str(label)[:300])
        finally:
            if not self.cur:
                self.traces.remove(self.cur)
            self.cur = None

    def ev(self, op, **kw):
        kw["op"] = op
        self.cur.append(kw)

    def one(self, op, label="", **kw):
        with self.trace(label):
            self.ev(op, **kw)


def clean(x):
    """Make JSON-able: tuples to lists, numpy/torch scalars to python."""
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, np.integer)):
        x = int(x)
        assert -(2**31) < x < 2**31, x
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, torch.Size):
        return [int(v) for v in x]
    raise TypeError(type(x))
