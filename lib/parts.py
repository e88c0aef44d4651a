"""A large request, and the same asked in small portions.

The recorded events carry the answers at a few positions of the large request and the
answers of the small ones, as integers; the specification (TraceJudge!Assembled) says
how they have to agree.
"""
import torch

from .rec import q, shape


def part(rec, what, big, want, at, one, scale=1e3, tol=12, most=400, **kw):
    """big: result of the large request, of shape want; at(big, i): its i-th portion; one: the portions asked for by themselves."""
    if list(big.shape) != list(want):
        rec.ev("part", what=what, so=shape(big), want=list(want), all=[], one=[], tol=tol, **kw)
        return
    A = [q(at(big, i).reshape(-1)[:most], scale) for i in range(len(one))]
    rec.ev("part", what=what, so=shape(big), want=list(want), all=A, one=[q(o.reshape(-1)[:most], scale) for o in one], tol=tol, **kw)


def clear(D, by=0.01):
    """Rows of distances whose smallest entry is smallest by far."""
    s = torch.as_tensor(D).double().sort(dim=-1).values
    return s.shape[-1] < 2 or bool(((s[..., 1] - s[..., 0]) > by).all())
