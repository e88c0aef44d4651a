"""A pretend accelerator: real numbers, computed on the CPU, that say they live on another device.

Every tensor of it carries an ordinary CPU tensor with its values and calls itself
a tensor of device "meta".  Operations run on the values, under the rule of real accelerators:
the tensors given to one operation all live on one device, where only a
CPU tensor without dimensions (a number) and a CPU index may be mixed in.
"""

import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map

DEVICE = torch.device("meta")

# operations that may take tensors of more than one device
MOVES = {"_to_copy", "copy_", "_local_scalar_dense", "set_", "_has_compatible_shallow_copy_type"}
INDEXES = {"index", "index_put", "index_put_", "_index_put_impl_"}


class Elsewhere(RuntimeError):
    pass


class Remote(torch.Tensor):
    @staticmethod
    def __new__(cls, value, requires_grad=False):
        out = torch.Tensor._make_wrapper_subclass(
            cls,
            value.size(),
            strides=value.stride(),
            storage_offset=value.storage_offset(),
            dtype=value.dtype,
            layout=value.layout,
            device=DEVICE,
            requires_grad=requires_grad,
        )
        out.value = value
        return out

    def __init__(self, value, requires_grad=False):
        pass

    def __repr__(self):
        return f"Remote({self.value})"

    def tolist(self):
        return self.value.tolist()

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def local(x):
    return x.value if isinstance(x, Remote) else x


def dispatch(func, args, kwargs):
    name = func.overloadpacket.__name__
    flat, _ = tree_flatten((args, kwargs))
    tensors = [t for t in flat if isinstance(t, torch.Tensor)]
    remote = [t for t in tensors if isinstance(t, Remote)]
    target = kwargs.get("device")
    to_remote = bool(remote)

    if target is not None:
        to_remote = torch.device(target).type == DEVICE.type
        kwargs = dict(kwargs, device=torch.device("cpu"))

    if remote and name not in MOVES:
        if name in INDEXES:
            judged = [args[0]] + [t for t in tree_flatten(args[2:])[0] if isinstance(t, torch.Tensor)]
        else:
            judged = tensors
        for t in judged:
            if not isinstance(t, Remote) and t.dim() > 0:
                raise Elsewhere(f"{name}: tensors of two devices, {tuple(t.shape)} is on the CPU")
        if name in INDEXES and not isinstance(args[0], Remote):
            for t in tree_flatten(args[1])[0]:
                if isinstance(t, Remote):
                    raise Elsewhere(f"{name}: a CPU tensor is indexed from another device")

    if name == "_local_scalar_dense":
        return func(*tree_map(local, args))

    out = func(*tree_map(local, args), **tree_map(local, kwargs))

    if name == "copy_" or (name.endswith("_") and not name.endswith("__")):
        first = args[0]
        if isinstance(first, Remote) or not to_remote:
            return first

    given = {id(local(t)): t for t in tensors}

    def wrap(x):
        if not isinstance(x, torch.Tensor):
            return x
        if id(x) in given:
            return given[id(x)]
        return Remote(x) if to_remote else x

    return tree_map(wrap, out)


def numbers(index):
    """The index with its lists of numbers as CPU tensors."""
    if isinstance(index, tuple):
        return tuple(numbers(i) for i in index)
    if isinstance(index, (list, np.ndarray)) and not any(isinstance(i, (slice, type(None), type(...), torch.Tensor, list)) for i in index):
        return torch.tensor(index)
    return index


class Making(TorchFunctionMode):
    """Makers that read Python data and so never reach the dispatcher with their device."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        name = getattr(func, "__name__", "")
        if name in ("__getitem__", "__setitem__"):
            args = (args[0], numbers(args[1]), *args[2:])
        if name in ("tensor", "as_tensor", "new_tensor"):
            device = kwargs.pop("device", None)
            if device is None and name == "new_tensor":
                device = args[0].device
            if device is None and name == "as_tensor" and isinstance(args[0], Remote):
                return args[0].to(**kwargs)
            if name == "new_tensor":
                kwargs.setdefault("dtype", args[0].dtype)
                args = args[1:]
                func = torch.tensor
            out = func(*args, **kwargs)
            if device is not None:
                out = out.to(device)
            return out
        return func(*args, **kwargs)


class Accelerator:
    """Within it, tensors can be made on, and moved to, the pretend device."""

    def __enter__(self):
        self.making, self.running = Making(), Running()
        self.making.__enter__()
        self.running.__enter__()
        return self

    def __exit__(self, *failure):
        self.running.__exit__(*failure)
        self.making.__exit__(*failure)


class Running(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def send(x):
    """A copy of the tensor on the pretend device."""
    return Remote(x.detach().clone())


def fetch(x):
    return local(x.detach()) if isinstance(x, Remote) else x.detach()
