"""Small shared pieces of the harnesses: inputs, memory layouts, spellings."""
import itertools

import numpy as np
import torch

DT = {"f64": torch.float64, "f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16, "i64": torch.int64,
      "i32": torch.int32, "i16": torch.int16, "u8": torch.uint8, "bool": torch.bool}
TOL = {"f64": (1e-9, 1e-9), "f32": (1e-4, 1e-4), "f16": (1e-2, 1e-2), "bf16": (5e-2, 5e-2)}


def tol(dt):
    r, a = TOL.get(dt, (0, 0))
    return {"rtol": r, "atol": a}


def generic(shape, salt=0, lo=-40, span=97):
    """Deterministic integer-valued data without symmetries (distinct values while the size is below span)."""
    n = int(np.prod(shape, dtype=int)) if len(shape) else 1
    i = np.arange(n, dtype=np.int64)
    v = (i * 61 + 17 + salt * 23 + (i // span) * 7) % span + lo
    return v.reshape(shape).astype(np.float64)


def smallints(shape, salt=0):
    return generic(shape, salt, lo=-3, span=7)


def unit(shape, salt=0):
    """values in (0,1), pairwise distinct enough"""
    n = int(np.prod(shape, dtype=int)) if len(shape) else 1
    i = np.arange(n, dtype=np.float64) + 1 + 13 * salt
    v = np.modf(i * 0.6180339887498949 + np.modf(i * i * 0.0414213562373095)[0])[0]
    return (0.02 + 0.96 * v).reshape(shape)


LAYOUTS = ("contiguous", "transposed", "strided", "offset", "expanded")


def lay(arr, layout="contiguous", dtype=torch.float64, requires_grad=False):
    """A tensor with the content of arr in the given memory layout (expanded: only if axis 0 is constant)."""
    arr = np.asarray(arr)
    t = torch.tensor(np.ascontiguousarray(arr), device="cpu").to(dtype)
    if t.ndim == 0:
        layout = "contiguous"
    if layout == "transposed":
        perm = list(range(t.ndim))[::-1]
        t = t.permute(*perm).contiguous().permute(*perm)
    elif layout == "strided":
        big = torch.full([2 * s + 1 for s in t.shape], 77 if dtype != torch.bool else 1, dtype=dtype, device="cpu")
        sl = tuple(slice(1, 1 + 2 * s, 2) for s in t.shape)
        big[sl] = t
        t = big[sl]
    elif layout == "offset":
        big = torch.full([s + 3 for s in t.shape], 55 if dtype != torch.bool else 1, dtype=dtype, device="cpu")
        sl = tuple(slice(2, 2 + s) for s in t.shape)
        big[sl] = t
        t = big[sl]
    elif layout == "expanded":
        t = t[:1].clone().expand(*t.shape)
    if requires_grad:
        t.requires_grad_(True)
    return t


def ordered_subsets(n, kmax=None):
    out = []
    for k in range(1, (kmax or n) + 1):
        out += list(itertools.permutations(range(n), k))
    return out


def high_axes(n):
    """axis choices of images with many axes: every axis, every ordered pair, and longer runs in several orders"""
    out = ordered_subsets(n, 2)
    for m in range(3, n + 1):
        turn = tuple((2 * i + 1) % n if n % 2 else (2 * i + (2 * i >= n)) % n for i in range(m))
        for a in (tuple(range(m)), tuple(range(n - m, n)), tuple(range(n - 1, n - 1 - m, -1)), turn):
            if a not in out and len(set(a)) == m:
                out.append(a)
    return out


HIGH = {5: (2, 3, 2, 4, 3), 6: (2, 1, 3, 2, 3, 4), 7: (1, 2, 2, 1, 3, 2, 3)}


def spell_axes(ndim, axes, how):
    """One concrete axes argument meaning `axes` (a tuple of non-negative indices), or None if how does not fit."""
    axes = tuple(axes)
    if how == "tuple":
        return axes
    if how == "list":
        return list(axes)
    if how == "neg":
        return tuple(a - ndim for a in axes)
    if how == "mixed":
        return tuple(a - ndim if i % 2 else a for i, a in enumerate(axes))
    if how == "int":
        return axes[0] if len(axes) == 1 else None
    if how == "negint":
        return axes[0] - ndim if len(axes) == 1 else None
    if how == "none":
        return None
    if how == "slice":
        return slice(axes[0], axes[-1] + 1)
    if how == "negslice":
        return slice(axes[0] - ndim, None)
    if how == "stepslice":
        step = axes[1] - axes[0]
        stop = axes[-1] + (1 if step > 0 else -1)
        return slice(axes[0], stop if stop >= 0 else None, step)
    raise KeyError(how)


def spellings(ndim, axes):
    """All spellings applicable to an ordered axis subset (first: plain tuple)."""
    axes = tuple(axes)
    hows = ["tuple", "list", "neg", "mixed"]
    if len(axes) == 1:
        hows += ["int", "negint"]
    if axes == tuple(range(ndim)):
        hows += ["none"]
    if axes == tuple(range(axes[0], axes[-1] + 1)):
        hows += ["slice"]
        if axes[-1] == ndim - 1:
            hows += ["negslice"]
    elif len(axes) > 1 and len({b - a for a, b in zip(axes, axes[1:])}) == 1:
        hows += ["stepslice"]
    return hows


def wrap_axes(spec):
    """JSON form -> python object"""
    if isinstance(spec, dict):
        return slice(*spec["slice"])
    if isinstance(spec, list):
        return tuple(spec)
    return spec


def weak_orders(n):
    """All weak orderings of n items as rank vectors (every way n reals can compare)."""
    seen = set()
    out = []
    for v in itertools.product(range(n), repeat=n):
        ranks = sorted(set(v))
        r = tuple(ranks.index(x) for x in v)
        if r not in seen:
            seen.add(r)
            out.append(r)
    return out
