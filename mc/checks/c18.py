"""
C18: every history acts like fresh.

A world is a set of objects plus an alphabet of calls.  Two explorations per world, each execution on real objects:
  bfs        breadth-first search over the deep state of the objects and of every torchimage module, to a fixpoint
  sequences  every sequence of calls up to a depth, whatever the state looks like
The expected result of a call is what a freshly built world gives in a process where nothing has been called before (with
objects that share nothing, for the worlds whose objects share a padder or a blur).  All results handed out earlier must keep
their values ("keep"), and overwriting them must not influence anything ("clobber").
"""
import itertools
import os
import pickle
import sys
import types

import numpy as np
import torch

from torchimage.cfa.bayer_conv import BayerConv2d, BayerConv2dUnshuffle, demosaic
from torchimage.cfa.utils import bayer_1c_to_4c, bayer_4c_to_1c, rgb_to_1c_bayer
from torchimage.contrib.edge_loss import GaussianEdgeLoss
from torchimage.filtering import (EdgeFilter, Farid, GaussianGrad, Laplace, LaplacianOfGaussian, Scharr, Sobel, UnsharpMask)
from torchimage.metrics import MS_SSIM, MSE, PSNR, SSIM
from torchimage.misc import describe, outer, poly1d, safe_power
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.pooling.operator import any_conv_1d
from torchimage.random import add_gauss_noise, add_poisson_gauss_noise, random_crop
from torchimage.shapes.conv_like import n_original_elements_nd
from torchimage.utils import NdSpec
from torchimage.utils.ragged import expand_ragged_ndarray, get_ragged_ndarray

from .. import ref
from ..catalog import OPS
from ..core import Harness, HarnessError, Violation
from ..util import DT, generic, lay, unit
from .c19 import data

ID = "C18"
ASSUMPTIONS = ["parameter gradients accumulate by design and are left out of the compared state",
               "in-place conversions the documentation announces (to_filter, to_same) are not mixed with their consequences",
               "results are compared up to 1e-9 relative (1e-4 for float32), since a refactored kernel may change rounding"]
STATE_CAP = {"quick": 100, "thorough": 600}
CASE_LIMIT_S = 300.0


# ---------------------------------------------------------------------------------------------------- deep state

PRIM = (int, float, bool, str, bytes, complex, type(None), type(Ellipsis), torch.dtype, torch.device)


def canon_of(roots):
    memo = {}
    out = []

    def walk(o, depth):
        if isinstance(o, PRIM):
            out.append(repr(o))
            return
        if isinstance(o, slice):
            out.append(repr(o))
            return
        if id(o) in memo:
            out.append("#%d" % memo[id(o)])
            return
        memo[id(o)] = len(memo)
        keep.append(o)
        out.append(type(o).__name__)
        if depth > 40:
            return
        if torch.is_tensor(o):
            t = o.detach()
            out.append("%s%s%s" % (t.dtype, tuple(t.shape), o.requires_grad))
            out.append(t.reshape(-1).tolist().__repr__() if t.numel() <= 64 else repr(hash(t.contiguous().numpy().tobytes())))
        elif isinstance(o, np.ndarray):
            out.append(repr((o.dtype, o.shape, hash(o.tobytes()) if o.dtype != object else repr(o.tolist()))))
        elif isinstance(o, np.generic):
            out.append(repr(o))
        elif isinstance(o, (list, tuple)):
            out.append("[")
            for x in o:
                walk(x, depth + 1)
            out.append("]")
        elif isinstance(o, (set, frozenset)):
            out.append(repr(sorted(map(repr, o))))
        elif isinstance(o, dict):
            out.append("{")
            for k, v in o.items():
                walk(k, depth + 1)
                out.append(":")
                walk(v, depth + 1)
            out.append("}")
        elif isinstance(o, types.FunctionType):
            out.append(o.__qualname__)
            walk(o.__defaults__, depth + 1)
            walk(o.__kwdefaults__, depth + 1)
            if (o.__module__ or "").startswith("torchimage"):
                walk(o.__dict__, depth + 1)
                for c in o.__closure__ or ():
                    try:
                        walk(c.cell_contents, depth + 1)
                    except ValueError:
                        out.append("empty cell")
        elif isinstance(o, type):
            out.append(o.__qualname__)
            if o.__module__.startswith("torchimage"):
                for k, v in o.__dict__.items():
                    if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "__qualname__", "_abc_impl", "__annotations__"):
                        out.append(k)
                        walk(v.__func__ if isinstance(v, (staticmethod, classmethod)) else v, depth + 1)
        elif isinstance(o, types.ModuleType):
            out.append(o.__name__)
        elif hasattr(o, "cache_info") and hasattr(o, "__wrapped__"):
            out.append(repr(o.cache_info()))
            walk(o.__wrapped__, depth + 1)
        elif type(o).__module__.startswith(("torchimage", "torch.nn", "collections")) and hasattr(o, "__dict__"):
            out.append("<")
            for k, v in vars(o).items():
                out.append(k)
                walk(v, depth + 1)
            out.append(">")
    keep = []
    for r in roots:
        walk(r, 0)
    return hash("\x00".join(out))


def module_roots():
    return [[(k, v) for k, v in vars(m).items() if not k.startswith("__") and not isinstance(v, types.ModuleType)]
            for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "torchimage" and m is not None]


# ---------------------------------------------------------------------------------------------------- worlds

class World:
    def __init__(self, make, calls, alone=None):
        self.make, self.calls, self.alone = make, calls, alone or make


def T(shape, dt="f64", salt=0, grad=False, lo=0.0):
    t = lay(unit(tuple(shape), salt) + lo, dtype=DT["f64"])
    t = (t * 40 - 20).round() if dt in ("i64", "i32") else t
    t = t.to(DT[dt])
    return t.requires_grad_(True) if grad else t


def back(outs, ins):
    """the gradients of a fixed weighting of the outputs"""
    if torch.is_tensor(outs):
        outs = [outs]
    s = sum((o * torch.linspace(-1, 2, o.numel(), dtype=o.dtype).reshape(o.shape)).sum() for o in outs)
    gs = torch.autograd.grad(s, ins, allow_unused=True)
    return list(outs) + [torch.zeros(()) if g is None else g for g in gs]


def op_world(name):
    op = OPS[name]
    calls = {}

    def xs_of(shape, salt, dt, grad=False):
        if dt.startswith("i"):
            ts = [lay(generic(shape, salt + s, lo=-9, span=19), dtype=DT[dt]) for s in range(op.nin)]
        else:
            ts = [lay(data(op, shape, salt + 2 * s), dtype=DT[dt]) for s in range(op.nin)]
        return [t.requires_grad_(True) for t in ts] if grad else ts

    def add(cname, shape, axes, salt=0, dt="f64", grad=False):
        shape = tuple(shape)

        def f(w):
            ts = xs_of(shape, salt, dt, grad)
            outs = op.call(w["obj"], ts, axes)
            return back(outs, ts) if grad else list(outs)
        calls[cname] = f

    def add_buffer(cname, shape, axes, salt, dt):
        """the caller refills one and the same tensor between the calls"""
        shape = tuple(shape)

        def f(w):
            ts = xs_of(shape, salt, dt)
            if shape not in w["buf"]:
                w["buf"][shape] = [t.clone() for t in ts]
            for t, v in zip(w["buf"][shape], ts):
                t.copy_(v)
            outs = list(op.call(w["obj"], w["buf"][shape], axes))
            return [o.clone() if any(o.data_ptr() == t.data_ptr() for t in w["buf"][shape]) else o for o in outs]
        calls[cname] = f
    base = "f64" if "f64" in op.dts else "f32"
    other = [d for d in op.dts if d != base] + (["i64"] if op.ints else [])
    if op.fixed:
        m = op.lead[-1]
        lead = (2, 3)[:m]
        s = tuple(op.shape)
        s2 = s[:-2] + (s[-1], s[-2])
        add("base", lead + s, None, dt=base)
        add("data", lead + s, None, 3, base)
        add_buffer("buffer", lead + s, None, 4, base)
        add_buffer("buffer refilled", lead + s, None, 5, base)
        add("shape", lead + s2, None, 1, base)
        add("larger", lead + s[:-2] + (s[-2] + 2, s[-1] + 4), None, 1, base)
        add("lead", (2, 3)[:op.lead[0]] + s, None, 2, base)
        add("grad", lead + s, None, 1, base, True)
        for d in other:
            add("dtype " + d, lead + s, None, 0, d)
        add("fails", s[-1:], None, 0, base)
        add("fails 2", lead + s[:-2] + (0, 0), None, 0, base)
    else:
        for k in op.k[-1:] + op.k[:-1]:
            c = tuple(op.sizes[:k]) if "msssim" not in name else (5, 6)
            c2 = tuple(x + 2 + i for i, x in enumerate(c))
            t = "" if k == op.k[-1] else " k=%d" % k
            ax = tuple(range(1, 1 + k))
            add("base" + t, (2,) + c, ax, dt=base)
            add("order" + t, (2,) + c[::-1], ax[::-1], 1, base)
            if t:
                continue
            add("data", (2,) + c, ax, 3, base)
            add_buffer("buffer", (2,) + c, ax, 4, base)
            add_buffer("buffer refilled", (2,) + c, ax, 5, base)
            if k > 1:
                add("swapped", (2,) + c[1:] + c[:1], ax, 1, base)
                add("equal sum", (2, c[0] + 1, c[1] - 1) + c[2:], ax, 1, base)
            else:
                add("equal size", c + (2,), (0,), 1, base)
            add("larger", (2,) + c2, ax, 1, base)
            add("no batch", c, tuple(range(-k, 0)), 2, base)
            add("first axes", c + (3,), tuple(range(k)), 2, base)
            if name != "poly1d:const":
                add("grad", (2,) + c, ax, 1, base, True)
            for d in other:
                add("dtype " + d, (2,) + c, ax, 0, d)
            add("fails", (2,) + c, tuple(range(2, 2 + k)), 0, base)
            add("fails 2", (2,) + tuple(0 for _ in c), ax, 0, base)
            add("fails 3", (2,) + tuple(1 for _ in c), ax, 0, base)
    return World(lambda: {"obj": op.make(), "buf": {}}, calls)


def ctor_world(build, use, others):
    """constructing and using differently configured objects next to one object"""
    calls = {"use": lambda w: use(w["obj"])}
    for i, o in enumerate(others):
        calls["other %d" % i] = lambda w, o=o: use(o())
        calls["keep %d" % i] = lambda w, o=o, i=i: [w.__setitem__("o%d" % i, o()), torch.zeros(1)][1:]
        calls["use kept %d" % i] = lambda w, o=o, i=i: use(w["o%d" % i] if w["o%d" % i] is not None else [w.__setitem__("o%d" % i, o()), w["o%d" % i]][1])
    return World(lambda: dict([("obj", build())] + [("o%d" % i, None) for i in range(len(others))]), calls)


def shared_calls(names, uses):
    calls = {}
    for n, u in zip(names, uses):
        for cn, f in u.items():
            calls[n + " " + cn] = lambda w, n=n, f=f: f(w[n])
    return calls


def layer_uses(k=2, ndim=2, both=True):
    sh = (6, 7, 5)[:ndim]
    u = {"a": lambda o: [o.forward(T(sh), axes=tuple(range(k)))],
         "swapped": lambda o: [o.forward(T(sh[1:] + sh[:1], salt=4), axes=tuple(range(k)))],
         "b": lambda o: [o.forward(T(tuple(s + 3 for s in sh), salt=2), axes=tuple(range(-k, 0)))],
         "f32": lambda o: [o.forward(T(sh, "f32", 1), axes=tuple(range(k)))],
         "fails": lambda o: [o.forward(T((0,) * ndim), axes=tuple(range(k)))],
         "grad": lambda o: (lambda x: back(o.forward(x, axes=tuple(range(k))), [x]))(T(sh, grad=True))}
    if both:
        u["one axis"] = lambda o: [o.forward(T(sh, salt=3), axes=(1,))]
    return u


def ssim_uses(ms=False):
    kw = dict(content_axes=(0, 1), reduce_axes=None)
    u = {"a": lambda o: [o.forward(T((9, 8)), T((9, 8), salt=3), **kw)],
         "b": lambda o: [o.forward(T((2, 12, 10)), T((2, 12, 10), salt=3), content_axes=(-1, -2), reduce_axes=(1, 2))],
         "fails": lambda o: [o.forward(T((9, 8)), T((8, 9)), **kw)],
         "fails 2": lambda o: [o.forward(T((1, 0)), T((1, 0)), **kw)],
         "grad": lambda o: (lambda x, y: back(o.forward(x, y, **kw), [x, y]))(T((9, 8), grad=True), T((9, 8), salt=1, grad=True))}
    if not ms:
        u["full"] = lambda o: list(o.forward(T((4, 9, 5)), T((4, 9, 5), salt=2), content_axes=(1,), reduce_axes=(0, 1), full=True))
    return u


def edge_uses():
    return {"magnitude": lambda o: [o.magnitude(T((6, 7)), axes=(0, 1), epsilon=0.1)],
            "all": lambda o: o.all_components(T((4, 5, 6)), axes=(0, 2)),
            "component": lambda o: [o.component(T((6, 7), salt=1), 1, 0)],
            "edge only": lambda o: [o.component(T((9, 4), salt=2), 0, ())],
            "fails": lambda o: [o.magnitude(T((6, 7)), axes=(0,))],
            "grad": lambda o: (lambda x: back(o.magnitude(x, axes=(0, 1), epsilon=0.2), [x]))(T((6, 7), grad=True))}


def padder_world(mode, pad, kw):
    def mk():
        return {"obj": Padder(pad, mode, **kw)}
    calls = {
        "a": lambda w: [w["obj"].forward(T((4, 3)), axes=(0, 1))],
        "swapped": lambda w: [w["obj"].forward(T((3, 4), salt=5), axes=(0, 1))],
        "b": lambda w: [w["obj"].forward(T((2, 5, 1), salt=1), axes=(2, 1))],
        "one": lambda w: [w["obj"].forward(T((1, 6), salt=2), axes=0)],
        "three": lambda w: [w["obj"].forward(T((2, 3, 2), salt=2), axes=None)],
        "default axes": lambda w: [w["obj"].forward(T((1, 2, 3, 4), salt=2))],
        "axis": lambda w: [w["obj"].pad_axis(T((4, 3)), -1, 0)],
        "axis 0": lambda w: [w["obj"].pad_axis(T((4, 7)), 0, -1)],
        "f32": lambda w: [w["obj"].forward(T((4, 3), "f32"), axes=(0, 1))],
        "i64": lambda w: [w["obj"].forward(T((4, 3), "i64"), axes=(0, 1))],
        "fails": lambda w: [w["obj"].forward(T((4, 3)), axes=(0, 2))],
        "fails 2": lambda w: [w["obj"].forward(T((0, 3)), axes=(0, 1))],
        "grad": lambda w: (lambda x: back(w["obj"].forward(x, axes=(0, 1)), [x]))(T((4, 3), grad=True)),
    }
    if mode in ("linear_ramp", "mean"):
        del calls["i64"]
    return World(mk, calls)


def share(parts, uses, common):
    """parts(common object) -> dict; alone: each built with its own"""
    def make():
        c = common()
        return {n: p(c) for n, p in parts.items()}

    def alone():
        return {n: p(common()) for n, p in parts.items()}
    return World(make, shared_calls(list(parts), uses), alone)


def set_params(layer):
    with torch.no_grad():
        for i, p in enumerate(layer.parameters()):
            p.copy_(((torch.arange(p.numel(), dtype=torch.float64) * (3 + i)) % 7 - 3).reshape(p.shape) / 2)
    return layer


def bayer_world(cls):
    def grad(w):
        x = T((1, 2, 4, 4), grad=True)
        ps = list(w["obj"].parameters())
        return back(w["obj"](x, "GBRG"), [x] + ps)

    def backward(w):
        for p in w["obj"].parameters():
            p.grad = None
        y = w["obj"](T((1, 2, 4, 6), salt=3), "BGGR")
        (y * y).sum().backward()
        return [y] + [p.grad.clone() for p in w["obj"].parameters()]
    return World(lambda: {"obj": set_params(cls(2, 3, 3, True).double())}, {
        "a": lambda w: [w["obj"](T((1, 2, 4, 6)), "RGGB")], "b": lambda w: [w["obj"](T((3, 2, 6, 4), salt=1), "GRBG")],
        "c": lambda w: [w["obj"](T((2, 4, 4), salt=2), "bggr")], "d": lambda w: [w["obj"](T((1, 2, 4, 6)), "GBRG")],
        "unshuffle": lambda w: [w["obj"].forward_unshuffle(T((1, 2, 4, 6)), "BGGR")],
        "fails": lambda w: [w["obj"](T((1, 2, 4, 6)), "RGBG")], "fails 2": lambda w: [w["obj"](T((1, 3, 4, 6)), "RGGB")],
        "fails 3": lambda w: [w["obj"](T((1, 2, 3, 6)), "RGGB")], "eval": lambda w: [w["obj"].eval()(T((1, 2, 4, 6), salt=4), "RGGB")],
        "grad": grad, "backward": backward})


def gen():
    g = torch.Generator()
    g.manual_seed(5)
    return g


def function_world():
    T3 = lambda dt: torch.tensor([1.0, -2.0, 0.5], dtype=DT[dt])
    c = {}
    for dt in ("f64", "f32"):
        c.update({
            "conv " + dt: lambda w, dt=dt: [any_conv_1d(T((5, 6), dt), T3(dt), dim=0, stride=1, dilation=1)],
            "conv last " + dt: lambda w, dt=dt: [any_conv_1d(T((5, 6), dt), T3(dt), dim=-1, stride=2, dilation=2)],
            "poly " + dt: lambda w, dt=dt: [poly1d(T((5,), dt), (2.0, -1.0, 0.5))],
            "power " + dt: lambda w, dt=dt: [safe_power(T((5,), dt) - 0.5, 0.5)],
            "outer " + dt: lambda w, dt=dt: [outer(T((3,), dt), T((2, 2), dt, 1))],
            "noise " + dt: lambda w, dt=dt: [add_gauss_noise(T((3, 2), dt), 0.5, generator=gen())],
            "poisson " + dt: lambda w, dt=dt: [add_poisson_gauss_noise(T((3, 2), dt), 0.1, 0.5, generator=gen())],
            "elements " + dt: lambda w, dt=dt: [n_original_elements_nd([5, 4], [(1, 1), (2, 0)], 3, [1, 2], dtype=DT[dt])],
        })
    c.update({
        "crop": lambda w: [random_crop(T((7, 8)), (0, 1), 3, generator=gen())],
        "crop 2": lambda w: [random_crop(T((7, 8)), (1, 0), [2, None], generator=gen())],
        "elements": lambda w: [n_original_elements_nd([5, 4], [(1, 1), (2, 0)], 3, [1, 2])],
        "describe": lambda w: [torch.tensor(list(describe(T((5, 4))).values()))],
        "4c": lambda w: [bayer_1c_to_4c(T((2, 1, 4, 2)))], "1c": lambda w: [bayer_4c_to_1c(T((2, 4, 2, 1)))],
        "rgb": lambda w: [rgb_to_1c_bayer(T((3, 4, 2)), "GRBG")], "rgb 2": lambda w: [rgb_to_1c_bayer(T((3, 4, 2)), "BGGR")],
        "demosaic": lambda w: [demosaic(T((1, 4, 6), "f32"), "GRBG")], "demosaic 2": lambda w: [demosaic(T((2, 1, 6, 4), "f32"), "RGGB")],
        "ragged": lambda w: [torch.tensor(expand_ragged_ndarray([1.0, 2.0], old_shape=(2,), new_shape=(3, 2))[0])],
        "spec": lambda w: [torch.tensor(NdSpec.zip(NdSpec([1.0, 2.0]), NdSpec(4.0)).data)],
    })
    return World(dict, c)


PAD_KW = {"constant": {"constant_values": [(3, -2)]}, "linear_ramp": {"end_values": (2.0, -1.0)}, "maximum": {"stat_length": 2},
          "minimum": {"stat_length": (2, 3)}, "median": {"stat_length": 3}}
X = lambda o: [o.forward(T((6, 7)), axes=(0, 1))]
WORLDS = {}


def lazy(name, f):
    WORLDS[name] = f


for _n in OPS:
    lazy("op " + _n, lambda n=_n: op_world(n))
for _m in ref.ALL_MODES:
    if _m != "empty":
        lazy("padder " + _m, lambda m=_m: padder_world(m, (3, 2), PAD_KW.get(m, {})))
lazy("padder list", lambda: World(
    lambda: {"obj": Padder([(1, 2), (3, 0)], ["reflect", "constant"], constant_values=[(0, 0), (1, 5)])}, padder_world("x", 1, {}).calls))
for _c in (BayerConv2d, BayerConv2dUnshuffle):
    lazy(_c.__name__, lambda c=_c: bayer_world(c))
lazy("functions", function_world)
for _m in ("reflect", "constant", "smooth", "maximum", "periodize"):
    lazy("shared padder: two pools " + _m, lambda m=_m: share(
        {"p": lambda c: SeparablePoolNd([1.0, 2.0, 3.0], 1, same_padder=c), "q": lambda c: AvgPoolNd([5, 2], 2, same_padder=c)},
        [layer_uses(), layer_uses(both=False)], lambda: Padder(mode=m)))
lazy("shared padder: pool and average without padding", lambda: share(
    {"p": lambda c: AvgPoolNd(4, 3, count_include_pad=False, same_padder=c), "q": lambda c: GaussianPoolNd(3, 1.0, stride=2, same_padder=c)},
    [layer_uses(), layer_uses()], lambda: Padder(mode="zeros")))
lazy("shared padder: SSIM and pool", lambda: share(
    {"s": lambda c: SSIM(AvgPoolNd(3), c), "p": lambda c: GaussianPoolNd(5, 1.0).to_filter(c)}, [ssim_uses(), layer_uses()],
    lambda: Padder(mode="reflect")))
lazy("shared padder: SSIM and SSIM", lambda: share(
    {"s": lambda c: SSIM(AvgPoolNd(3), c), "t": lambda c: SSIM(GaussianPoolNd(5, 1.0), c)}, [ssim_uses(), ssim_uses()],
    lambda: Padder(mode="symmetric")))
lazy("shared padder: SSIM and MS_SSIM", lambda: share(
    {"s": lambda c: SSIM(AvgPoolNd(3), c), "t": lambda c: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(2), padder=c)}, [ssim_uses(), ssim_uses(True)],
    lambda: Padder(mode="symmetric")))
lazy("shared padder: detectors", lambda: share(
    {"s": lambda c: Sobel(same_padder=c), "t": lambda c: Farid(same_padder=c), "l": lambda c: SeparablePoolNd([1.0, 2.0], 1, same_padder=c)},
    [edge_uses(), edge_uses(), layer_uses(both=False)], lambda: Padder(mode="reflect")))
lazy("shared padder: unsharp and log", lambda: share(
    {"u": lambda c: UnsharpMask(AvgPoolNd(5), padder=c), "l": lambda c: LaplacianOfGaussian(3, 1.0, same_padder=c),
     "g": lambda c: GaussianGrad(5, 1.0, same_padder=c)},
    [layer_uses(), layer_uses(both=False), edge_uses()], lambda: Padder(mode="replicate")))
lazy("shared blur: SSIM and unsharp", lambda: share(
    {"s": lambda c: SSIM(c, "reflect"), "u": lambda c: UnsharpMask(c, padder="reflect")}, [ssim_uses(), layer_uses()],
    lambda: GaussianPoolNd(3, 0.8)))
lazy("shared blur: SSIM and MS_SSIM", lambda: share(
    {"s": lambda c: SSIM(c, K1=0.2), "t": lambda c: MS_SSIM((0.5, 0.5), blur=c, use_sample_covariance=False)}, [ssim_uses(), ssim_uses(True)],
    lambda: AvgPoolNd(2)))
lazy("shared blur: two unsharps", lambda: share(
    {"s": lambda c: UnsharpMask(c, 0.5, padder="circular"), "t": lambda c: UnsharpMask(c, 2.0, 0.1, padder="circular")},
    [layer_uses(), layer_uses()], lambda: AvgPoolNd(3)))
lazy("construct Padder", lambda: ctor_world(lambda: Padder((2, 1)), X, [
    lambda: Padder((1, 3), "reflect"), lambda: Padder(2, "constant", 5.0), lambda: Padder(1, "linear_ramp", end_values=3.0), lambda: Padder(3, "maximum", stat_length=1)]))
lazy("construct pools", lambda: ctor_world(lambda: SeparablePoolNd([1.0, 2.0]), X, [
    lambda: SeparablePoolNd([1.0, 2.0], 1), lambda: AvgPoolNd(3, same_padder="reflect"), lambda: AvgPoolNd(3, count_include_pad=False, same_padder="zeros"),
    lambda: GaussianPoolNd([3, 5], [1.0, 2.0], [0, 1]), lambda: AvgPoolNd(2).to_filter("circular"), SeparablePoolNd]))
lazy("construct averages", lambda: ctor_world(lambda: AvgPoolNd(3), X, [
    lambda: AvgPoolNd(3, 1), lambda: AvgPoolNd(3).to_filter("symmetric"), lambda: AvgPoolNd(2), lambda: AvgPoolNd([3, 2])]))
lazy("construct gaussians", lambda: ctor_world(lambda: GaussianPoolNd(3, 1.0, stride=1), X, [
    lambda: GaussianPoolNd(3, 1.0), lambda: GaussianPoolNd(3, 2.0, stride=1), lambda: GaussianPoolNd(3, 1.0, 1, 1), lambda: GaussianPoolNd(4, 1.0, stride=1),
    lambda: GaussianPoolNd(3, 1.0, same_padder="reflect")]))
lazy("construct detectors", lambda: ctor_world(Sobel, lambda o: o.all_components(T((5, 6))), [
    lambda: Sobel(normalize=True), lambda: Sobel(same_padder="zeros"), lambda: Scharr(normalize=True), lambda: GaussianGrad(3, 1.0),
    lambda: GaussianGrad(3, 1.0, edge_order=2, normalize=False), lambda: EdgeFilter([-1, 0, 1], [1, 2, 1])]))
lazy("construct gaussian gradients", lambda: ctor_world(lambda: GaussianGrad(3, 1.0), lambda o: o.all_components(T((5, 6))), [
    lambda: GaussianGrad(3, 1.0, edge_sigma=2.0), lambda: GaussianGrad(3, 1.0, edge_kernel_size=5), lambda: GaussianGrad(3, 1.0, normalize=False)]))
lazy("construct laplace", lambda: ctor_world(Laplace, X, [
    lambda: Laplace(same_padder="circular"), lambda: LaplacianOfGaussian(5, 1.0), lambda: LaplacianOfGaussian(5, 2.0, same_padder="zeros")]))
lazy("construct unsharp", lambda: ctor_world(lambda: UnsharpMask(AvgPoolNd(3), padder="reflect"), X, [
    lambda: UnsharpMask(AvgPoolNd(3), 2.0, padder="reflect"), lambda: UnsharpMask(GaussianPoolNd(3, 1.0), 0.5, 0.3, padder="zeros")]))
S2 = lambda o: [o.forward(T((1, 2, 24, 23)), T((1, 2, 24, 23), salt=2))]
lazy("construct SSIM", lambda: ctor_world(SSIM, S2, [
    lambda: SSIM("mean"), lambda: SSIM(AvgPoolNd(3), "reflect", crop_border=False), lambda: SSIM(K1=0.3), lambda: SSIM(use_sample_covariance=False),
    lambda: SSIM(padder="reflect"), lambda: MS_SSIM((1.0,))]))
lazy("construct MS_SSIM", lambda: ctor_world(lambda: MS_SSIM(blur=AvgPoolNd(1), use_sample_covariance=False, K1=0.2, K2=0.3), S2, [
    lambda: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(3)), lambda: MS_SSIM([0.2, 0.8], use_prod=False, blur=AvgPoolNd(2), padder="reflect")]))
lazy("construct errors", lambda: ctor_world(MSE, S2, [lambda: MSE(reduction="sum"), PSNR, lambda: PSNR(5, 0.5), lambda: PSNR(reduction="none")]))
L4 = lambda o: [o(T((2, 1, 5, 6)), T((2, 1, 5, 6), salt=3))]
lazy("construct losses", lambda: ctor_world(lambda: GaussianEdgeLoss(3, 1.0, 1), L4, [lambda: GaussianEdgeLoss(3, 1.0, 2), lambda: GaussianEdgeLoss(5, 2.0, 1)]))
B4 = lambda o: [o(T((1, 1, 4, 6)), "GRBG")]
lazy("construct bayer", lambda: ctor_world(lambda: set_params(BayerConv2d(1, 2, 3, True).double()), B4, [
    lambda: set_params(BayerConv2d(1, 3, 5, False).double()), lambda: set_params(BayerConv2dUnshuffle(1, 1, 3, True).double())]))


# ---------------------------------------------------------------------------------------------------- executions

def freeze(outs):
    res = []
    for o in outs:
        o = o.detach()
        res.append((str(o.dtype), tuple(o.shape), o.cpu().numpy().copy()))
    return res


def perform(world, call):
    """('ok', frozen, live results) or ('error', exception type)"""
    try:
        outs = call(world)
    except Exception as e:
        return ("error", type(e).__name__), []
    outs = list(outs) if isinstance(outs, (list, tuple)) else [outs]
    return ("ok", freeze(outs)), outs


def differ(a, b):
    if a[0] != b[0]:
        return "%s instead of %s" % (a[1] if a[0] == "error" else "a result", b[1] if b[0] == "error" else "a result")
    if a[0] == "error":
        return None if a[1] == b[1] else "%s instead of %s" % (a[1], b[1])
    if len(a[1]) != len(b[1]):
        return "%d results instead of %d" % (len(a[1]), len(b[1]))
    for (d1, s1, v1), (d2, s2, v2) in zip(a[1], b[1]):
        if d1 != d2 or s1 != s2:
            return "%s %s instead of %s %s" % (d1, s1, d2, s2)
        t = 1e-4 if "32" in d1 and "int" not in d1 else 1e-9
        if v1.size and not np.allclose(v1, v2, rtol=t, atol=t, equal_nan=True):
            i = int(np.argmax(~np.isclose(v1, v2, rtol=t, atol=t, equal_nan=True).reshape(-1)))
            return "element %d is %r instead of %r" % (i, v1.reshape(-1)[i], v2.reshape(-1)[i])
    return None


def in_child(f):
    """f() in a forked process where nothing that happens stays"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                msg = pickle.dumps(("value", f()))
            except Violation as e:
                msg = pickle.dumps(("violation", str(e)))
            except BaseException:
                import traceback
                msg = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(w, "wb") as p:
                p.write(msg)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as p:
            raw = p.read()
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if not raw:
        raise Violation("the interpreter died (status %d)" % status)
    kind, val = pickle.loads(raw)
    if kind == "violation":
        raise Violation(val)
    if kind == "error":
        raise HarnessError(val)
    return val


class History:
    def __init__(self, world, expected, clobber):
        self.world, self.expected, self.clobber = world, expected, clobber
        self.live = world.make()
        self.names = []
        self.kept = []
        self.n = 0

    def step(self, cname):
        res, outs = perform(self.live, self.world.calls[cname])
        self.names.append(cname)
        self.n += 1
        d = differ(res, self.expected[cname])
        if d is not None:
            raise Violation("after %s, call '%s': %s" % (self.names[:-1], cname, d))
        for when, o, v in self.kept:
            if not np.array_equal(o.detach().cpu().numpy(), v, equal_nan=v.dtype.kind == "f"):
                raise Violation("after %s: the result of call %d ('%s') changed afterwards" % (self.names, when, self.names[when]))
        if self.clobber:
            with torch.no_grad():
                for o in outs:
                    try:
                        o.detach().fill_(99 if o.dtype != torch.bool else True)
                    except RuntimeError:
                        pass                                    # an expanded result
        else:
            self.kept += [(len(self.names) - 1, o, f[2]) for o, f in zip(outs, res[1] if res[0] == "ok" else [])]


def fresh_results(world):
    exp = {}
    for c in world.calls:
        exp[c] = in_child(lambda: perform(world.alone(), world.calls[c])[0])
    return exp


def space(tier):
    def f(ch):
        return {"world": ch.pick("world", tuple(WORLDS)), "depth": 2 if tier == "quick" else 3,
                "cap": STATE_CAP["quick" if tier == "quick" else "thorough"]}
    return f


def run(case, st):
    world = WORLDS[case["world"]]()
    expected = fresh_results(world)
    good = [c for c in expected if expected[c][0] == "ok"]
    if not good:
        raise Violation("no call succeeds: %s" % {c: e[1] for c, e in expected.items()})
    for c in good:
        st.outcome(pickle.dumps(expected[c])[:4096])
    st.note("calls", len(expected))
    st.note("calls_that_raise", len(expected) - len(good))

    def sequences(clobber):
        n = steps = 0
        names = list(world.calls)
        for seq in itertools.product(names, repeat=case["depth"]):
            h = History(world, expected, clobber)
            for c in seq:
                h.step(c)
            n += 1
            steps += len(seq)
        return n, steps

    def bfs():
        cap = case["cap"]
        seen = {}
        mods = module_roots()

        def state(live):            # the caller's own buffers are refilled before every use
            return canon_of([{n: o for n, o in live.items() if n != "buf"}] + mods)
        h = History(world, expected, False)
        seen[state(h.live)] = ()
        frontier = [()]
        steps = trans = depth = 0
        capped = False
        while frontier:
            nxt = []
            for hist in frontier:
                for c in world.calls:
                    h = History(world, expected, False)
                    for p in hist:
                        h.step(p)
                    h.step(c)
                    trans += 1
                    steps += len(hist) + 1
                    k = state(h.live)
                    if k not in seen:
                        if len(seen) >= cap:
                            capped = True
                            continue
                        seen[k] = hist + (c,)
                        nxt.append(hist + (c,))
            frontier = nxt
            depth += 1
        return len(seen), steps, trans, depth, capped
    total = 0
    for clobber in (False, True):
        n, steps = in_child(lambda: sequences(clobber))
        st.note("call_sequences", n)
        st.transitions += steps
        total += steps
    n, steps, trans, depth, capped = in_child(bfs)
    st.states += n
    st.transitions += trans
    total += steps
    st.note("object_states", n)
    st.note("worlds_with_capped_state_search", int(capped))
    st.note("worlds_with_more_than_one_state", int(n > 1))
    st.comparisons += total
    st.evaluations += total


def harnesses(tier):
    return [Harness("histories", space(tier), run)]


def bounds(tier):
    return {"worlds": len(WORLDS), "sequence depth": 2 if tier == "quick" else 3, "object states per world": "fixpoint or cap %d" % STATE_CAP["quick" if tier == "quick" else "thorough"]}
