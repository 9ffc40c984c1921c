"""C20: inputs stay intact; results do not depend on memory layout, batching or the numbering of axes."""
import copy
import itertools

import numpy as np
import torch

from torchimage.filtering import EdgeFilter, GaussianGrad, UnsharpMask
from torchimage.metrics import MS_SSIM, SSIM
from torchimage.misc import outer, poly1d, safe_power
from torchimage.padding import Padder
from torchimage.padding.utils import make_idx, modify_idx
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.pooling.operator import any_conv_1d
from torchimage.random import random_crop
from torchimage.utils import NdSpec

from .. import ref
from ..catalog import OPS
from ..core import Harness, HarnessError
from ..util import DT, LAYOUTS, generic, lay, tol, unit
from .c19 import data

ID = "C20"
ASSUMPTIONS = ["summation order may differ between layouts: results are compared up to rounding",
               "integer inputs where the operation is meaningful for integers"]
INT = ("i64", "i32", "i16")


def values(op, shape, dt):
    if dt in INT:
        return [generic(shape, s, lo=-20, span=41) for s in range(op.nin)]
    v = [data(op, shape, s) for s in range(op.nin)]
    return v


def t_of(op, dt):
    if dt in INT:
        return {"rtol": 0, "atol": 0}
    if op.name.startswith("edgeloss:div"):
        return {"rtol": 1e-6, "atol": 1e-6} if dt == "f64" else {"rtol": 0.2, "atol": 0.2}
    if dt == "f32":
        return {"rtol": 1e-3, "atol": 1e-3}
    return {"rtol": 1e-8, "atol": 1e-8}


def op_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(OPS))
        op = OPS[name]
        dt = ch.pick("dt", tuple(op.dts) + (INT if op.ints else ()))
        if op.fixed:
            return {"op": name, "dt": dt, "k": len(op.shape), "lead": ch.pick("lead", op.lead)}
        return {"op": name, "dt": dt, "k": ch.pick("k", op.k), "lead": ch.pick("lead", (0, 1, 2)),
                "order": ch.pick("order", (0, 1))}
    return space


LEADS = (2, 3)


def op_run(case, st):
    op, dt, k, m = OPS[case["op"]], case["dt"], case["k"], case["lead"]
    T = DT[dt]
    content = list(op.shape) if op.fixed else (list(op.sizes[:k]) if "msssim" not in op.name else [5, 6])
    shape = tuple(list(LEADS[:m]) + content)
    ndim = len(shape)
    axes = None if op.fixed else tuple(range(m, ndim))
    if axes and case["order"]:
        axes = axes[::-1]
        if len(axes) < 2:
            st.outcome("one axis")
            return
    xs = values(op, shape, dt)
    tt = t_of(op, dt)
    obj = op.make()

    def call(ts, ax=axes):
        keep = [t.clone() for t in ts]
        outs = op.call(obj, ts, ax)
        for t, q in zip(ts, keep):
            st.check(torch.equal(t, q), "an input was modified")
        for o in outs:
            st.check(o.dtype == T, "result is %s for %s input" % (o.dtype, T))
        return outs
    base = [o.detach() for o in call([lay(x, dtype=T) for x in xs])]
    for o in base:
        st.outcome(o.numpy().tobytes()[:4096])
    if dt in INT:
        exact = op.call(op.make(), [lay(x) for x in xs], axes)
        for a, b in zip(base, exact):
            st.same(a, b, "integers against doubles", rtol=0, atol=0, count=False)
    # memory layouts
    for layout in LAYOUTS[1:4]:
        for a, b in zip(call([lay(x, layout, T) for x in xs]), base):
            st.same(a, b, "layout " + layout, count=False, **tt)
    if op.nin == 2:
        for a, b in zip(call([lay(xs[0], "transposed", T), lay(xs[1], "strided", T)]), base):
            st.same(a, b, "mixed layouts", count=False, **tt)
    if ndim > 0 and shape[0] > 1:
        flat = [np.broadcast_to(x[:1], x.shape) for x in xs]
        for a, b in zip(call([lay(x, "expanded", T) for x in flat]), call([lay(x, "contiguous", T) for x in flat])):
            st.same(a, b, "expanded layout", count=False, **tt)
    # batches against single samples
    if m:
        single = {}
        for idx in itertools.product(*[range(n) for n in shape[:m]]):
            ax = None if op.fixed else tuple(a - m for a in axes)
            if op.out == "scalar" or min(op.lead) >= m:
                single[idx] = None
                continue
            for o, b in zip(call([lay(x[idx], dtype=T) for x in xs], ax), base):
                st.same(o, b[idx], "sample %s alone" % (idx,), count=False, **tt)
        if op.out == "scalar":
            tot = [op.call(obj, [lay(x[i:i + 1], dtype=T) for x in xs], None)[0] for i in range(shape[0])]
            st.same(sum(tot) / shape[0], base[0], "mean over single samples", count=False, **tt)
        if m == 2:                                        # one batch axis instead of two
            if 1 in op.lead:
                ax = None if op.fixed else tuple(a - 1 for a in axes)
                for o, b in zip(call([lay(x.reshape((-1,) + shape[2:]), dtype=T) for x in xs], ax), base):
                    st.same(o, b.reshape((-1,) + tuple(b.shape[2:])), "merged batch axes", count=False, **tt)
    # numbering of the axes
    if op.fixed:
        return
    perms = list(itertools.permutations(range(ndim)))
    for pi in perms[1:]:
        ax = tuple(pi.index(a) for a in axes)
        for neg, copy_ in ((False, False), (True, True)) if len(perms) <= 6 else ((sum(pi[:2]) % 2 == 0, False),):
            ts = [lay(x, dtype=T).permute(*pi) for x in xs]
            if copy_:
                ts = [t.contiguous() for t in ts]
            outs = call(ts, tuple(a - ndim for a in ax) if neg else ax)
            if op.out == "map":
                for o, b in zip(outs, base):
                    st.same(o.permute(*np.argsort(pi).tolist()), b, "axes permuted by %s" % (pi,), count=False, **tt)
            else:
                rest = [p for p in pi if p not in axes]          # original axes in the order of the result
                inv = [rest.index(p) for p in sorted(rest)]
                for o, b in zip(outs, base):
                    st.same(o.permute(*inv) if inv else o, b, "axes permuted by %s" % (pi,), count=False, **tt)


# ----------------------------------------------------------------------------------- large arrays and half precision

BIG = {1: (300,), 2: (40, 37), 3: (17, 33, 20)}


def big_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(OPS))
        op = OPS[name]
        k = len(op.shape) if op.fixed else ch.pick("k", op.k)
        return {"op": name, "k": k, "dt": ch.pick("dt", op.dts), "lead": ch.pick("lead", op.lead if op.fixed else (0, 1, 2)),
                "amp": ch.pick("amp", (1.0, 1e-4, 1e4) if op.dts[0] == "f64" or op.name == "bayer:demosaic" else (1.0,))}
    return space


def big_run(case, st):
    """the same laws on arrays big enough for any size-dependent route (blocks, chunks, fast paths)"""
    op, dt, k, m = OPS[case["op"]], case["dt"], case["k"], case["lead"]
    T = DT[dt]
    if op.fixed:
        content = [n if i < len(op.shape) - 2 or n == 1 else 40 - 4 * (i == len(op.shape) - 1) for i, n in enumerate(op.shape)]
    else:
        content = list(BIG[k])
    shape = tuple([9, 3][:m] + content)
    ndim = len(shape)
    axes = None if op.fixed else tuple(range(m, ndim))
    xs = [x * case["amp"] for x in values(op, shape, dt)]
    tt = dict(t_of(op, dt))
    obj = op.make()
    ins = [lay(x, dtype=T) for x in xs]
    keep = [t.clone() for t in ins]
    base = op.call(obj, ins, axes)
    size = max([1e-30] + [float(torch.nan_to_num(b.detach().abs()).max()) for b in base if b.numel()])
    tt["atol"] *= size if case["amp"] == 1e-4 and dt == "f64" and size < 1 else max(size, 1.0)
    with torch.no_grad():
        quiet = op.call(obj, ins, axes)
    with torch.inference_mode():
        inf = op.call(obj, [lay(x, dtype=T) for x in xs], axes)
    grad = op.call(obj, [lay(x, dtype=T, requires_grad=True) for x in xs], axes)
    for a, q, i, g in zip(base, quiet, inf, grad):
        st.check(a.dtype == T and g.dtype == T, "result is %s for %s input" % (a.dtype, T))
        st.same(q, a.detach(), "without gradient mode", **tt)
        st.same(i, a.detach(), "in inference mode", count=False, **tt)
        st.same(g.detach(), a.detach(), "when a gradient is required", count=False, **tt)
    for layout in LAYOUTS[1:4]:
        for a, b in zip(op.call(obj, [lay(x, layout, T) for x in xs], axes), base):
            st.same(a, b.detach(), "layout " + layout, count=False, **tt)
    if m and op.out != "scalar" and min(op.lead) < m:
        ax = None if op.fixed else tuple(range(m - 1, ndim - 1))
        for i in range(shape[0]):
            for o, b in zip(op.call(obj, [lay(x[i], dtype=T) for x in xs], ax), base):
                st.same(o, b[i].detach(), "sample %d alone" % i, count=False, **tt)
    if not op.fixed and ndim > 1:
        pi = tuple(range(1, ndim)) + (0,)
        outs = op.call(obj, [lay(x, dtype=T).permute(*pi) for x in xs], tuple(pi.index(a) for a in axes))
        if op.out == "map":
            for o, b in zip(outs, base):
                st.same(o.permute(*np.argsort(pi).tolist()), b.detach(), "axes rotated", count=False, **tt)
    for t, q in zip(ins, keep):
        st.check(torch.equal(t, q), "an input was modified")


def many_space(tier):
    def space(ch):
        name = ch.pick("op", [n for n, o in OPS.items() if o.out != "scalar" and max(o.lead) > 0])
        op = OPS[name]
        k = len(op.shape) if op.fixed else ch.pick("k", op.k)
        return {"op": name, "k": k, "dt": ch.pick("dt", op.dts), "n": ch.pick("n", (1030,) if tier == "quick" else (1030, 513, 4100)),
                "where": ch.pick("where", ("first", "last") if not op.fixed else ("first",))}
    return space


def many_run(case, st):
    """many samples at once: each is treated as if it were alone"""
    op, dt, k, n = OPS[case["op"]], case["dt"], case["k"], case["n"]
    T = DT[dt]
    content = list(op.shape) if op.fixed else (list(op.sizes[:k]) if "msssim" not in op.name else [5, 6])
    if not op.fixed and not set(op.lead) & {1, 2}:
        return
    m = 1 if 1 in op.lead else 2
    lead = [n] if m == 1 else [n, 1]
    shape = lead + content
    xs = values(op, shape, dt)
    last = case["where"] == "last"
    ax = None if op.fixed else tuple(range(k)) if last else tuple(range(m, m + k))
    ts = [lay(np.moveaxis(x, list(range(m)), list(range(-m, 0))) if last else x, dtype=T) for x in xs]
    obj = op.make()
    tt = t_of(op, dt)
    big = [o.detach() for o in op.call(obj, ts, ax)]
    single_ok = not op.fixed or 0 in op.lead
    for i in (0, 1, 2, 63, 64, 255, 256, 511, 512, 513, n // 2, 1023, 1024, 1025, n - 2, n - 1):
        if i >= n:
            continue
        sub = [x[i] if single_ok else x[i:i + 1] for x in xs]
        rest = m - 1 if single_ok else m
        if last:
            sub = [np.moveaxis(x, list(range(rest)), list(range(-rest, 0))) if rest else x for x in sub]
        a1 = None if op.fixed else tuple(range(k)) if last else tuple(range(rest, rest + k))
        for o, b in zip(op.call(obj, [lay(x, dtype=T) for x in sub], a1), big):
            at = -m if last and op.out == "map" else 0
            b = b.narrow(at, i, 1)
            b = b.squeeze(at) if single_ok else b
            st.same(o.detach(), b, "sample %d of %d alone" % (i, n), **tt)


def half_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(n for n, o in OPS.items() if o.dts == ("f64", "f32")))
        op = OPS[name]
        k = len(op.shape) if op.fixed else ch.pick("k", op.k)
        return {"op": name, "k": k, "dt": ch.pick("dt", ("f16", "bf16")), "lead": ch.pick("lead", op.lead if op.fixed else (0, 1))}
    return space


def half_run(case, st):
    """half precision in, half precision out; affine operations agree with the double computation to that precision"""
    op, T, k, m = OPS[case["op"]], DT[case["dt"]], case["k"], case["lead"]
    content = list(op.shape) if op.fixed else (list(op.sizes[:k]) if "msssim" not in op.name else [5, 6])
    shape = tuple([2, 3][:m] + content)
    axes = None if op.fixed else tuple(range(m, len(shape)))
    xs = [torch.tensor(x).to(T) for x in values(op, shape, "f64")]
    keep = [x.clone() for x in xs]
    outs = op.call(op.make(), xs, axes)
    exact = op.call(op.make(), [x.double() for x in xs], axes)
    for x, q in zip(xs, keep):
        st.check(torch.equal(x, q), "an input was modified")
    st.check(len(outs) == len(exact), "%d results" % len(outs))
    for o, e in zip(outs, exact):
        st.check(o.dtype == T and o.shape == e.shape, "result is %s %s for %s input, expected %s" % (o.dtype, tuple(o.shape), T, tuple(e.shape)))
        if op.linear or op.affine:
            size = max(1.0, float(e.abs().max()), *[float(x.double().abs().max()) for x in xs])
            st.same(o.double(), e, "half precision", rtol=0, atol=(0.02 if case["dt"] == "f16" else 0.15) * size)
        else:
            st.outcome((op.name, str(o.dtype)))


# ------------------------------------------------------------------------------- contents: inputs with special values

CONTENTS = {"zeros": lambda s: np.zeros(s), "ones": lambda s: np.ones(s), "minus": lambda s: -np.ones(s),
            "signs": lambda s: generic(s, lo=-1, span=3), "half": lambda s: np.where(generic(s, lo=0, span=2) > 0, 0.5, 0.0),
            "one": lambda s: np.eye(1, int(np.prod(s)), int(np.prod(s)) // 2).reshape(s),
            "big": lambda s: 1e6 * generic(s, lo=-3, span=7), "nan": lambda s: np.where(generic(s, lo=0, span=4) > 0, 0.25, np.nan)}


def content_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(OPS))
        op = OPS[name]
        dt = ch.pick("dt", tuple(op.dts) + (INT[:1] if op.ints else ()))
        c = {"op": name, "dt": dt, "lead": ch.pick("lead", op.lead if op.fixed else (0, 1)),
             "contents": [ch.pick("content", tuple(CONTENTS)) for _ in range(op.nin)],
             "same": ch.pick("same", (False, True)) if op.nin == 2 else False,
             "layout": ch.pick("layout", ("contiguous", "transposed", "strided"))}
        c["k"] = len(op.shape) if op.fixed else ch.pick("k", op.k)
        return c
    return space


def content_run(case, st):
    """whatever the values, the inputs are bitwise the same afterwards (also when one tensor is passed twice)"""
    op, dt, k, m = OPS[case["op"]], case["dt"], case["k"], case["lead"]
    if dt in INT and any(c in ("half", "nan") for c in case["contents"]):
        st.outcome("not for integers")
        return
    content = list(op.shape) if op.fixed else (list(op.sizes[:k]) if "msssim" not in op.name else [5, 6])
    shape = tuple(list(LEADS[:m]) + content)
    axes = None if op.fixed else tuple(range(m, len(shape)))
    ts = [lay(CONTENTS[c](shape), case["layout"], DT[dt]) for c in case["contents"]]
    if case["same"]:
        ts[1] = ts[0]
    keep = [t.clone() for t in ts]
    obj = op.make()
    for i in range(2):
        try:
            outs = op.call(obj, ts, axes)
        except Exception as e:                                   # other properties decide what may raise
            st.outcome(type(e).__name__)
            outs = []
        for t, q in zip(ts, keep):
            st.check(torch.equal(torch.nan_to_num(t, nan=77.0), torch.nan_to_num(q, nan=77.0)),
                     "an input was modified in call %d" % i)
        for o in outs:
            st.outcome(o.detach().numpy().tobytes()[:512])


# ------------------------------------------------------------------------------------------------ parameter objects

def T64(v):
    return torch.tensor(v, dtype=torch.float64)


def nd(v, **k):
    return NdSpec(v, **k)


# name -> (arguments builder, constructor, use)
X2 = generic((5, 6))
ARGS = {
    "Padder lists": (lambda: dict(pad_width=[[1, 2], [3, 1]], mode=["reflect", "constant"], constant_values=[[1, 2], [3, 4]],
                                  end_values=[[0.0, 1.0], [2.0, 1.0]], stat_length=[[1, 2], [2, 1]]),
                     lambda a: Padder(**a), lambda o: o.forward(lay(X2), axes=(0, 1))),
    "Padder numpy": (lambda: dict(pad_width=np.array([[1, 2], [3, 1]]), constant_values=np.array([[1., 2], [3, 4]])),
                     lambda a: Padder(**a), lambda o: o.forward(lay(X2), axes=(0, 1))),
    "Padder NdSpec": (lambda: dict(pad_width=nd([(1, 2), (3, 1)], item_shape=[2]), mode=nd(["smooth", "circular"])),
                      lambda a: Padder(**a), lambda o: o.forward(lay(X2), axes=(0, 1))),
    "SeparablePool lists": (lambda: dict(kernel=[[1.0, 2.0], [3.0, 1.0, 2.0]], stride=[2, None]),
                            lambda a: SeparablePoolNd(**a), lambda o: o.forward(lay(X2), axes=(0, 1))),
    "SeparablePool numpy": (lambda: dict(kernel=np.array([1.0, 2.0, 3.0]), stride=np.array([1, 2])),
                            lambda a: SeparablePoolNd(**a), lambda o: o.forward(lay(X2), axes=(0, 1))),
    "SeparablePool tensors": (lambda: dict(kernel=[T64([1.0, 2.0]), T64([1.0, 2.0, 3.0])], stride=1),
                              lambda a: SeparablePoolNd(**a), lambda o: o.forward(lay(X2), axes=(0, 1))),
    "SeparablePool filter": (lambda: dict(kernel=[[1.0, 2.0], [3.0, 1.0, 2.0]], stride=[2, None]),
                             lambda a: SeparablePoolNd(**a).to_filter("reflect"), lambda o: o.forward(lay(X2), axes=(0, 1))),
    "AvgPool": (lambda: dict(kernel_size=[2, 3], stride=[1, 2]), lambda a: AvgPoolNd(count_include_pad=False, same_padder="zeros", **a),
                lambda o: o.forward(lay(X2), axes=(1, 0))),
    "GaussianPool": (lambda: dict(kernel_size=[3, 5], sigma=[0.8, 1.2], order=[0, 1], stride=[1, 2]),
                     lambda a: GaussianPoolNd(same_padder="reflect", **a), lambda o: o.forward(lay(X2), axes=(1, 0))),
    "EdgeFilter": (lambda: dict(edge_kernel=[-1.0, 0.5, 1.0], smooth_kernel=[[1.0, 2.0, 1.0]], normalize=True),
                   lambda a: EdgeFilter(a["edge_kernel"], a["smooth_kernel"], normalize=True),
                   lambda o: o.component(lay(X2), edge_axis=0, smooth_axes=[0, 1])),
    "EdgeFilter numpy": (lambda: dict(edge_kernel=np.array([-1.0, 0.0, 1.0]), smooth_kernel=np.array([1.0, 2.0, 1.0])),
                         lambda a: EdgeFilter(a["edge_kernel"], a["smooth_kernel"], normalize=True),
                         lambda o: o.magnitude(lay(X2), axes=[0, 1], epsilon=0.1)),
    "EdgeFilter tensor": (lambda: dict(edge_kernel=T64([-1.0, 2.0, 1.0]), smooth_kernel=T64([1.0, 2.0, 1.0])),
                          lambda a: EdgeFilter(a["edge_kernel"], a["smooth_kernel"], normalize=True),
                          lambda o: o.all_components(lay(X2), axes=[0, 1])),
    "MS_SSIM": (lambda: dict(weights=[0.5, 0.5]), lambda a: MS_SSIM(blur=AvgPoolNd(2), **a),
                lambda o: o.forward(lay(unit((1, 1, 5, 6))), lay(unit((1, 1, 5, 6), 3)))),
    "MS_SSIM numpy": (lambda: dict(weights=np.array([0.5, 0.5])), lambda a: MS_SSIM(blur=AvgPoolNd(2), use_prod=False, **a),
                      lambda o: o.forward(lay(unit((1, 1, 5, 6))), lay(unit((1, 1, 5, 6), 3)))),
    "axes list": (lambda: dict(axes=[1, -2]), lambda a: a, lambda o: [
        Padder(1).forward(lay(X2), axes=o["axes"]), AvgPoolNd(2).forward(lay(X2), axes=o["axes"]),
        UnsharpMask(AvgPoolNd(3), padder="reflect").forward(lay(X2), axes=o["axes"]),
        SSIM(AvgPoolNd(2)).forward(lay(unit((5, 6))), lay(unit((5, 6), 2)), content_axes=o["axes"], reduce_axes=o["axes"]),
        random_crop(lay(X2), o["axes"], [2, 3])]),
    "size list": (lambda: dict(size=[2, None]), lambda a: a, lambda o: random_crop(lay(X2), (0, 1), o["size"])),
    "conv kernel": (lambda: dict(k=T64([1.0, 2.0, 3.0])), lambda a: a, lambda o: any_conv_1d(lay(X2), o["k"], dim=0, stride=2, dilation=1)),
    "polynomial": (lambda: dict(p=[1.0, 2.0, 3.0], q=np.array([1.0, 2.0]), r=T64([3.0, 1.0, 2.0])), lambda a: a,
                   lambda o: [poly1d(lay(X2), o[n]) for n in "pqr"]),
    "power": (lambda: dict(x=T64([[-1.0], [0.0], [2.0]]), e=T64([0.5, 2.0, -1.5])), lambda a: a, lambda o: safe_power(o["x"], o["e"])),
    "outer": (lambda: dict(u=T64([1.0, 2.0]), v=T64([[3.0, 4.0]])), lambda a: a, lambda o: outer(o["u"], o["v"])),
}


def same_obj(a, b):
    if type(a) is not type(b):
        return False
    if torch.is_tensor(a):
        return a.dtype == b.dtype and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_obj(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_obj(x, y) for x, y in zip(a, b))
    if isinstance(a, NdSpec):
        return snapshot(a) == snapshot(b)
    return a == b


def snapshot(n):
    """what an NdSpec answers"""
    out = []
    for i in (-2, -1, 0, 1):
        try:
            out.append(repr(n[i]))
        except Exception as e:
            out.append(type(e).__name__)
    return out, len(n)


def arg_space(tier):
    def space(ch):
        return {"name": ch.pick("name", tuple(ARGS)), "calls": ch.pick("calls", (1, 0, 2, 3))}
    return space


def arg_run(case, st):
    build, make, use = ARGS[case["name"]]
    args, keep = build(), build()
    if not same_obj(args, keep):
        raise HarnessError("arguments are not reproducible")
    obj = make(args)
    st.check(same_obj(args, keep), "constructing modified an argument")
    first = None
    for i in range(case["calls"]):
        r = use(obj)
        st.check(same_obj(args, keep), "call %d modified an argument" % i)
        if case["name"] in ("axes list", "size list"):
            continue
        if first is None:
            first = r
        rs = (r, first) if isinstance(r, (list, tuple)) else ([r], [first])
        for p, q in zip(*rs):
            st.same(p, q, "call %d" % i, rtol=0, atol=0)
    st.outcome((case["name"], case["calls"]))


# ---------------------------------------------------------------------------------------------- unusual views of memory

VIEWS = ("negated", "overlapping", "expanded last", "channels last", "parameter", "subclass", "backwards")
PAIRS = ("same object", "same start", "shifted", "second inside first")


class Image(torch.Tensor):
    """a plain subclass, as other libraries define them"""


def buffer_of(op, shape, dt, salt=0):
    n = 4 * int(np.prod(shape)) + 16
    return lay(data(op, (n,), salt), dtype=DT[dt])


def dense(shape):
    return list(np.cumprod([1] + list(shape)[::-1])[:-1][::-1].astype(int).tolist())


def view_of(op, kind, shape, dt, salt):
    t = buffer_of(op, shape, dt, salt)
    n = int(np.prod(shape))
    flat = t[:n].view(*shape)
    if kind == "negated":
        v = torch.complex(torch.zeros_like(flat), -flat).conj().imag
        assert v.is_neg()
        return v
    if kind == "overlapping":
        return t.as_strided(shape, [3 + 2 * (len(shape) - 1 - i) for i in range(len(shape))])
    if kind == "expanded last":
        return flat[..., :1].expand(*shape)
    if kind == "channels last":
        return flat.contiguous(memory_format=torch.channels_last)
    if kind == "parameter":
        return torch.nn.Parameter(flat.clone(), requires_grad=False)
    if kind == "subclass":
        return flat.clone().as_subclass(Image)
    return t.as_strided(shape, dense(shape[::-1])[::-1], 5)     # backwards: the first axis is the densest


def pair_of(op, kind, shape, dt):
    t = buffer_of(op, shape, dt)
    n = int(np.prod(shape))
    a = t[:n].view(*shape)
    if kind == "same object":
        return [a, a]
    if kind == "same start":
        return [a, t.as_strided(shape, dense(shape[::-1])[::-1])]
    if kind == "shifted":
        return [a, t[1:n + 1].view(*shape)]
    return [t[:2 * n].view(2 * shape[0], *shape[1:])[::2], t[:2 * n].view(2 * shape[0], *shape[1:])[1::2]]


def memory_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(OPS))
        op = OPS[name]
        kind = ch.pick("view", VIEWS + (PAIRS if op.nin == 2 else ()))
        m = ch.pick("lead", op.lead if op.fixed else (0, 1, 2))
        k = len(op.shape) if op.fixed else ch.pick("k", op.k)
        if kind == "channels last" and m + k != 4 or kind in ("shifted", "second inside first", "backwards", "overlapping", "same start") and m + k == 0:
            ch.prune()
        return {"op": name, "view": kind, "lead": m, "k": k, "dt": ch.pick("dt", op.dts if tier != "quick" else op.dts[:1])}
    return space


def memory_run(case, st):
    op, kind, m, k = OPS[case["op"]], case["view"], case["lead"], case["k"]
    content = list(op.shape) if op.fixed else (list(op.sizes[:k]) if "msssim" not in op.name else [5, 6])
    shape = tuple(list(LEADS[:m]) + content)
    axes = None if op.fixed else tuple(range(m, len(shape)))
    xs = pair_of(op, kind, shape, case["dt"]) if kind in PAIRS else [view_of(op, kind, shape, case["dt"], s) for s in range(op.nin)]
    plain = [x.detach().as_subclass(torch.Tensor).clone(memory_format=torch.contiguous_format).resolve_neg() for x in xs]
    exp = [o.detach() for o in op.call(op.make(), [p.clone() for p in plain], axes)]
    outs = op.call(op.make(), xs, axes)
    for x, q in zip(xs, plain):
        st.check(torch.equal(x.as_subclass(torch.Tensor), q), "an input was modified")
    for o, e in zip(outs, exp):
        st.outcome(e.numpy().tobytes()[:1024])
        o = o.detach().as_subclass(torch.Tensor)
        st.check(o.dtype == e.dtype, "result is %s" % o.dtype)
        st.same(o.resolve_neg(), e, "view " + kind, **t_of(op, case["dt"]))


SELF = {
    "safe_power(x, x)": lambda x, y: safe_power(x, y), "safe_power with epsilon": lambda x, y: safe_power(x, y, epsilon=0.3),
    "outer(x, x)": lambda x, y: outer(x, y), "any_conv_1d": lambda x, y: any_conv_1d(x, y[0, 0, :3].reshape(3), dim=1, stride=1, dilation=1),
    "poly1d": lambda x, y: poly1d(x, y[0, 0, :3].reshape(3)), "kernel of the pool": lambda x, y: SeparablePoolNd(y[0, 0, :3].reshape(3), 1).forward(x, (1, 2)),
    "constant values": lambda x, y: Padder((1, 2), "constant", constant_values=(y[0, 0, 0].reshape(()), y[0, 1, 1].reshape(()))).forward(x, (1, 2)),
}


def self_space(tier):
    def space(ch):
        return {"call": ch.pick("call", tuple(SELF)), "how": ch.pick("how", ("same object", "view", "transposed")), "dt": ch.pick("dt", ("f64", "f32"))}
    return space


def self_run(case, st):
    x = lay(generic((2, 5, 5), 3, lo=-6, span=19) / 4, dtype=DT[case["dt"]])
    y = {"same object": x, "view": x[:], "transposed": x.transpose(1, 2)}[case["how"]]
    qx, qy = x.clone(), y.clone(memory_format=torch.contiguous_format)
    exp = SELF[case["call"]](qx.clone(), qy.clone())
    got = SELF[case["call"]](x, y)
    st.check(torch.equal(x, qx), "the input was modified")
    st.same(got, exp, "%s with %s" % (case["call"], case["how"]), rtol=1e-9 if case["dt"] == "f64" else 1e-4, atol=1e-9 if case["dt"] == "f64" else 1e-4)


# ------------------------------------------------------------------------------------------------------ index helpers

def index_space(tier):
    def space(ch):
        nd = ch.pick("ndim", (1, 2, 3, 4, 5))
        return {"ndim": nd, "dim": ch.pick("dim", range(-nd, nd)), "args": ch.pick("args", ((2,), (1, 3), (None,), (0, 4, 2), (-2, None), (None, -1))),
                "modify": ch.pick("modify", (None,) + tuple(range(-nd, nd)))}
    return space


def index_run(case, st):
    nd, d, m = case["ndim"], case["dim"] % case["ndim"], case["modify"]
    x = generic((4,) * nd if nd < 4 else (3,) * nd)
    idx = make_idx(*case["args"], dim=case["dim"], ndim=nd)
    exp = [slice(None)] * nd
    exp[d] = slice(*case["args"])
    if m is not None:
        before = idx
        idx = modify_idx(1, 3, idx=idx, dim=m)
        exp[m % nd] = slice(1, 3)
        st.check(before == make_idx(*case["args"], dim=d, ndim=nd), "modify_idx changed its argument")
    st.check(isinstance(idx, tuple) and len(idx) == nd, lambda: "index %s for %d axes" % (idx, nd))
    st.same(lay(x)[idx], x[tuple(exp)], "make_idx(*%s, dim=%d, ndim=%d)" % (case["args"], case["dim"], nd))


def harnesses(tier):
    return [Harness("operations", op_space(tier), op_run), Harness("contents", content_space(tier), content_run),
            Harness("large", big_space(tier), big_run), Harness("many", many_space(tier), many_run), Harness("half", half_space(tier), half_run), Harness("arguments", arg_space(tier), arg_run),
            Harness("memory", memory_space(tier), memory_run), Harness("aliases", self_space(tier), self_run), Harness("indices", index_space(tier), index_run)]


def bounds(tier):
    return {"operations": len(OPS), "axis permutations": "all of up to 5 axes", "batch axes": "0..2", "layouts": LAYOUTS + VIEWS, "aliased pairs": PAIRS,
            "dtypes": "float64, float32, int64, int32, int16 where meaningful"}
