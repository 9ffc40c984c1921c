"""C21: requests without a defined result raise; their valid neighbours succeed."""
import itertools

import numpy as np
import torch

from torchimage.cfa.bayer_conv import BayerConv2d, BayerConv2dUnshuffle, demosaic, last_step_demosaic
from torchimage.cfa.utils import (bayer_1c_to_4c, bayer_4c_to_1c, downsample_1c_bayer_to_rgb,
                                  downsample_4c_bayer_to_rgb, rgb_to_1c_bayer, rgb_to_4c_bayer)
from torchimage.filtering import (EdgeFilter, Farid, GaussianGrad, Laplace, LaplacianOfGaussian, Prewitt, Scharr, Sobel,
                                  UnsharpMask)
from torchimage.metrics import MS_SSIM, MSE, PSNR, SSIM
from torchimage.padding import Padder
from torchimage.padding.utils import pad_width_format, same_padding_width
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.pooling.operator import any_conv_1d
from torchimage.random import random_crop
from torchimage.shapes.conv_like import conv_nd, n_original_elements_nd
from torchimage.utils import NdSpec
from torchimage.utils.ragged import apply_ragged_ndarray
from torchimage.utils.validation import check_axes, check_pad_width, check_stride

from .. import ref
from ..catalog import OPS
from ..core import Harness
from ..util import DT, generic, lay, unit

ID = "C21"
CASE_LIMIT_S = 20.0
ASSUMPTIONS = ["any exception other than a time-out counts as an error; axis indices outside the tensor and empty axes must give "
               "ValueError", "pure-Python hangs and hangs inside torch that return to the interpreter are caught by a 20 s limit"]


def settle(st, f, valid, what, exc=Exception):
    """f() must succeed if valid, else raise exc"""
    try:
        r = f()
    except exc as e:
        if valid:
            st.check(False, "%s: valid request raised %s: %s" % (what, type(e).__name__, str(e)[:200]))
        st.outcome((what, type(e).__name__))
        st.comparisons += 1
        return None
    except Exception as e:
        st.check(False, "%s: raised %s: %s instead of %s" % (what, type(e).__name__, str(e)[:200], getattr(exc, "__name__", exc)))
    if not valid:
        if torch.is_tensor(r):
            r = tuple(r.shape)
        st.check(False, "%s: accepted, gave %s" % (what, repr(r)[:200]))
    st.outcome((what, "ok"))
    st.comparisons += 1
    return r


# ------------------------------------------------------------------------------------------------- axis indices

AX_OPS = tuple(n for n, o in OPS.items() if not o.fixed and not n.startswith(("poly1d", "safe_power", "any_conv_1d")))


def axis_space(tier):
    def space(ch):
        name = ch.pick("op", AX_OPS)
        op = OPS[name]
        k = ch.pick("k", op.k)
        lead = ch.pick("lead", (0, 1))
        n = lead + k
        return {"op": name, "k": k, "lead": lead, "pos": ch.pick("pos", tuple(range(k))),
                "i": ch.pick("i", tuple(range(-3 * n - 1, 3 * n + 1)))}
    return space


def axis_run(case, st):
    op, k, lead = OPS[case["op"]], case["k"], case["lead"]
    n = lead + k
    shape = [2] * lead + (list(op.sizes[:k]) if "msssim" not in op.name else [6, 6])
    shape = shape[:lead] + [max(shape[lead:])] * k
    axes = list(range(lead, n))
    i = case["i"]
    valid = -n <= i < n
    axes[case["pos"]] = i
    if valid:
        norm = [a % n for a in axes]
        if len(set(norm)) < len(norm) or any(a < lead for a in norm):     # a repeated axis or a batch axis
            st.outcome("skip")
            return
    xs = [lay(unit(tuple(shape), s)) for s in range(op.nin)]
    settle(st, lambda: op.call(op.make(), xs, tuple(axes)), valid, "axes=%s" % (tuple(axes),), ValueError)


X3 = (4, 5, 6)
REDUCE = {
    "SSIM content": lambda x, y, a: SSIM(AvgPoolNd(2)).forward(x, y, content_axes=a, reduce_axes=None),
    "SSIM reduce": lambda x, y, a: SSIM(AvgPoolNd(2)).forward(x, y, content_axes=None, reduce_axes=a),
    "MS_SSIM content": lambda x, y, a: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(1), use_sample_covariance=False).forward(x, y, content_axes=a, reduce_axes=None),
    "MS_SSIM reduce": lambda x, y, a: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(1), use_sample_covariance=False).forward(x, y, content_axes=(1, 2), reduce_axes=a),
    "MSE": lambda x, y, a: MSE().forward(x, y, reduce_axes=a),
    "MSE sum": lambda x, y, a: MSE(reduction="sum").forward(x, y, reduce_axes=a),
    "MSE none": lambda x, y, a: MSE(reduction="none").forward(x, y, reduce_axes=a),
    "PSNR": lambda x, y, a: PSNR().forward(x, y, reduce_axes=a),
    "random_crop": lambda x, y, a: random_crop(x, a, 2),
    "edge_axis": lambda x, y, a: Sobel().component(x, edge_axis=a, smooth_axes=()),
    "smooth_axes": lambda x, y, a: Sobel().component(x, edge_axis=0, smooth_axes=a),
    "check_axes": lambda x, y, a: check_axes(x, a),
    "check_axes numpy": lambda x, y, a: check_axes(x.numpy(), a),
    "pad_axis": lambda x, y, a: Padder(1).pad_axis(x, 0, a),
    "pad_axis zero width": lambda x, y, a: Padder(0).pad_axis(x, 0, a),
    "Padder zero width": lambda x, y, a: Padder(0).forward(x, axes=a),
    "Padder empty": lambda x, y, a: Padder(1, "empty").forward(x, axes=a),
    "pool empty kernel": lambda x, y, a: SeparablePoolNd(()).forward(x, axes=a),
    "same pool": lambda x, y, a: SeparablePoolNd([1.0, 1.0], 1, same_padder="reflect").forward(x, axes=a),
    "AvgPoolNd without padding counted": lambda x, y, a: AvgPoolNd(2, 1, count_include_pad=False, same_padder="zeros").forward(x, axes=a),
    "GaussianPoolNd": lambda x, y, a: GaussianPoolNd(3, 1.0).forward(x, axes=a),
    "UnsharpMask": lambda x, y, a: UnsharpMask(AvgPoolNd(3), padder="reflect").forward(x, axes=a),
}


def reduce_space(tier):
    def space(ch):
        return {"name": ch.pick("name", tuple(REDUCE)), "form": ch.pick("form", ("int", "tuple", "list", "second")),
                "i": ch.pick("i", tuple(range(-10, 10)))}
    return space


def reduce_run(case, st):
    i = case["i"]
    form = case["form"]
    valid = -3 <= i < 3
    a = {"int": i, "tuple": (i,), "list": [i], "second": (1, i)}[form]
    if form == "second":
        if i in (1, -2):
            st.outcome("repeated")
            return
        if case["name"] in ("edge_axis", "pad_axis", "pad_axis zero width"):   # one axis only
            settle(st, lambda: REDUCE[case["name"]](lay(unit(X3)), lay(unit(X3, 2)), a), False, str(a))
            return
    settle(st, lambda: REDUCE[case["name"]](lay(unit(X3)), lay(unit(X3, 2)), a), valid, str(a), ValueError)


def conv_space(tier):
    def space(ch):
        nd = ch.pick("ndim", (1, 2, 3))
        return {"ndim": nd, "dim": ch.pick("dim", tuple(range(-3 * nd - 1, 3 * nd + 1))), "n": ch.pick("n", (1, 2, 3, 4, 5, 6)),
                "k": ch.pick("k", (1, 2, 3)), "dilation": ch.pick("dilation", (1, 2, 3, 0, -1)), "stride": ch.pick("stride", (1, 2, 0, -1))}
    return space


def conv_run(case, st):
    nd, dim, n, k, d, s = (case[a] for a in ("ndim", "dim", "n", "k", "dilation", "stride"))
    if (d < 1 or s < 1) and k < 2 and n != 3:
        st.outcome("skip")
        return
    valid = -nd <= dim < nd and d >= 1 and s >= 1 and n >= d * (k - 1) + 1
    x = lay(generic((n,) * nd))
    w = torch.ones(k, dtype=torch.float64)
    settle(st, lambda: any_conv_1d(x, w, dim=dim, stride=s, dilation=d), valid, "any_conv_1d")


# ------------------------------------------------------------------------------------------------- padding requests

def width_space(tier):
    r = (-2, -1, 0, 1, 2)

    def space(ch):
        form = ch.pick("form", ("int", "pair", "list", "list2"))
        n = {"int": 1, "pair": 2, "list": 2, "list2": 4}[form]
        return {"form": form, "w": [ch.pick("w%d" % i, r if form != "list2" else (-1, 0, 2)) for i in range(n)],
                "mode": ch.pick("mode", ("constant", "reflect", "zeros", "periodize")), "how": ch.pick("how", ("forward", "pad_axis"))}
    return space


def width_run(case, st):
    w, form = case["w"], case["form"]
    arg = {"int": w[0], "pair": tuple(w), "list": [tuple(w)], "list2": [tuple(w[:2]), tuple(w[2:])]}[form]
    x = lay(generic((3, 4)))

    def f():
        p = Padder(arg, mode=case["mode"])
        if case["how"] == "forward":
            return p.forward(x, axes=(0, 1))
        return p.pad_axis(p.pad_axis(x, -1, 1), -2 if form == "list2" else -1, 0)
    settle(st, f, min(w) >= 0, "pad_width=%s" % (arg,))


BAD_MODES = ("", "Constant", "reflect101", "edge", "wrap", "zero", "symmetric ", "max", "const", "odd", "EMPTY", "linear", "none", 3)
MODE_USERS = {
    "forward": lambda m, x: Padder(1, m).forward(x, axes=(0, 1)),
    "forward one axis": lambda m, x: Padder(((0, 0), (0, 1)), m).forward(x, axes=(0, 1)),
    "second mode": lambda m, x: Padder(1, ["reflect", m]).forward(x, axes=(0, 1)),
    "first mode": lambda m, x: Padder(1, [m, "reflect"]).forward(x, axes=(0, 1)),
    "pad_axis": lambda m, x: Padder(1, m).pad_axis(x, 0, 1),
    "same pool": lambda m, x: SeparablePoolNd([1.0, 2.0], 1, same_padder=Padder(mode=m)).forward(x, axes=(0, 1)),
    "same pool str": lambda m, x: SeparablePoolNd([1.0, 2.0], 1, same_padder=m).forward(x, axes=(0, 1)),
    "to_filter": lambda m, x: AvgPoolNd(3).to_filter(m).forward(x, axes=(0, 1)),
    "edge": lambda m, x: Sobel(same_padder=m).magnitude(x, axes=(0, 1)),
    "laplace": lambda m, x: Laplace(same_padder=m).forward(x, axes=(0, 1)),
    "log": lambda m, x: LaplacianOfGaussian(3, 1.0, same_padder=m).forward(x, axes=(0, 1)),
    "gaussgrad": lambda m, x: GaussianGrad(3, 1.0, same_padder=m).component(x, 0, 1),
    "unsharp": lambda m, x: UnsharpMask(AvgPoolNd(3), padder=m).forward(x, axes=(0, 1)),
    "ssim": lambda m, x: SSIM(AvgPoolNd(3), m).forward(x, x, content_axes=(0, 1), reduce_axes=None),
    "msssim": lambda m, x: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(2), padder=m).forward(x, x, content_axes=(0, 1), reduce_axes=None),
}


def mode_space(tier):
    def space(ch):
        return {"user": ch.pick("user", tuple(MODE_USERS)), "mode": ch.pick("mode", tuple(ref.ALL_MODES) + BAD_MODES)}
    return space


def mode_run(case, st):
    m = case["mode"]
    valid = m in ref.ALL_MODES
    settle(st, lambda: MODE_USERS[case["user"]](m, lay(unit((6, 8)))), valid, "mode=%r" % (m,))


NEEDS = tuple(m for m in ref.ALL_MODES if m not in ("zeros", "constant", "empty"))


def empty_space(tier):
    def space(ch):
        return {"mode": ch.pick("mode", tuple(ref.ALL_MODES)), "how": ch.pick("how", ("forward", "pad_axis", "axes2")),
                "w": list(ch.pick("w", tuple(itertools.product((0, 1, 2), repeat=2)))), "axis": ch.pick("axis", (0, 1, 2)),
                "empty": ch.pick("empty", (0, 1, 2)), "dt": ch.pick("dt", ("f64", "i64"))}
    return space


def empty_run(case, st):
    mode, w, axis, em = case["mode"], tuple(case["w"]), case["axis"], case["empty"]
    if mode in ("mean", "linear_ramp") and case["dt"] != "f64":
        st.outcome("skip")
        return
    shape = [3, 4, 2]
    shape[em] = 0
    x = lay(np.zeros(shape), dtype=DT[case["dt"]])
    axes = (axis,) if case["how"] != "axes2" else (axis, (axis + 1) % 3)
    if w == (0, 0) or mode == "empty":
        valid = True
    elif em not in axes:
        if mode in ("maximum", "minimum", "median", "mean", "periodize") or em != axis and case["how"] == "axes2":
            st.outcome("skip")       # statistics over no lines: nothing to say
            return
        valid = True
    else:
        valid = mode not in NEEDS
    if not valid:
        # with a second, earlier axis that has nothing to pad with either the error is the same
        exc = ValueError if axes[0] == em else Exception
    else:
        exc = Exception

    def f():
        p = Padder(w, mode=mode)
        if case["how"] == "pad_axis":
            return p.pad_axis(x, -1, axis)
        return p.forward(x, axes=axes)
    r = settle(st, f, valid, "empty axis %d, mode %s" % (em, mode), exc)
    if r is not None and mode != "periodize":
        e = [s + (w[0] + w[1] if i in axes else 0) for i, s in enumerate(shape)]
        st.check(list(r.shape) == e, lambda: "empty axis: shape %s, expected %s" % (tuple(r.shape), e))


# ------------------------------------------------------------------------------------------------- layer parameters

POOLS = {
    "Separable": lambda s, k: SeparablePoolNd([1.0] * k, s),
    "Separable same": lambda s, k: SeparablePoolNd([1.0] * k, s, same_padder="reflect"),
    "Avg": lambda s, k: AvgPoolNd(k, s),
    "Avg nopad": lambda s, k: AvgPoolNd(k, s, count_include_pad=False, same_padder="zeros"),
    "Gaussian": lambda s, k: GaussianPoolNd(k, 1.0, 0, s),
    "Gaussian same": lambda s, k: GaussianPoolNd(k, 1.0, stride=s, same_padder="circular"),
}


def stride_space(tier):
    def space(ch):
        form = ch.pick("form", ("int", "list"))
        r = (-3, -2, -1, 0, 1, 2, 3, None)
        return {"pool": ch.pick("pool", tuple(POOLS)), "k": ch.pick("k", (1, 2, 3)), "form": form,
                "s": [ch.pick("s%d" % i, r) for i in range(1 if form == "int" else 2)]}
    return space


def stride_run(case, st):
    s = case["s"]
    arg = s[0] if case["form"] == "int" else s
    valid = all(v is None or v >= 1 for v in s)
    settle(st, lambda: POOLS[case["pool"]](arg, case["k"]).forward(lay(unit((5, 6))), axes=(0, 1)), valid, "stride=%s" % (arg,))


LENGTHS = {
    # name: (number of per-axis arguments, builder from a list of per-argument lengths; 0 means one value for all)
    "Gaussian": (4, lambda L: GaussianPoolNd(v(L[0], 3), v(L[1], 1.0), v(L[2], 0), v(L[3], 1))),
    "Separable": (2, lambda L: SeparablePoolNd(v(L[0], [1.0, 2.0]), v(L[1], 1))),
    "Avg": (2, lambda L: AvgPoolNd(v(L[0], 2), v(L[1], 2))),
    "Padder": (5, lambda L: Padder(v(L[0], (1, 1)), v(L[1], "constant"), v(L[2], (1, 2)), v(L[3], (0, 0)), v(L[4], (1, 1)))),
    "NdSpec.zip": (3, lambda L: NdSpec.zip(NdSpec(v(L[0], 1)), NdSpec(v(L[1], 2)), NdSpec(v(L[2], (3, 4)), item_shape=[2]))),
    "NdSpec.apply": (3, lambda L: NdSpec.apply(lambda a, b, c: (a, b, c), NdSpec(v(L[0], 1)), NdSpec(v(L[1], 2)), NdSpec(v(L[2], 3)))),
    "NdSpec.agg_index_len": (3, lambda L: NdSpec.agg_index_len(*[NdSpec(v(a, 1)) for a in L])),
    "NdSpec.agg_index_shape": (3, lambda L: NdSpec.agg_index_shape(*[NdSpec(v(a, 1)) for a in L])),
    "conv_nd": (4, lambda L: conv_nd(v(L[0], 9), v(L[1], 2), v(L[2], 1), v(L[3], 1))),
    "n_original_elements_nd": (4, lambda L: n_original_elements_nd(v(L[0], 9), v(L[1], (1, 1)), v(L[2], 2), v(L[3], 1))),
    "to_same": (3, lambda L: Padder(mode="reflect").to_same(v(L[0], 3), v(L[1], 2), v(L[2], 9))),
    "to_same with modes": (3, lambda L: Padder(mode=v(L[0], "reflect")).to_same(v(L[1], 3), 2, v(L[2], 9))),
    "GaussianGrad": (2, lambda L: GaussianGrad(v(L[0], 3), v(L[1], 1.0), edge_kernel_size=3, edge_sigma=1.0)),
}


def v(n, item):
    return item if n == 0 else [item] * n


def length_space(tier):
    def space(ch):
        name = ch.pick("name", tuple(LENGTHS))
        n = LENGTHS[name][0]
        return {"name": name, "L": [ch.pick("l%d" % i, (0, 1, 2, 3)) for i in range(n)]}
    return space


def length_run(case, st):
    n, f = LENGTHS[case["name"]]
    L = case["L"]
    if case["name"] == "n_original_elements_nd" and not any(L):
        st.outcome("skip")
        return
    valid = len({a for a in L if a}) <= 1
    r = settle(st, lambda: f(L), valid, "%s lengths %s" % (case["name"], L))
    if valid and case["name"] in ("Gaussian", "Separable", "Avg"):
        m = max(L)
        for k in (1, 2, 3):                                 # the number of axes has to be the length of the lists
            settle(st, lambda: r.forward(lay(unit((4, 5, 6))), axes=tuple(range(k))), m in (0, k), "%s: %s lists on %d axes" % (case["name"], L, k))
    if valid and case["name"] == "to_same with modes":
        for k in (1, 2, 3):
            settle(st, lambda: SeparablePoolNd([1.0, 1.0], 1, same_padder=Padder(mode=v(L[0], "reflect"))).forward(
                lay(unit((4, 5, 6))), axes=tuple(range(k))), L[0] in (0, k), "%d modes for %d axes" % (L[0], k))
    if valid and case["name"] in ("Avg",):
        m = max(L)
        for k in (1, 2, 3):
            settle(st, lambda: AvgPoolNd(v(L[0], 2), v(L[1], 2), count_include_pad=False, same_padder="zeros").forward(
                lay(unit((4, 5, 6))), axes=tuple(range(k))), m in (0, k), "avg %s lists on %d axes" % (L, k))


def large_space(tier):
    m = 7 if tier == "quick" else 10

    def space(ch):
        kind = ch.pick("kind", ("Separable", "Avg", "Gaussian", "Separable same", "Avg same", "SSIM", "UnsharpMask"))
        return {"kind": kind, "n": ch.pick("n", tuple(range(0, m))), "k": ch.pick("k", tuple(range(1, m))),
                "s": ch.pick("s", (1, 2, 5)), "axis": ch.pick("axis", (0, 1))}
    return space


def large_run(case, st):
    kind, n, k, s, axis = (case[a] for a in ("kind", "n", "k", "s", "axis"))
    shape = [3, 3]
    shape[axis] = n
    x = lay(unit(tuple(shape)))
    if kind in ("SSIM", "UnsharpMask"):
        if s > 1 or n == 0:
            st.outcome("skip")
            return
        if kind == "SSIM":
            if k == 1:
                st.outcome("skip")
                return
            settle(st, lambda: SSIM(AvgPoolNd(k)).forward(x, x, content_axes=axis, reduce_axes=None), n >= k, "SSIM window %d on %d" % (k, n))
        else:
            if n - k + 1 in (1, n):         # the blurred image broadcasts
                st.outcome("skip")
                return
            settle(st, lambda: UnsharpMask(AvgPoolNd(k), padder=None).forward(x, axes=axis), False, "unpadded blur %d on %d" % (k, n))
        return
    same = kind.endswith("same")
    f = {"Separable": lambda: SeparablePoolNd([1.0] * k, s), "Avg": lambda: AvgPoolNd(k, s), "Gaussian": lambda: GaussianPoolNd(k, 1.0, 0, s),
         "Separable same": lambda: SeparablePoolNd([1.0] * k, s, same_padder="reflect"),
         "Avg same": lambda: AvgPoolNd(k, s, same_padder="symmetric")}[kind]
    valid = n >= 1 if same else n >= k
    if same and n == 0 and k == 1:
        st.outcome("skip")
        return
    if same and n == 0:
        # an empty axis has no window
        settle(st, lambda: f().forward(x, axes=axis), False, "same-padded empty axis")
        return
    settle(st, lambda: f().forward(x, axes=axis), valid, "kernel %d on %d" % (k, n))


EDGE = {
    "edge kernels": [(lambda e=e: EdgeFilter(e, [1.0, 2.0]), ok) for e, ok in (
        ([1.0, -1.0], True), ((-1, 0, 1), True), ([[1.0, -1.0]], False), ([[1.0, -1.0], [1.0, -1.0]], False),
        ([[1.0], [2.0], [3.0]], False), ([(-1, 0, 1), (1, -2, 1)], False), ([[1.0, -1.0], [1.0, 0.0, -1.0]], False))],
    "orders": [(lambda o=o, c=c: c(o), o >= 0) for o in (-3, -2, -1, 0, 1, 2, 3, 4) for c in (
        lambda o: GaussianPoolNd(3, 1.0, o), lambda o: GaussianPoolNd([3, 5], 1.0, [0, o]), lambda o: GaussianPoolNd(4, 1.0, [o]),
        lambda o: GaussianGrad(3, 1.0, edge_order=o), lambda o: GaussianGrad([3, 3], [1.0, 2.0], 5, 1.0, edge_order=o))],
    "same width": [(lambda s=s, i=i: same_padding_width(3, s, i), s == 1 or i is not None) for s in (1, 2, 3) for i in (None, 1, 4)],
    "reduction": [(lambda r=r, c=c: c(reduction=r).forward(lay(unit((2, 3))), lay(unit((2, 3), 2))), r in ("mean", "sum", "none"))
                  for r in ("mean", "sum", "none", "max", "Mean", "", None, "avg") for c in (MSE, PSNR)],
}
DETECTORS = {"Sobel": Sobel, "Prewitt": Prewitt, "Scharr": Scharr, "Farid": Farid, "GaussianGrad": lambda: GaussianGrad(3, 1.0),
             "custom": lambda: EdgeFilter([1.0, 2.0, 4.0], [1.0, 2.0], same_padder="reflect")}
AXSETS = ((), (0,), (1,), (-1,), (0, 1), (1, 0), (0, 2), (0, 1, 2), 0, -1, None, "slice1", "slice2", "slice0")


def table_space(tier):
    def space(ch):
        name = ch.pick("name", tuple(EDGE))
        return {"name": name, "i": ch.pick("i", tuple(range(len(EDGE[name]))))}
    return space


def table_run(case, st):
    f, ok = EDGE[case["name"]][case["i"]]
    settle(st, f, ok, "%s[%d]" % (case["name"], case["i"]))


def few_space(tier):
    def space(ch):
        return {"det": ch.pick("det", tuple(DETECTORS) + ("Laplace", "LoG")), "ndim": ch.pick("ndim", (1, 2, 3)),
                "axes": ch.pick("axes", tuple(range(len(AXSETS)))), "call": ch.pick("call", ("magnitude", "all", "edge_axis"))}
    return space


def few_run(case, st):
    nd, axes, call = case["ndim"], AXSETS[case["axes"]], case["call"]
    axes = {"slice1": slice(0, 1), "slice2": slice(0, 2), "slice0": slice(nd, None)}.get(axes, axes) if isinstance(axes, str) else axes
    x = lay(unit((4, 5, 6)[:nd]))
    idx = tuple(range(nd)) if axes is None else tuple(range(nd)[axes]) if isinstance(axes, slice) else (axes,) if isinstance(axes, int) else axes
    ok_idx = all(-nd <= a < nd for a in idx)
    det = case["det"]
    if det in ("Laplace", "LoG"):
        if call != "magnitude":
            st.outcome("skip")
            return
        o = Laplace() if det == "Laplace" else LaplacianOfGaussian(3, 1.0)
        settle(st, lambda: o.forward(x, axes=axes), ok_idx and len(idx) >= 2, "%s axes=%s" % (det, axes))
        return
    o = DETECTORS[det]()
    if call == "edge_axis":
        settle(st, lambda: o.component(x, edge_axis=axes, smooth_axes=()), ok_idx and len(idx) == 1, "edge_axis=%s" % (axes,))
    elif call == "all":
        settle(st, lambda: o.all_components(x, axes=axes), ok_idx and len(idx) >= 2, "all_components axes=%s" % (axes,))
    else:
        settle(st, lambda: o.magnitude(x, axes=axes, epsilon=1.0), ok_idx and len(idx) >= 2, "magnitude axes=%s" % (axes,))


# ------------------------------------------------------------------------------------------------- images

METRICS = {
    "SSIM": lambda x, y: SSIM(AvgPoolNd(2)).forward(x, y), "SSIM same": lambda x, y: SSIM(AvgPoolNd(3), "reflect").forward(x, y, full=True),
    "MS_SSIM": lambda x, y: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(2)).forward(x, y),
    "MS_SSIM one level": lambda x, y: MS_SSIM((1.0,), blur=AvgPoolNd(2)).forward(x, y),
    "MSE": lambda x, y: MSE().forward(x, y), "MSE sum": lambda x, y: MSE(reduction="sum").forward(x, y, 0),
    "MSE none": lambda x, y: MSE(reduction="none").forward(x, y), "PSNR": lambda x, y: PSNR().forward(x, y),
}
SHAPES = ((2, 2, 6, 6), (1, 2, 6, 6), (2, 1, 6, 6), (1, 1, 6, 6), (2, 2, 6, 5), (2, 2, 5, 6), (2, 2, 6, 1), (2, 2, 1, 6), (2, 6, 6),
          (6, 6), (1, 2, 2, 6, 6), (2, 2, 6), (2, 2, 6, 6, 1), ())


def pair_space(tier):
    def space(ch):
        return {"metric": ch.pick("metric", tuple(METRICS)), "a": ch.pick("a", tuple(range(len(SHAPES)))),
                "b": ch.pick("b", tuple(range(len(SHAPES))))}
    return space


def pair_run(case, st):
    a, b = SHAPES[case["a"]], SHAPES[case["b"]]
    if a == b and (len(a) != 4 or min(a[2:]) < 5):
        st.outcome("skip")
        return
    settle(st, lambda: METRICS[case["metric"]](lay(unit(a)), lay(unit(b, 3))), a == b, "shapes %s and %s" % (a, b))


def small_space(tier):
    top = 14 if tier == "quick" else 26

    def space(ch):
        L = ch.pick("levels", (1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
        return {"levels": L, "k": ch.pick("k", (2, 3)), "h": ch.pick("h", tuple(range(1, top))), "w": ch.pick("w", tuple(range(1, top)) if tier != "quick" else (2, 5, 9, 13)),
                "padder": ch.pick("padder", (None, "reflect")), "k2": ch.pick("k2", (None, 1, 4))}
    return space


def small_run(case, st):
    L, k, h, w = case["levels"], case["k"], case["h"], case["w"]
    ks = (k, k) if case["k2"] is None else (k, case["k2"])
    f = 2 ** (L - 1)
    valid = h / f > ks[0] and w / f > ks[1]
    o = MS_SSIM((0.5, 0.3, 0.2, 0.1)[:L], blur=AvgPoolNd(k if case["k2"] is None else list(ks)), padder=case["padder"])
    x, y = lay(unit((1, 2, h, w))), lay(unit((1, 2, h, w), 2))
    settle(st, lambda: o.forward(x, y), valid, "%d levels, window %s on %dx%d" % (L, ks, h, w))
    settle(st, lambda: o.forward(x.transpose(2, 3), y.transpose(2, 3), content_axes=(3, 2)), valid, "transposed")


def crop_space(tier):
    def space(ch):
        return {"n": ch.pick("n", (1, 2, 3, 4)), "size": ch.pick("size", (0, 1, 2, 3, 4, 5, 6, None)), "axis": ch.pick("axis", (0, 1, 2)),
                "list": ch.pick("list", (False, True))}
    return space


def crop_run(case, st):
    n, s, a = case["n"], case["size"], case["axis"]
    shape = [4, 4, 4]
    shape[a] = n
    if s == 0:
        st.outcome("skip")
        return
    if case["list"]:
        f = lambda: random_crop(lay(unit(tuple(shape))), (a, (a + 1) % 3), [s, 4])
    else:
        f = lambda: random_crop(lay(unit(tuple(shape))), a, s)
    settle(st, f, s is None or s <= n, "crop %s of %d" % (s, n))


# ------------------------------------------------------------------------------------------------- Bayer


def layer(cls=BayerConv2d, k=3):
    return cls(1, 2, k, True).double()


BAYER = {
    "1c4c": (lambda x, al: bayer_1c_to_4c(x), 1, True, False), "4c1c": (lambda x, al: bayer_4c_to_1c(x), 4, False, False),
    "rgb1c": (rgb_to_1c_bayer, 3, True, True), "rgb4c": (rgb_to_4c_bayer, 3, True, True),
    "down1": (downsample_1c_bayer_to_rgb, 1, True, True), "down4": (downsample_4c_bayer_to_rgb, 4, False, True),
    "conv": (lambda x, al: layer()(x, al), 1, True, True), "unshuffle": (lambda x, al: layer(BayerConv2dUnshuffle)(x, al), 1, True, True),
    "conv.forward_unshuffle": (lambda x, al: layer().forward_unshuffle(x, al), 1, True, True),
    "demosaic": (lambda x, al: demosaic(x.float(), al), 1, True, True),
    "last": (lambda x, al: last_step_demosaic(x, torch.cat([x, x], -3), al), 1, False, True),
}
ALS = tuple("".join(t) for n in (3, 4, 5) for t in itertools.product("RGB", repeat=n)) + (
    "rggb", "Grbg", "gbRG", "bGgR", "", "RG", "RGXB", "RGGBRGGB", "RGGB ", " RGGB", "RGBG", "rggbb")
NONSTR = (None, 0, ("R", "G", "G", "B"), ["RGGB"], b"RGGB")


def shape_space(tier):
    def space(ch):
        name = ch.pick("name", tuple(BAYER))
        c = {"name": name, "c": ch.pick("c", (0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16))}
        few = (4, 5, 6) if c["c"] > 5 else (2, 3, 4, 5, 6, 7)
        c["h"], c["w"] = ch.pick("h", few), ch.pick("w", few)
        c["ndim"] = ch.pick("ndim", (1, 2, 3, 4, 5, 6) if c["h"] in (4, 5, 6) and c["w"] in (4, 5) else (1, 2, 3, 4))
        if c["name"] in ("demosaic", "conv", "unshuffle", "conv.forward_unshuffle") and c["ndim"] > 4:
            ch.prune()                       # conv2d takes one batch axis
        return c
    return space


def shape_run(case, st):
    f, c, even, al = BAYER[case["name"]]
    nd, h, w = case["ndim"], case["h"], case["w"]
    shape = ((2, 1, 1, case["c"], h, w))[6 - nd:]
    valid = nd >= 3 and case["c"] == c and (not even or h % 2 == w % 2 == 0)
    if case["name"] == "last":
        if nd < 3 or case["c"] != 1:
            st.outcome("skip")
            return
        valid = True
    if case["name"] == "demosaic" and min(h, w) < 4:
        if valid:
            valid = False               # the 5 x 5 filters reflect two pixels
    settle(st, lambda: f(lay(unit(shape)), "RGGB"), valid, "%s of shape %s" % (case["name"], shape))


def align_space(tier):
    def space(ch):
        return {"name": ch.pick("name", tuple(n for n in BAYER if BAYER[n][3])), "al": ch.pick("al", ALS + tuple(range(len(NONSTR))))}
    return space


def align_run(case, st):
    f, c, _, _ = BAYER[case["name"]]
    al = case["al"]
    if isinstance(al, int):
        al = NONSTR[al]
    valid = isinstance(al, str) and al.upper() in ref.ALIGNMENTS
    settle(st, lambda: f(lay(unit((1, c, 4, 4))), al), valid, "%s alignment %r" % (case["name"], al))


def last_space(tier):
    sh = ((1, 1, 4, 4), (1, 1, 4, 2), (1, 1, 2, 4), (2, 1, 4, 4), (1, 4, 4), (1, 2, 4))

    def space(ch):
        return {"x": list(ch.pick("x", sh)), "y": list(ch.pick("y", sh)), "c": ch.pick("c", (1, 2))}
    return space


def last_run(case, st):
    x, y = list(case["x"]), list(case["y"])
    same = x == y
    y[-3] = case["c"]
    settle(st, lambda: last_step_demosaic(lay(unit(tuple(x))), lay(unit(tuple(y))), "RGGB"), same and case["c"] == 2,
           "last_step_demosaic of %s and %s" % (x, y))


# ------------------------------------------------------------------------------------- fractional kernels, integer images

def pooled(f):
    return lambda xs, ax: f().forward(xs[0], axes=ax)


def edged(f, call="component"):
    return lambda xs, ax: (f().component(xs[0], ax[0], ax[1:]) if call == "component" else f().magnitude(xs[0], axes=ax, p=1))


def scored(f):
    return lambda xs, ax: f().forward(xs[0], xs[1], content_axes=ax, reduce_axes=ax)


def weights_as(w, container):
    return {"list": list, "tuple": tuple, "array": np.array, "tensor": lambda v: torch.tensor(v, dtype=torch.float64)}[container](w)


WEIGHTS_OF = {"half": [0.5, 1.0], "mean3": [1 / 3] * 3, "last": [1.0, 2.0, 0.25], "tiny": [1.0, 1e-9 + 2.0], "first": [0.999, 1.0, 1.0], "single": [0.5],
              "whole": [1.0, 2.0, 1.0], "ints": [2, 0, 1], "one": [1.0], "large": [3.0, 300.0]}
FRACTIONAL = {
    "avg2": pooled(lambda: AvgPoolNd(2)), "avg3 same": pooled(lambda: AvgPoolNd(3, same_padder="reflect")), "avg1,3": pooled(lambda: AvgPoolNd((1, 3))),
    "avg uncounted": pooled(lambda: AvgPoolNd(3, 1, count_include_pad=False, same_padder="zeros")), "avg filter": pooled(lambda: AvgPoolNd(2).to_filter("symmetric")),
    "gauss": pooled(lambda: GaussianPoolNd(3, 0.8)), "gauss deriv": pooled(lambda: GaussianPoolNd(3, 0.8, 1, same_padder="replicate")),
    "sobel normalised": edged(lambda: Sobel(normalize=True)), "farid": edged(Farid), "gradient": edged(lambda: GaussianGrad(3, 0.8)),
    "custom": edged(lambda: EdgeFilter((-1, 0, 1), (0.5, 1, 0.5), same_padder="reflect")),
    "custom edge": edged(lambda: EdgeFilter((-0.5, 0, 0.5), (1, 1, 1), same_padder="reflect")),
    "log": edged(lambda: LaplacianOfGaussian(3, 0.8).gg, "sum"), "log forward": pooled(lambda: LaplacianOfGaussian(3, 0.8)),
    "unsharp": pooled(lambda: UnsharpMask(AvgPoolNd(3), padder="reflect")), "ssim": scored(lambda: SSIM(AvgPoolNd(3))),
    "ssim same": scored(lambda: SSIM(GaussianPoolNd(3, 0.8), padder="reflect", crop_border=False)),
    "ms_ssim": scored(lambda: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(2))),
}
INT_TYPES = ("u8", "i8", "i16", "i32", "i64")
INT_DT = dict(DT, i8=torch.int8)


def fraction_space(tier):
    def space(ch):
        kind = ch.pick("kind", ("weights", "operation"))
        if kind == "operation":
            case = {"op": ch.pick("op", tuple(FRACTIONAL))}
        else:
            case = {"weights": [ch.pick("w0", tuple(WEIGHTS_OF)), ch.pick("w1", tuple(WEIGHTS_OF))], "container": ch.pick("container", ("list", "tuple", "array", "tensor")),
                    "how": ch.pick("how", ("valid", "same", "stride"))}
            if case["weights"][0] != case["weights"][1] and case["container"] not in ("list", "tuple"):
                ch.prune()
        return dict(case, dt=ch.pick("dt", INT_TYPES), axes=list(ch.pick("axes", ((2, 3), (3, 1), (0, 2), (-1, -2)))))
    return space


def fraction_run(case, st):
    T = INT_DT[case["dt"]]
    v = [(generic((6, 5, 7, 6), salt, lo=0, span=8)) for salt in (1, 2)]
    axes = tuple(case["axes"])
    whole = False
    if "op" in case:
        f = FRACTIONAL[case["op"]]
        what = case["op"]
    else:
        ws = [WEIGHTS_OF[n] for n in case["weights"]]
        whole = all(float(w).is_integer() for k in ws for w in k)
        if whole and case["dt"] in ("u8", "i8", "i16"):
            ws = [[min(w, 3) for w in k] for k in ws]        # keep the sums within the type
            v = [np.minimum(a, 1) for a in v]
        data = weights_as(ws[0], case["container"]) if case["weights"][0] == case["weights"][1] else [weights_as(w, case["container"]) for w in ws]
        kw = {"valid": {"stride": 1}, "same": {"stride": 1, "same_padder": "reflect"}, "stride": {"stride": 2}}[case["how"]]

        def f(xs, ax):
            return SeparablePoolNd(data, **kw).forward(xs[0], axes=ax)
        what = "weights %s" % (ws,)
    exp = f([lay(a) for a in v], axes)
    xs = [torch.tensor(a).to(T) for a in v]
    try:
        got = f(xs, axes)
    except Exception as e:
        st.outcome((what, case["dt"], type(e).__name__))
        st.comparisons += 1
        st.check(not whole, "%s on %s: valid request raised %s: %s" % (what, T, type(e).__name__, str(e)[:200]))
        return
    st.outcome((what, case["dt"], str(got.dtype)))
    if whole:
        st.same(got, exp.numpy(), "%s on %s" % (what, T), dtype=T, rtol=0, atol=0)
    else:                                    # an exact answer in a wider type would be fine, a truncated one is not
        st.same(got, exp.numpy(), "%s on %s" % (what, T), rtol=1e-4, atol=1e-4)


# --------------------------------------------------------------------------------------------- padding-width formats

def format_space(tier):
    names = ("numpy", "torch", "Numpy", "torch ", "", "tensorflow", None)

    def space(ch):
        what = ch.pick("what", ("names", "torch", "numpy"))
        if what == "names":
            s = ch.pick("source", names)
            return {"what": what, "source": s, "target": ch.pick("target", [n for n in names if n != s]), "as": ch.pick("as", ("torch", "numpy")), "ndim": 3}
        if what == "torch":
            return {"what": what, "source": "torch", "target": "numpy", "n": ch.pick("n", range(0, 8)), "ndim": ch.pick("ndim", (None, 0, 1, 2, 3))}
        return {"what": what, "source": "numpy", "target": "torch", "rows": [ch.pick("row%d" % i, (0, 1, 2, 3)) for i in range(ch.pick("rows", (0, 1, 2)))], "ndim": ch.pick("ndim", (None, 2))}
    return space


def format_run(case, st):
    s, t, ndim = case["source"], case["target"], case["ndim"]
    if case["what"] == "names":
        arg = (1, 2, 3, 4) if case["as"] == "torch" else ((1, 2), (3, 4))
        valid = {s, t} == {"numpy", "torch"}
        if valid and case["as"] != s:
            st.outcome("skip")
            return
    elif case["what"] == "torch":
        arg = tuple(range(1, case["n"] + 1))
        valid = ndim is not None and case["n"] % 2 == 0 and case["n"] <= 2 * ndim
    else:
        arg = tuple(tuple(range(1, r + 1)) for r in case["rows"])
        valid = all(r == 2 for r in case["rows"])
    settle(st, lambda: pad_width_format(arg, source=s, target=t, ndim=ndim), valid, "pad_width_format %s %s -> %s, ndim=%s" % (arg, s, t, ndim))


# ------------------------------------------------------------------------------------------------- validating helpers

SPECS = {"plain": lambda: NdSpec(1), "two": lambda: NdSpec([1, 2]), "other two": lambda: NdSpec([[1, 2], [3, 4]], item_shape=(2,)), "three": lambda: NdSpec([1, 2, 3]),
         "pair": lambda: NdSpec((1, 2), item_shape=(2,)), "one": lambda: NdSpec([7]), "list": lambda: [1, 2], "int": lambda: 1}
SHAPE_OF = {"plain": (), "pair": (), "two": (2,), "other two": (2,), "three": (3,), "one": (1,)}
NUMBERS = (None, 0, 1, 2, -1, -3, True, (), (1,), [], [2], {}, "x", object, 1.0, 2.0)


def helper_space(tier):
    def space(ch):
        what = ch.pick("helper", ("check_stride", "check_pad_width", "agg_index_shape", "agg_index_len", "NdSpec.apply", "apply depth"))
        if what == "check_stride":
            return {"helper": what, "args": [ch.pick("a", range(len(NUMBERS)))]}
        if what == "check_pad_width":
            return {"helper": what, "args": [ch.pick("a", range(len(NUMBERS))), ch.pick("b", range(len(NUMBERS)))]}
        if what == "apply depth":
            return {"helper": what, "args": [ch.pick("a", (-2, -1, 0, 1, 2, "1", None, 1.0))]}
        return {"helper": what, "args": [ch.pick("s%d" % i, tuple(SPECS)) for i in range(ch.pick("n", (0, 1, 2, 3)))]}
    return space


def whole(v):
    return isinstance(v, (int, float)) and not isinstance(v, str)


def helper_run(case, st):
    h, a = case["helper"], case["args"]
    if h in ("check_stride", "check_pad_width"):
        vs = [NUMBERS[i] for i in a]
        if h == "check_stride":
            r = settle(st, lambda: [check_stride(*vs)], vs[0] is None or whole(vs[0]) and vs[0] >= 1, "check_stride(%s)" % (vs,))
            st.check(r is None or r == vs, lambda: "check_stride(%s) gave %s" % (vs, r))
        else:
            r = settle(st, lambda: tuple(check_pad_width(*vs)), all(whole(v) and v >= 0 for v in vs), "check_pad_width(%s)" % (vs,))
            st.check(r is None or list(r) == vs, lambda: "check_pad_width(%s) gave %s" % (vs, r))
    elif h == "apply depth":
        valid = isinstance(a[0], int) and a[0] >= 0
        settle(st, lambda: apply_ragged_ndarray([[1, 2], [3]], lambda q: 0, a[0]), valid, "apply_ragged_ndarray depth %r" % (a[0],))
    else:
        shapes = {SHAPE_OF.get(n) for n in a}
        valid = bool(a) and None not in shapes and len(shapes - {()}) <= 1
        f = {"agg_index_shape": NdSpec.agg_index_shape, "agg_index_len": NdSpec.agg_index_len,
             "NdSpec.apply": lambda *s: NdSpec.apply(lambda *q: 0, *s).index_shape}[h]
        r = settle(st, lambda: f(*[SPECS[n]() for n in a]), valid, "%s of %s" % (h, a))
        if valid:
            exp = next(iter(shapes - {()}), ())
            st.check(r == ((exp[0] if exp else 0) if h == "agg_index_len" else exp), lambda: "%s of %s gave %s" % (h, a, r))


def harnesses(tier):
    return [Harness(n, s(tier), r) for n, s, r in (
        ("axes", axis_space, axis_run), ("axis arguments", reduce_space, reduce_run), ("any_conv_1d", conv_space, conv_run),
        ("widths", width_space, width_run), ("modes", mode_space, mode_run), ("empty axis", empty_space, empty_run),
        ("strides", stride_space, stride_run), ("lengths", length_space, length_run), ("large kernels", large_space, large_run),
        ("tables", table_space, table_run), ("few axes", few_space, few_run), ("image pairs", pair_space, pair_run),
        ("small images", small_space, small_run), ("crops", crop_space, crop_run), ("bayer shapes", shape_space, shape_run),
        ("alignments", align_space, align_run), ("last step", last_space, last_run),
        ("fractional kernels", fraction_space, fraction_run), ("width formats", format_space, format_run), ("helpers", helper_space, helper_run))]


def bounds(tier):
    return {"axis indices": "-3n-1 .. 3n for n axes, n <= 5", "widths": "-2..2", "strides": "-3..3", "list lengths": "0..3",
            "kernels and sizes": "0..6" if tier == "quick" else "0..9", "MS-SSIM sizes": "1..13" if tier == "quick" else "1..25",
            "alignments": "all strings over RGB of 3, 4 and 5 letters and malformed ones"}
