"""C05: separable pooling against dense correlation with explicit windows."""
import itertools

import numpy as np
import torch

from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.pooling.operator import any_conv_1d

from .. import ref
from ..core import Harness
from ..util import DT, HIGH, generic, high_axes, lay, ordered_subsets, smallints, spell_axes, spellings, tol

ID = "C05"
ASSUMPTIONS = ["pooling is bilinear in (input, kernel); generic integer data with pairwise different entries therefore "
               "separates any two different index maps within the bounds",
               "float rounding up to 1e-9 relative is not a difference"]

KERNELS = ([2.0], [1.0, 3.0], [2.0, -1.0, 5.0], [], [1.0, 4.0, -2.0, 3.0], [0.5, 0.25, -1.5, 2.0, 7.0])


# -------------------------------------------------------------------------------- one axis: every size, kernel, stride

def one_space(tier):
    kmax, smax, nmax = (6, 7, 13) if tier == "quick" else (9, 11, 24)

    def space(ch):
        k = ch.pick("k", list(range(0, kmax + 1)))
        s = ch.pick("s", [None] + list(range(1, smax + 1)))
        mode = ch.pick("mode", (None, "constant", "replicate", "reflect", "symmetric", "circular", "periodize", "smooth",
                                "antisymmetric", "odd_reflect", "odd_symmetric", "zeros", "linear_ramp", "maximum",
                                "mean", "median", "minimum"))
        return {"k": k, "s": s, "mode": mode, "nmax": nmax, "place": ch.pick("place", (0, 1))}
    return space


def one_run(case, st):
    k, s, mode, place = case["k"], case["s"], case["mode"], case["place"]
    kernel = [float(v) for v in smallints((k,), 2)] if k else []
    pool = SeparablePoolNd(kernel=kernel, stride=s, same_padder=mode)
    for n in list(range(1, case["nmax"] + 1)) + [33, 64]:
        x = np.concatenate([np.eye(n), generic((2, n))]) if n < 14 else generic((2, n))
        if place == 0:
            x = np.ascontiguousarray(x.T)
        axis = 1 - (place == 0)
        if mode is None and k > n:
            continue                                   # rejection is C21's business
        b, a = ref.same_width(k, s if s else k, n) if k else (0, 0)
        if mode == "periodize" and b == a == 0:
            pass
        out = pool.forward(lay(x), axes=axis)
        exp = ref.pool(x, [axis], [kernel], [s], mode)
        st.same(out, exp, "n=%d k=%d s=%s mode=%s" % (n, k, s, mode))
        if mode is not None and k and mode != "periodize":
            st.check(out.shape[axis] == -(-n // (s or k)), "output size %d for n=%d" % (out.shape[axis], n))


# --------------------------------------------------------------------------- long kernels, wide strides, scaled values

SCALES = (1.0, 2.0 ** 40, 2.0 ** -40)


def ladder_space(tier):
    def space(ch):
        k = ch.pick("k", (7, 8, 9, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65) + (() if tier == "quick" else (10, 12, 13, 14, 100, 127, 128, 129)))
        return {"k": k, "s": ch.pick("s", (None, 1, 2, 3, 7, 8, 16, 33, 70)),
                "mode": ch.pick("mode", (None, "reflect", "constant", "circular", "symmetric", "replicate", "mean", "odd_reflect")),
                "scale": ch.pick("scale", SCALES), "place": ch.pick("place", (0, 1))}
    return space


def ladder_run(case, st):
    k, s, mode, place = case["k"], case["s"], case["mode"], case["place"]
    kernel = [float(v) for v in generic((k,), 2, lo=-9, span=19)]
    pool = SeparablePoolNd(kernel=kernel, stride=s, same_padder=mode)
    for n in sorted({1, 2, k - 1, k, k + 1, 2 * k, 2 * k + 1, 100, 130}):
        if mode is None and k > n:
            continue
        x = generic((2, n)) if place else generic((n, 2))
        out = pool.forward(lay(x * case["scale"]), axes=place)
        exp = ref.pool(x, [place], [kernel], [s], mode)
        st.same(out / case["scale"], exp, "n=%d" % n, atol=1e-9 * max(1.0, np.abs(exp).max() if exp.size else 1.0))


# ------------------------------------------------------------------------- several axes: kernels x strides x axis orders

SIZES = {1: (7,), 2: (5, 6), 3: (4, 5, 6), 4: (2, 4, 3, 5)}


def many_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", (1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
        axes = ch.pick("axes", [()] + ordered_subsets(ndim, 3))
        m = len(axes)
        shared = ch.pick("shared", (True, False) if m else (True,))
        ks = list(range(4)) if tier == "quick" else list(range(6))
        kern = [ch.pick("kernel", ks) for _ in range(1 if shared else m)]
        form = ch.pick("stride_form", ("none", "int", "list"))
        if form == "none":
            stride = None
        elif form == "int":
            stride = ch.pick("stride", (1, 2, 3))
        else:
            if not m:
                ch.prune()
            opts = (1, 2, None) if tier == "quick" else (1, 2, 3, None)
            stride = [ch.pick("stride", opts) for _ in range(m)]
        mode = ch.pick("mode", (None, "constant", "symmetric", "linear_ramp") if tier == "quick" else
                       (None, "constant", "symmetric", "reflect", "circular", "linear_ramp", "odd_reflect", "median"))
        return {"ndim": ndim, "axes": list(axes), "shared": shared, "kernel": kern, "stride": stride, "mode": mode}
    return space


def many_run(case, st):
    ndim, axes = case["ndim"], tuple(case["axes"])
    m = len(axes)
    kern = [KERNELS[i] for i in case["kernel"]]
    stride = case["stride"]
    x = generic(SIZES[ndim])
    ks = kern * m if case["shared"] else kern
    ss = stride if isinstance(stride, list) else [stride] * m
    arg = kern[0] if case["shared"] else kern
    pool = SeparablePoolNd(kernel=arg, stride=stride, same_padder=case["mode"])
    if case["mode"] is None and any(len(k) > x.shape[a] for k, a in zip(ks, axes)):
        return
    out = pool.forward(lay(x), axes=axes)
    st.same(out, ref.pool(x, axes, ks, ss, case["mode"]), "pooling")


# --------------------------------------------------------------------- spellings, containers, element types, layouts

def forms_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", (2, 3, 4))
        axes = ch.pick("axes", ordered_subsets(ndim, 2))
        how = ch.pick("how", spellings(ndim, axes), dev=True)
        kform = ch.pick("kform", ("list", "tuple", "numpy", "tensor", "nested"), dev=True)
        mode = ch.pick("mode", (None, "reflect", "padder", "constant5"), dev=True)
        dt = ch.pick("dt", ("f64", "f32", "f16", "bf16"), dev=True)
        lo = ch.pick("layout", ("contiguous", "transposed", "strided", "offset"), dev=True)
        klen = ch.pick("klen", (3, 2, 1, 4), dev=True)
        stride = ch.pick("stride", (None, 1, 2), dev=True)
        filt = ch.pick("filter", ("no", "keep", "none", "replicate"), dev=True)
        return {"ndim": ndim, "axes": list(axes), "how": how, "kform": kform, "mode": mode, "dt": dt, "layout": lo,
                "klen": klen, "stride": stride, "filter": filt}
    return space


def make_padder(m):
    if m == "padder":
        return Padder(mode="symmetric", pad_width=17)
    if m == "constant5":
        return Padder(mode="constant", constant_values=(5, -6))
    return m


def forms_run(case, st):
    ndim, axes, dt = case["ndim"], tuple(case["axes"]), case["dt"]
    base = {3: [1.0, -2.0, 4.0], 2: [1.0, 2.0], 1: [3.0], 4: [1.0, 2.0, -1.0, 0.5]}[case["klen"]]
    kf = case["kform"]
    if kf == "nested":
        ks = [[c * (i + 1) for c in base] for i in range(len(axes))]
        arg = ks
    else:
        ks = [base] * len(axes)
        arg = {"list": list(base), "tuple": tuple(base), "numpy": np.array(base), "tensor": torch.tensor(base)}[kf]
    x = smallints((4, 5, 6, 4)[:ndim])
    mode, stride = case["mode"], case["stride"]
    pool = SeparablePoolNd(kernel=arg, stride=stride, same_padder=make_padder(mode))
    if case["filter"] != "no":
        arg2 = {"keep": (), "none": (None,), "replicate": ("replicate",)}[case["filter"]]
        back = pool.to_filter(*arg2)
        st.check(back is pool, "to_filter returned another object")
        stride = 1
        if case["filter"] == "replicate":
            mode = "replicate"
    kw = {}
    if mode == "constant5":
        kw = {"constants": (5, -6)}
    rmode = {"padder": "symmetric", "constant5": "constant"}.get(mode, mode)
    exp = ref.pool(x, axes, ks, [stride] * len(axes), rmode, **kw)
    out = pool.forward(lay(x, case["layout"], DT[dt]), axes=spell_axes(ndim, axes, case["how"]))
    t = tol(dt)
    st.same(out, exp, "pooling", dtype=DT[dt], rtol=t["rtol"], atol=t["atol"] * 50)


# ------------------------------------------------------------------------------------------------ default axes, images

def image_space(tier):
    def space(ch):
        return {"shape": list(ch.pick("shape", ((2, 3, 17, 33), (1, 2, 64, 40), (2, 1, 5, 6, 7), (3, 2, 129)))),
                "layer": ch.pick("layer", ("sep", "gauss", "avg")), "k": ch.pick("k", (2, 3, 5, 8, 11)),
                "s": ch.pick("s", (None, 1, 2, 5)), "mode": ch.pick("mode", (None, "reflect", "circular", "constant"))}
    return space


def image_run(case, st):
    x = generic(case["shape"])
    k, s, mode = case["k"], case["s"], case["mode"]
    axes = list(range(2, x.ndim))
    if case["layer"] == "sep":
        kern = [float(v) for v in smallints((k,), 1)]
        pool = SeparablePoolNd(kern, s, same_padder=mode)
    elif case["layer"] == "gauss":
        kern = ref.gaussian_kernel(k, 1.3, 0)
        pool = GaussianPoolNd(k, 1.3, stride=s, same_padder=mode)
    else:
        kern = [1.0 / k] * k
        pool = AvgPoolNd(k, s, same_padder=mode)
    if mode is None and any(x.shape[a] < k for a in axes):
        return
    out = pool.forward(lay(x))
    st.same(out, ref.pool(x, axes, [kern] * len(axes), [s] * len(axes), mode), "default axes")


# ---------------------------------------------------------------------------------------------------------- any_conv_1d

def conv_space(tier):
    nmax, kmax, smax, dmax = (8, 4, 4, 3) if tier == "quick" else (14, 6, 6, 5)

    def space(ch):
        ndim = ch.pick("ndim", (1, 2, 3, 4))
        dim = ch.pick("dim", list(range(-ndim, ndim)))
        k = ch.pick("k", list(range(1, kmax + 1)))
        s = ch.pick("s", list(range(1, smax + 1)))
        d = ch.pick("d", list(range(1, dmax + 1)))
        return {"ndim": ndim, "dim": dim, "k": k, "s": s, "d": d, "nmax": nmax}
    return space


def conv_run(case, st):
    ndim, dim, k, s, d = (case[c] for c in ("ndim", "dim", "k", "s", "d"))
    w = smallints((k,), 4)
    for n in range(d * (k - 1) + 1, case["nmax"] + d * (k - 1) + 1):
        shape = list((2, 3, 2, 3)[:ndim])
        shape[dim] = n
        x = generic(shape)
        ax = dim % ndim
        full = np.zeros(d * (k - 1) + 1)
        full[::d] = w
        exp = ref.correlate_axis(x, full, ax, s)
        out = any_conv_1d(lay(x), torch.tensor(w), dim=dim, stride=s, dilation=d)
        st.same(out, exp, "any_conv_1d n=%d" % n)


def rows_space(tier):
    def space(ch):
        return {"rows": list(ch.pick("rows", ((1100,), (3, 700), (40, 41)) if tier == "quick" else (
                    (1100,), (3, 700), (40, 41), (513,), (5000,), (9, 11, 23)))),
                "at": ch.pick("at", (0, -1)), "n": ch.pick("n", (7, 18)), "k": ch.pick("k", (1, 2, 3, 5)),
                "s": ch.pick("s", (1, 2, 3)), "d": ch.pick("d", (1, 2, 3)), "dt": ch.pick("dt", ("f64", "f32"))}
    return space


def rows_run(case, st):
    """as any_conv_1d, with more independent rows than any batch a route may treat at once"""
    k, s, d, n = case["k"], case["s"], case["d"], case["n"]
    if n < d * (k - 1) + 1:
        return
    w = smallints((k,), 4)
    full = np.zeros(d * (k - 1) + 1)
    full[::d] = w
    shape = [n] + case["rows"] if case["at"] == 0 else case["rows"] + [n]
    x = smallints(shape, 2)
    T = DT[case["dt"]]
    out = any_conv_1d(lay(x, dtype=T), torch.tensor(w, dtype=T), dim=case["at"], stride=s, dilation=d)
    st.same(out, ref.correlate_axis(x, full, case["at"] % x.ndim, s), "any_conv_1d over %s rows" % (case["rows"],), dtype=T)
    if d == 1:
        for mode in (None, "reflect"):
            if mode and n <= k:
                continue
            pool = SeparablePoolNd([float(v) for v in w], s, same_padder=mode)
            st.same(pool.forward(lay(x, dtype=T), axes=case["at"]), ref.pool(x, [case["at"] % x.ndim], [list(w)], [s], mode),
                    "pooling over %s rows" % (case["rows"],), dtype=T)


# ---------------------------------------------------------------------------------------------- images with many axes

def high_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", tuple(HIGH))
        axes = ch.pick("axes", high_axes(ndim))
        return {"ndim": ndim, "axes": list(axes), "kernel": ch.pick("kernel", ("shared", "own", "mixed")),
                "stride": ch.pick("stride", (None, 1, 2, "own")), "mode": ch.pick("mode", (None, "reflect1", "constant", "symmetric", "circular"))}
    return space


def high_run(case, st):
    ndim, axes = case["ndim"], case["axes"]
    m, mode = len(axes), case["mode"]
    x = generic(HIGH[ndim])
    if mode == "reflect1":
        mode = "odd_reflect"
    own = ([2.0, 1.0], [1.0, -3.0, 2.0], [4.0], [1.0, 1.0, 3.0], [], [5.0, -1.0], [1.0, 2.0])[:m]
    ks = {"shared": [[1.0, -2.0]] * m, "own": list(own), "mixed": [[1.0, 2.0, 4.0]] * m}[case["kernel"]]
    ss = [(2, 1, None, 3, 1, 2, None)[i] for i in range(m)] if case["stride"] == "own" else [case["stride"]] * m
    if mode is None and any(len(k) > x.shape[a] for k, a in zip(ks, axes)):
        st.outcome("window")
        return
    pool = SeparablePoolNd(kernel=ks if case["kernel"] == "own" else ks[0], stride=ss if case["stride"] == "own" else case["stride"], same_padder=mode)
    exp = ref.pool(x, axes, ks, ss, mode)
    for how in spellings(ndim, axes)[:3]:
        st.same(pool.forward(lay(x), axes=spell_axes(ndim, axes, how)), exp, "pooling " + how, rtol=1e-8, atol=1e-8)


def harnesses(tier):
    return [Harness("one_axis", one_space(tier), one_run), Harness("ladder", ladder_space(tier), ladder_run), Harness("axes", many_space(tier), many_run),
            Harness("forms", forms_space(tier), forms_run, budget=2 if tier == "quick" else 3),
            Harness("image", image_space(tier), image_run), Harness("any_conv_1d", conv_space(tier), conv_run),
            Harness("rows", rows_space(tier), rows_run), Harness("many axes", high_space(tier), high_run)]


def bounds(tier):
    return {"one_axis": "kernel sizes 0..%d, strides None,1..%d, sizes 1..%d, 16 padding modes + none, one-hot basis"
                        % ((6, 7, 13) if tier == "quick" else (9, 11, 24)),
            "rows": "up to %d independent rows" % (2100 if tier == "quick" else 5000),
            "many axes": "images of 5 to 7 axes, every axis and ordered pair, runs of up to all axes in four orders",
            "axes": "1 to 3 dimensions, every ordered subset, every kernel/stride combination"}
