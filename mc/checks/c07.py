"""C07: average pooling and its divisor against direct counting."""
import itertools

import numpy as np
import torch

from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd

from .. import ref
from ..core import Harness
from ..util import DT, HIGH, generic, high_axes, lay, ordered_subsets, spell_axes, spellings, tol

ID = "C07"
ASSUMPTIONS = ["count_include_pad=False is decided for zero padding, the case its definition covers"]


def avg_ref(x, axes, ks, ss, mode, include, **kw):
    ones = [[1.0] * k for k in ks]
    s = ref.pool(x, axes, ones, ss, mode, **kw)
    if include or mode is None:
        return s / np.prod([float(k) for k in ks])
    count = ref.pool(np.ones_like(x), axes, ones, ss, "zeros")
    return s / count


def padder(m):
    return {"constant": "constant", "zeros": "zeros", "object": Padder(mode="constant", pad_width=3),
            "const0": Padder(mode="constant", constant_values=(0.0, 0.0), pad_width=(9, 1)), None: None}.get(m, m)


# ------------------------------------------------------------------------------------------------ one axis, exhaustive

def one_space(tier):
    kmax, smax, nmax = (8, 9, 14) if tier == "quick" else (14, 16, 30)

    def space(ch):
        return {"k": ch.pick("k", list(range(1, kmax + 1))), "s": ch.pick("s", [None] + list(range(1, smax + 1))),
                "include": ch.pick("include", (True, False)), "mode": ch.pick("mode", (None, "constant", "zeros")),
                "place": ch.pick("place", (0, 1)), "nmax": nmax}
    return space


def one_run(case, st):
    k, s, mode = case["k"], case["s"], case["mode"]
    layer = AvgPoolNd(k, s, count_include_pad=case["include"], same_padder=mode)
    for n in list(range(1, case["nmax"] + 1)) + [40, 65]:
        if mode is None and n < k:
            continue
        x = generic((3, n)) if case["place"] else generic((n, 3))
        axis = case["place"]
        out = layer.forward(lay(x), axes=axis)
        st.same(out, avg_ref(x, [axis], [k], [s], mode, case["include"]), "n=%d" % n)


def ladder_space(tier):
    def space(ch):
        return {"k": ch.pick("k", (1, 2, 9, 11, 15, 16, 17, 31, 32, 33, 64, 65) + (() if tier == "quick" else (100, 127, 128, 129))),
                "s": ch.pick("s", (None, 1, 2, 7, 8, 16, 33, 70)), "include": ch.pick("include", (True, False)),
                "mode": ch.pick("mode", (None, "constant", "zeros")), "scale": ch.pick("scale", (1.0, 2.0 ** 40, 2.0 ** -40)),
                "dt": ch.pick("dt", ("f64", "f32"))}
    return space


def ladder_run(case, st):
    k, s, mode, dt = case["k"], case["s"], case["mode"], case["dt"]
    layer = AvgPoolNd(k, s, count_include_pad=case["include"], same_padder=mode)
    for n in sorted({1, 2, max(k - 1, 1), k, k + 1, 2 * k + 1, 100, 130}):
        if mode is None and n < k:
            continue
        x = generic((2, n))
        out = layer.forward(lay(x * case["scale"], dtype=DT[dt]), axes=1)
        t = tol(dt)
        st.same(out / case["scale"], avg_ref(x, [1], [k], [s], mode, case["include"]), "n=%d" % n, rtol=t["rtol"], atol=t["atol"] * 10)


# -------------------------------------------------------------------------------------------------------- several axes

SIZES = {1: (7,), 2: (5, 6), 3: (4, 7, 5), 4: (2, 4, 3, 5)}


def many_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", (2, 3) if tier == "quick" else (2, 3, 4))
        axes = ch.pick("axes", ordered_subsets(ndim, 3))
        m = len(axes)
        k = ch.pick("k", [3, 2, [2, 3, 4][:m], [4, 1, 3][:m], [3, 3, 2][:m]])
        s = ch.pick("s", [None, 1, 2, [1, 2, 3][:m], [2, None, 1][:m], [3, 1, 2][:m]])
        how = ch.pick("how", ("tuple", "neg", "list"))
        return {"ndim": ndim, "axes": list(axes), "k": k, "s": s, "include": ch.pick("include", (True, False)),
                "mode": ch.pick("mode", (None, "constant", "zeros", "const0")), "how": how}
    return space


def lst(v, m):
    return v if isinstance(v, list) else [v] * m


def many_run(case, st):
    x = generic(SIZES[case["ndim"]])
    axes = tuple(case["axes"])
    m = len(axes)
    ks, ss = lst(case["k"], m), lst(case["s"], m)
    mode = {"const0": "constant"}.get(case["mode"], case["mode"])
    if mode is None and any(k > x.shape[a] for k, a in zip(ks, axes)):
        return
    layer = AvgPoolNd(case["k"], case["s"], count_include_pad=case["include"], same_padder=padder(case["mode"]))
    out = layer.forward(lay(x), axes=spell_axes(case["ndim"], axes, case["how"]))
    st.same(out, avg_ref(x, axes, ks, ss, mode, case["include"]), "average pooling")


# ---------------------------------------------------------------- padding that counts: any mode; filters; default axes

def modes_space(tier):
    def space(ch):
        return {"mode": ch.pick("mode", [m for m in ref.ALL_MODES if m != "empty"]), "k": ch.pick("k", (2, 3, 5, [3, 4])),
                "s": ch.pick("s", (None, 1, 2, [2, 1])), "filter": ch.pick("filter", (False, True)),
                "dt": ch.pick("dt", ("f64", "f32")), "include": ch.pick("include", (True, False)),
                "shape": list(ch.pick("shape", ((1, 2, 6, 7), (2, 1, 17, 9))))}
    return space


def modes_run(case, st):
    mode = case["mode"]
    if not case["include"] and mode not in ("zeros", "constant"):
        mode = "zeros"
    x = generic(case["shape"])
    layer = AvgPoolNd(case["k"], case["s"], count_include_pad=case["include"], same_padder=mode)
    ss = lst(case["s"], 2)
    if case["filter"]:
        layer.to_filter()
        ss = [1, 1]
    out = layer.forward(lay(x, dtype=DT[case["dt"]]))
    t = tol(case["dt"])
    st.same(out, avg_ref(x, [2, 3], lst(case["k"], 2), ss, mode, case["include"]), "average pooling",
            dtype=DT[case["dt"]], rtol=t["rtol"], atol=t["atol"] * 10)


def high_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", tuple(HIGH))
        return {"ndim": ndim, "axes": list(ch.pick("axes", high_axes(ndim))), "k": ch.pick("k", (2, 3, "own")), "s": ch.pick("s", (None, 1, "own")),
                "include": ch.pick("include", (True, False)), "mode": ch.pick("mode", (None, "constant", "zeros"))}
    return space


def high_run(case, st):
    ndim, axes, mode = case["ndim"], case["axes"], case["mode"]
    m = len(axes)
    x = generic(HIGH[ndim])
    k = [2, 3, 1, 2, 3, 2, 1][:m] if case["k"] == "own" else case["k"]
    s = [1, 2, None, 3, 1, 2, 1][:m] if case["s"] == "own" else case["s"]
    if mode is None and any(q > x.shape[a] for q, a in zip(lst(k, m), axes)):
        st.outcome("window")
        return
    layer = AvgPoolNd(k, s, count_include_pad=case["include"], same_padder=mode)
    exp = avg_ref(x, axes, lst(k, m), lst(s, m), mode, case["include"])
    for how in spellings(ndim, axes)[:2]:
        st.same(layer.forward(lay(x), axes=spell_axes(ndim, axes, how)), exp, "average pooling " + how, rtol=1e-8, atol=1e-8)


def harnesses(tier):
    return [Harness("one_axis", one_space(tier), one_run), Harness("ladder", ladder_space(tier), ladder_run), Harness("axes", many_space(tier), many_run),
            Harness("modes", modes_space(tier), modes_run), Harness("many axes", high_space(tier), high_run)]


def bounds(tier):
    return {"one_axis": "k up to %d, s None,1..%d, n 1..%d,40,65" % ((8, 9, 14) if tier == "quick" else (14, 16, 30)),
            "many axes": "images of 5 to 7 axes, every axis and ordered pair, longer runs in four orders",
            "axes": "every ordered subset of up to 3 axes, per-axis kernel sizes and strides"}
