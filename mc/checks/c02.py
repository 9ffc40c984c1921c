"""C02: N-d padding is the composition of 1-d paddings; alignment, spellings, pad_axis, callables."""
import itertools

import numpy as np
import torch

from torchimage.padding import Padder

from .. import ref
from ..core import Harness
from ..util import DT, HIGH, generic, high_axes, lay, ordered_subsets, spell_axes, spellings

ID = "C02"
ASSUMPTIONS = ["the 1-d rule of each mode is decided by C01 and used here as a building block (in the reference model only)"]

WIDTHS = ((0, 0), (1, 0), (0, 2), (1, 2), (3, 1), (4, 5))
SHAPES = {1: (4,), 2: (2, 3), 3: (2, 3, 4), 4: (2, 1, 3, 2), 5: (1, 2, 2, 3, 2)}


def f_mirror(x, idx, dim):
    """user function: negative copy of the nearest sample minus the distance (writes both sides, in place)"""
    h, t = idx[dim].start, idx[dim].stop
    for j in list(range(h)) + list(range(t, x.shape[dim])):
        src = list(idx)
        src[dim] = slice(h, h + 1) if j < h else slice(t - 1, t)
        dst = list(idx)
        dst[dim] = slice(j, j + 1)
        x[tuple(dst)] = -x[tuple(src)] - (h - j if j < h else j - t + 1)
    return x


def ref_mirror(x, axis, b, a):
    if a == b == 0:
        return x
    n = x.shape[axis]
    lo = [-ref._seg(x, 0, 1, axis) - (b - j) for j in range(b)]
    hi = [-ref._seg(x, n - 1, n, axis) - (j + 1) for j in range(a)]
    return np.concatenate(lo + [x] + hi, axis=axis)


def mode_arg(m):
    if isinstance(m, list):
        return [mode_arg(v) for v in m]
    return f_mirror if m == "<function>" else m


def expected(x, axes, spec):
    """spec: dict of parameters, each either {"item": v} or {"list": [...]}; right aligned"""
    def at(name, i):
        v = spec[name]
        return v["item"] if "item" in v else v["list"][i]
    length = max(len(v["list"]) if "list" in v else 0 for v in spec.values())
    k = min(len(axes), length) if length else len(axes)
    undefined = []
    for i in range(-k, 0):
        b, a = ref.pair(at("pad_width", i))
        m = at("mode", i)
        if m == "<function>":
            x = ref_mirror(x, axes[i], b, a)
        else:
            n = x.shape[axes[i]]
            x = ref.pad_axis(x, axes[i], b, a, m, constant=ref.pair(at("constant_values", i)),
                             end=ref.pair(at("end_values", i)), stat=ref.pair(at("stat_length", i)))
            if m == "empty":
                undefined.append((axes[i], b, n))
    for axis, b, n in undefined:                   # whatever other axes do, these samples stay undefined
        for lo, hi in ((0, b), (b + n, None)):
            sl = [slice(None)] * x.ndim
            sl[axis] = slice(lo, hi)
            x[tuple(sl)] = np.nan
    return x


def build(spec):
    def val(v):
        return v["item"] if "item" in v else v["list"]
    kw = {k: val(v) for k, v in spec.items()}
    kw["mode"] = mode_arg(kw["mode"])
    return Padder(**kw)


def default_spec():
    return {"pad_width": {"item": [1, 2]}, "mode": {"item": "replicate"}, "constant_values": {"item": [3, -4]},
            "end_values": {"item": [7, -8]}, "stat_length": {"item": [2, None]}}


def wildcard(out, exp):
    """mode empty leaves undefined samples: NaN of the reference match anything"""
    o = np.array(out.detach().double().numpy())
    if o.shape == exp.shape:
        o[np.isnan(exp)] = np.nan
    return o


def go(case, st, x, axes, arg):
    out = build(case["spec"]).forward(lay(x), axes=arg)
    exp = expected(x, axes, case["spec"])
    st.same(wildcard(out, exp), exp, "axes %s" % (arg,))


# ---------------------------------------------------------------- every ordered pair of modes on every pair of axes

MODES = ref.ALL_MODES + ("<function>",)
NANSAFE = ("empty", "zeros", "constant") + ref.COPY_MODES


def modes_space(tier):
    def space(ch):
        m1 = ch.pick("m1", MODES)
        m2 = ch.pick("m2", MODES)
        if "empty" in (m1, m2) and not (m1 in NANSAFE and m2 in NANSAFE):
            ch.prune()
        ndim = ch.pick("ndim", (2, 3))
        axes = ch.pick("axes", list(itertools.permutations(range(ndim), 2)))
        return {"m": [m1, m2], "ndim": ndim, "axes": list(axes)}
    return space


def modes_run(case, st):
    x = generic(SHAPES[case["ndim"]])
    for w1, w2 in (((1, 2), (3, 1)), ((0, 2), (4, 5)), ((5, 0), (0, 1)), ((2, 2), (2, 2))):
        spec = default_spec()
        spec["mode"] = {"list": case["m"]}
        spec["pad_width"] = {"list": [w1, w2]}
        spec["constant_values"] = {"list": [[3, -4], [5, 6]]}
        spec["end_values"] = {"list": [[2, -9], [1, 11]]}
        spec["stat_length"] = {"list": [[1, None], [2, 3]]}
        go({"spec": spec}, st, x, tuple(case["axes"]), tuple(case["axes"]))


# --------------------------------------------------------------------- widths x axis subsets x spellings x alignment

def axes_space(tier):
    ndims = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)

    def space(ch):
        ndim = ch.pick("ndim", ndims)
        axes = ch.pick("axes", [()] + ordered_subsets(ndim, 4))
        how = ch.pick("how", spellings(ndim, axes) if axes else ["tuple", "list"])
        mode = ch.pick("mode", ("replicate", "constant", "periodize", "odd_reflect", "maximum"))
        return {"ndim": ndim, "axes": list(axes), "how": how, "mode": mode}
    return space


def axes_run(case, st):
    ndim, axes = case["ndim"], tuple(case["axes"])
    x = generic(SHAPES[ndim])
    arg = spell_axes(ndim, axes, case["how"])
    k = len(axes)
    spec = default_spec()
    spec["mode"] = {"item": case["mode"]}
    go({"spec": spec}, st, x, axes, arg)
    for length in sorted({1, max(k - 1, 1), max(k, 1), k + 1, k + 2}):
        for shift in range(2):
            ws = [list(WIDTHS[(i * 2 + shift) % len(WIDTHS)]) for i in range(length)]
            s = default_spec()
            s["mode"] = {"item": case["mode"]}
            s["pad_width"] = {"list": ws}
            go({"spec": s}, st, x, axes, arg)
            s["mode"] = {"list": [("replicate", case["mode"], "constant", "symmetric")[(i + shift) % 4]
                                  for i in range(length)]}
            s["constant_values"] = {"list": [[i + 1, -i - 1] for i in range(length)]}
            go({"spec": s}, st, x, axes, arg)
            if length > 1:
                s["pad_width"] = {"item": 2}
                go({"spec": s}, st, x, axes, arg)


# ------------------------------------------------ which parameters are lists, lengths of the list, item abbreviations

def params_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", (2, 3))
        axes = ch.pick("axes", ordered_subsets(ndim) if tier != "quick" else ordered_subsets(ndim)[:9])
        length = ch.pick("length", (0, 1, 2, 3, 4))
        spec = {}
        for name, item, lst in (
                ("pad_width", ([1, 2], 2, [0, 3], 0), ([2, 1], [0, 0], [0, 1], [3, 0])),
                ("mode", ("constant", "maximum", "linear_ramp"), ("linear_ramp", "constant", "minimum", "reflect")),
                ("constant_values", ([3, -4], 5), ([1, 2], [3, 4], [5, 6], [7, 8])),
                ("end_values", ([7, -8], 9), ([10, 20], [30, 40], [50, 60], [70, 80])),
                ("stat_length", (None, [1, 2], 1), ([1, None], [2, 1], [None, 2], [3, 3]))):
            opts = [("item", v) for v in item]
            if length:
                opts.append(("list", list(lst[:length])))
            kind, v = ch.pick(name, opts, dev=True)
            spec[name] = {kind: v}
        return {"ndim": ndim, "axes": list(axes), "spec": spec}
    return space


def params_run(case, st):
    x = generic(SHAPES[case["ndim"]])
    axes = tuple(case["axes"])
    go(case, st, x, axes, axes)


# ---------------------------------------------------------------------------------------------------------- pad_axis

def padaxis_space(tier):
    def space(ch):
        mode = ch.pick("mode", MODES)
        ndim = ch.pick("ndim", (1, 2, 3))
        axis = ch.pick("axis", list(range(-ndim, ndim)))
        form = ch.pick("form", ("single", "list"))
        i = ch.pick("i", (0, -1, 5) if form == "single" else (0, 1, -1, -2))
        return {"mode": mode, "ndim": ndim, "axis": axis, "form": form, "i": i}
    return space


def padaxis_run(case, st):
    ndim, mode, i = case["ndim"], case["mode"], case["i"]
    for size in (1, 2, 3, 4, 5, 8):
        shape = list((2, 3, 2)[:ndim])
        shape[case["axis"]] = size
        x = generic(shape)
        for w in WIDTHS:
            spec = default_spec()
            if case["form"] == "single":
                spec["mode"] = {"item": mode}
                spec["pad_width"] = {"item": list(w)}
                one = spec
            else:
                spec["mode"] = {"list": ["symmetric", mode] if i in (1, -1) else [mode, "symmetric"]}
                spec["pad_width"] = {"list": [[2, 3], list(w)] if i in (1, -1) else [list(w), [2, 3]]}
                one = default_spec()
                one["mode"], one["pad_width"] = {"item": mode}, {"item": list(w)}
            out = build(spec).pad_axis(lay(x), i=i, axis=case["axis"])
            exp = expected(x, (case["axis"] % ndim,), one)
            st.same(wildcard(out, exp), exp, "pad_axis i=%d axis=%d size %d widths %s" % (i, case["axis"], size, w))


# -------------------------------------------------------------------------- protocol seen by user-supplied functions

def callable_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", (1, 2, 3))
        axes = ch.pick("axes", ordered_subsets(ndim))
        how = ch.pick("how", spellings(ndim, axes))
        entry = ch.pick("entry", ("forward", "pad_axis") if len(axes) == 1 else ("forward",))
        lead = ch.pick("lead", ("<function>", "empty", "replicate", "constant", "periodize") if len(axes) > 1 else ("<function>",))
        return {"ndim": ndim, "axes": list(axes), "how": how, "entry": entry, "lead": lead}
    return space


def callable_run(case, st):
    ndim, axes = case["ndim"], tuple(case["axes"])
    x = generic(SHAPES[ndim])
    log = []
    widths = [[1, 2], [3, 0], [0, 2]][:len(axes)]

    def f(y, idx, dim):
        filled = y[idx].detach().clone()
        log.append((dim % ndim, tuple((s.start or 0, y.shape[i] if s.stop is None else s.stop)
                                      for i, s in enumerate(idx)), tuple(y.shape), filled))
        return f_mirror(y, idx, dim)
    lead = case["lead"]
    p = Padder(pad_width=widths, mode=f if lead == "<function>" else [lead] + [f] * (len(axes) - 1), constant_values=6)
    arg = spell_axes(ndim, axes, case["how"])
    if case["entry"] == "forward":
        out = p.forward(lay(x), axes=arg)
    else:
        out = p.pad_axis(lay(x), i=0, axis=axes[0])
    cur = x
    calls = list(zip(axes, widths))
    if lead != "<function>":                       # the first axis is padded by another mode
        if lead != "empty":                        # samples left undefined are never reported as present
            cur = ref.pad_axis(cur, axes[0], *widths[0], lead, constant=(6, 6), end=(0, 0), stat=(None, None))
        calls = calls[1:]
    for k, (a, w) in enumerate(calls):
        st.check(len(log) > k and log[k][0] == a, lambda: "function call %d: axes seen %s" % (k, [v[0] for v in log]))
        st.same(log[k][3], cur, "samples marked as present in call %d" % k)
        cur = ref_mirror(cur, a, *w)
    st.check(len(log) == len(calls), "%d calls of the padding function for %d axes" % (len(log), len(calls)))
    if lead == "empty":
        out = out.narrow(axes[0], widths[0][0], x.shape[axes[0]])
    st.same(out, cur, "padding by a function")


# ------------------------------------------------------------------------------------- default axes and larger images

def image_space(tier):
    def space(ch):
        mode = ch.pick("mode", MODES)
        shape = ch.pick("shape", ((2, 3, 17, 33), (1, 1, 64, 65), (2, 2, 5, 4, 6), (3, 2, 31)) if tier == "quick" else
                        ((2, 3, 17, 33), (1, 1, 64, 65), (2, 2, 5, 4, 6), (3, 2, 31), (1, 3, 128, 127), (2, 1, 9, 8, 10),
                         (4, 3, 32, 32), (1, 2, 3, 4, 5, 3)))
        return {"mode": mode, "shape": list(shape)}
    return space


def image_run(case, st):
    x = generic(case["shape"])
    axes = tuple(range(2, x.ndim))
    for w in ((1, 2), (5, 0), (16, 17), (40, 3)):
        spec = default_spec()
        spec["mode"] = {"item": case["mode"]}
        spec["pad_width"] = {"item": list(w)}
        out = build(spec).forward(lay(x))                       # default axes: all but the first two
        exp = expected(x, axes, spec)
        st.same(wildcard(out, exp), exp, "default axes, widths %s" % (w,))


# ---------------------------------------------------------------------------------------------- images with many axes

def high_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", tuple(HIGH))
        return {"ndim": ndim, "axes": list(ch.pick("axes", high_axes(ndim))), "mode": ch.pick("mode", MODES[:-1]),
                "list": ch.pick("list", ("item", "widths", "modes"))}
    return space


def high_run(case, st):
    ndim, axes, mode = case["ndim"], tuple(case["axes"]), case["mode"]
    k = len(axes)
    x = generic(HIGH[ndim])
    s = default_spec()
    s["mode"] = {"item": mode}
    s["pad_width"] = {"item": [1, 0] if k > 4 else [1, 2]}
    if case["list"] == "widths":
        s["pad_width"] = {"list": [list(((1, 0), (0, 2), (1, 1), (0, 0), (2, 1), (0, 1), (1, 0))[i]) for i in range(k)]}
    elif case["list"] == "modes":
        s["mode"] = {"list": [("replicate", mode, "constant", "symmetric", "circular", mode, "zeros")[i] for i in range(k)]}
        s["constant_values"] = {"list": [[i + 1, -i - 1] for i in range(k)]}
    if mode == "empty" and case["list"] == "modes":
        st.outcome("skip")
        return
    go({"spec": s}, st, x, axes, spell_axes(ndim, axes, spellings(ndim, axes)[sum(axes) % len(spellings(ndim, axes))]))


def harnesses(tier):
    return [Harness("modes", modes_space(tier), modes_run),
            Harness("axes", axes_space(tier), axes_run),
            Harness("params", params_space(tier), params_run, budget=3 if tier == "quick" else 5),
            Harness("pad_axis", padaxis_space(tier), padaxis_run),
            Harness("callable", callable_space(tier), callable_run),
            Harness("image", image_space(tier), image_run), Harness("many axes", high_space(tier), high_run)]


def bounds(tier):
    return {"modes": "every ordered pair of the 17 modes and a user function on every ordered pair of axes, 2-d and 3-d",
            "axes": "1 to %d dimensions, every ordered axis subset of up to 4 axes, every spelling, list lengths 1..k+2"
                    % (4 if tier == "quick" else 5),
            "params": "up to %d of 5 parameters away from their default" % (3 if tier == "quick" else 5),
            "pad_axis": "every mode, axis and index sign, sizes 1-8, 6 width pairs",
            "many axes": "images of 5 to 7 axes, every mode, every axis and ordered pair, longer runs in four orders",
            "image": "every mode on 4-d to 6-d images with default axes"}
