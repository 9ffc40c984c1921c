"""C12: MSE and PSNR under every reduction and axis spelling."""
import itertools
import math

import numpy as np
import torch

from torchimage.metrics import MSE, PSNR

from .. import ref
from ..core import Harness
from ..util import DT, HIGH, generic, high_axes, lay, ordered_subsets, spell_axes, spellings, tol, unit

ID = "C12"
ASSUMPTIONS = ["at least one reduce axis (an empty tuple means all axes to torch itself)"]


def shapes(tier):
    out = []
    for nd in range(1, 5):
        out += list(itertools.product((1, 2, 3) if nd < 4 or tier != "quick" else (1, 2), repeat=nd))
    out += [(2, 3, 4, 5), (5, 4), (7,)]
    return out


def space_(tier):
    def space(ch):
        shape = ch.pick("shape", shapes(tier))
        return {"shape": list(shape), "axes": list(ch.pick("axes", ordered_subsets(len(shape))))}
    return space


def psnr(m, mx, eps):
    with np.errstate(all="ignore"):
        return 20 * math.log10(mx) - 10 * np.log10(m + eps)


def run(case, st):
    shape, axes = tuple(case["shape"]), tuple(case["axes"])
    a, b = unit(shape), unit(shape, 3)
    full = (a - b) ** 2
    hows = spellings(len(shape), axes)
    for dt in ("f64", "f32"):
        ta, tb = lay(a, dtype=DT[dt]), lay(b, dtype=DT[dt])
        for how in hows:
            sp = spell_axes(len(shape), axes, how)
            for red in ("mean", "sum", "none"):
                exp = {"mean": lambda: full.mean(axis=axes), "sum": lambda: full.sum(axis=axes), "none": lambda: full}[red]()
                m = MSE(reduction=red)
                st.same(m.forward(ta, tb, reduce_axes=sp), exp, "MSE %s %s" % (red, how), dtype=DT[dt], **tol(dt))
                if how == "none":
                    st.same(m(ta, tb), exp, "MSE %s default axes" % red, **tol(dt))
                    if red == "mean":
                        st.same(MSE()(ta, tb), exp, "MSE()", **tol(dt))
                        st.same(PSNR()(ta, tb), psnr(exp, 1, 0), "PSNR()", **tol(dt))
                if how != hows[0] and red != "mean":
                    continue
                for mx, eps in ((1, 0.0), (255, 0.0), (0.5, 1e-3), (1.0, 0.5), (10, 1e-8)):
                    p = PSNR(max_value=mx, eps=eps, reduction=red)
                    st.same(p.forward(ta, tb, reduce_axes=sp), psnr(exp, mx, eps), "PSNR max=%s eps=%s %s %s" % (mx, eps, red, how),
                            dtype=DT[dt], **tol(dt))
                    st.same(p.forward(tb, ta, reduce_axes=sp), psnr(exp, mx, eps), "PSNR exchanged", count=False, **tol(dt))
    # a zero error
    z = lay(a)
    for z2 in (z.clone(), z):
        st.same(MSE().forward(z, z2, reduce_axes=axes), full.mean(axis=axes) * 0, "MSE of identical images")
        got = PSNR().forward(z, z2, reduce_axes=axes)
        st.same(got, full.mean(axis=axes) * 0 + math.inf, "PSNR of identical images")
        st.same(PSNR(max_value=2, eps=1e-6).forward(z, z2, reduce_axes=axes), psnr(full.mean(axis=axes) * 0, 2, 1e-6),
                "PSNR of identical images with eps")
    # rejected
    bad = [s for s in {shape[:-1] + (shape[-1] + 1,), (1,) + shape[1:], (1,) + shape, shape[1:], shape[::-1]} if tuple(s) != shape]
    for s in bad:
        for m in (MSE(), PSNR(), MSE(reduction="sum"), MSE(reduction="none"), PSNR(reduction="none")):
            o = torch.full(s, 0.25, dtype=torch.float64)
            for x, y in ((z, o), (o, z)):
                try:
                    m.forward(x, y)
                except Exception:
                    continue
                st.check(False, "%s accepts shapes %s and %s" % (type(m).__name__, shape, s))
    for r in ("avg", "Mean", "", None, "None", 0):
        for cls in (MSE, PSNR):
            try:
                cls(reduction=r).forward(z, z)
            except Exception:
                continue
            st.check(False, "reduction %r is accepted" % (r,))


LARGE = ((1000,), (7, 300), (3, 40, 37), (2, 3, 64, 65), (1, 1, 256, 256), (5000, 2), (2, 2, 2, 2, 2))


def large_space(tier):
    def space(ch):
        shape = ch.pick("shape", LARGE)
        return {"shape": list(shape), "axes": list(ch.pick("axes", [a for a in ordered_subsets(len(shape)) if list(a) == sorted(a)])),
                "scale": ch.pick("scale", (1.0, 255.0, 2.0 ** 20, 2.0 ** -20)), "dt": ch.pick("dt", ("f64", "f32"))}
    return space


def large_run(case, st):
    shape, axes, s, T = tuple(case["shape"]), tuple(case["axes"]), case["scale"], DT[case["dt"]]
    a, b = unit(shape), unit(shape, 3)
    ta, tb = lay(a * s, dtype=T), lay(b * s, dtype=T)
    full = (a - b) ** 2
    t = {"rtol": 1e-9, "atol": 1e-9} if case["dt"] == "f64" else {"rtol": 1e-3, "atol": 1e-4}
    for red in ("mean", "sum", "none"):
        exp = {"mean": lambda: full.mean(axis=axes), "sum": lambda: full.sum(axis=axes), "none": lambda: full}[red]()
        st.same(MSE(reduction=red).forward(ta, tb, reduce_axes=axes) / s ** 2, exp, "MSE " + red, dtype=T, **t)
        if red == "none" and case["dt"] != "f64":
            continue
        for mx, eps in ((1, 0.0), (255, 0.0), (s, 1e-3 * s * s)):
            st.same(PSNR(max_value=mx, eps=eps, reduction=red).forward(ta, tb, reduce_axes=axes), psnr(exp * s * s, mx, eps),
                    "PSNR %s max=%s" % (red, mx), rtol=t["rtol"] * 10, atol=t["atol"] * 10)


def high_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", tuple(HIGH))
        return {"ndim": ndim, "axes": list(ch.pick("axes", high_axes(ndim))), "max": ch.pick("max", (1, 255, 0.5)), "eps": ch.pick("eps", (0.0, 0.25))}
    return space


def high_run(case, st):
    shape, axes = HIGH[case["ndim"]], tuple(case["axes"])
    a, b = unit(shape), unit(shape, 3)
    full = (a - b) ** 2
    ta, tb = lay(a), lay(b)
    for how in spellings(len(shape), axes):
        sp = spell_axes(len(shape), axes, how)
        for red, exp in (("mean", full.mean(axis=axes)), ("sum", full.sum(axis=axes)), ("none", full)):
            st.same(MSE(reduction=red).forward(ta, tb, reduce_axes=sp), exp, "MSE %s %s" % (red, how))
            st.same(PSNR(max_value=case["max"], eps=case["eps"], reduction=red).forward(ta, tb, reduce_axes=sp), psnr(exp, case["max"], case["eps"]),
                    "PSNR %s %s" % (red, how))


def harnesses(tier):
    return [Harness("metrics", space_(tier), run), Harness("large", large_space(tier), large_run), Harness("many axes", high_space(tier), high_run)]


def bounds(tier):
    return {"shapes": len(shapes(tier)), "axes": "every ordered subset in every spelling", "max_value/eps": 5}
