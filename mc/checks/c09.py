"""C09: unsharp masking against x + amount * thresholded difference."""
import numpy as np
import torch

from torchimage.filtering import UnsharpMask
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd

from .. import ref
from ..core import Harness
from ..util import DT, HIGH, generic, high_axes, lay, ordered_subsets, smallints, spell_axes, spellings, tol

ID = "C09"
ASSUMPTIONS = ["whether a difference exactly equal to the threshold counts is decided only where the arithmetic is exact"]

# name -> (factory(n_axes, **kw), reference kernels for n axes)
BLURS = {
    "g3": (lambda n, **k: GaussianPoolNd(3, 0.8, **k), lambda n: [ref.gaussian_kernel(3, 0.8, 0)] * n),
    "g5": (lambda n, **k: GaussianPoolNd(kernel_size=5, sigma=1.5, stride=3, **k),
           lambda n: [ref.gaussian_kernel(5, 1.5, 0)] * n),
    "g4": (lambda n, **k: GaussianPoolNd(4, 1.1, **k), lambda n: [ref.gaussian_kernel(4, 1.1, 0)] * n),
    "a3": (lambda n, **k: AvgPoolNd(3, **k), lambda n: [[1 / 3] * 3] * n),
    "a2": (lambda n, **k: AvgPoolNd(2, stride=2, **k), lambda n: [[.5] * 2] * n),
    "dyadic": (lambda n, **k: SeparablePoolNd([0.25, 0.5, 0.25], **k), lambda n: [[.25, .5, .25]] * n),
    "delta": (lambda n, **k: SeparablePoolNd([0.0, 1.0, 0.0], **k), lambda n: [[0., 1., 0.]] * n),
    "odd": (lambda n, **k: SeparablePoolNd([1.0, 3.0, -0.5], **k), lambda n: [[1., 3., -.5]] * n),
    "peraxis": (lambda n, **k: SeparablePoolNd([[.5, .5], [.25, .5, .25], [1.0]][:n] if n > 1 else [.5, .5], **k),
                lambda n: [[.5, .5], [.25, .5, .25], [1.0]][:n]),
}
PADDERS = ("arg:reflect", "arg:constant", "own:symmetric", "arg:Padder", "own:Padder", "override", "arg:mean", "arg:smooth")
SHAPES = {1: (6,), 2: (5, 6), 3: (4, 3, 5), 4: (2, 3, 4, 5)}


def build(blur, padder, n):
    make = BLURS[blur][0]
    how, _, m = padder.partition(":")
    if how == "override":
        return (lambda a, t: UnsharpMask(make(n, same_padder="constant"), a, t, padder="replicate")), "replicate"
    if m == "Padder":
        p = Padder(pad_width=(3, 1), mode="circular")
        if how == "arg":
            return (lambda a, t: UnsharpMask(make(n), amount=a, threshold=t, padder=p)), "circular"
        return (lambda a, t: UnsharpMask(make(n, same_padder=p), amount=a, threshold=t)), "circular"
    if how == "arg":
        return (lambda a, t: UnsharpMask(make(n), amount=a, threshold=t, padder=m)), m
    return (lambda a, t: UnsharpMask(make(n, same_padder=m), a, t)), m


def expected(x, axes, blur, mode, amount, thr):
    d = x - ref.pool(x, axes, BLURS[blur][1](len(axes)), [1] * len(axes), mode)
    return d, x + amount * np.where(np.abs(d) < thr, 0.0, d)


def thresholds(d, exact):
    """0, below, between, above the occurring differences; exactly at one where nothing is rounded"""
    v = np.unique(np.round(np.abs(d), 10))
    out = [0, float(v[-1]) + 1.0]
    gaps = [(float(a), float(b)) for a, b in zip(v[:-1], v[1:]) if b - a > 1e-3]
    for i in sorted({0, len(gaps) // 2, len(gaps) - 1}) if gaps else ():
        out.append((gaps[i][0] + gaps[i][1]) / 2)
    if exact:
        nz = v[v > 0]
        out += [float(nz[i]) for i in sorted({0, len(nz) // 2, len(nz) - 1})] if len(nz) else []
    return out


def space_(tier):
    def space(ch):
        blur = ch.pick("blur", tuple(BLURS))
        padder = ch.pick("padder", PADDERS if tier == "quick" else PADDERS + tuple(
            "arg:" + m for m in ref.ALL_MODES if m not in ("empty", "periodize")))
        ndim = ch.pick("ndim", (1, 2, 3, 4) if tier != "quick" else (2, 3))
        axes = ch.pick("axes", [a for a in ordered_subsets(ndim, 3)])
        return {"blur": blur, "padder": padder, "ndim": ndim, "axes": list(axes)}
    return space


def run(case, st):
    ndim, axes = case["ndim"], tuple(case["axes"])
    x = smallints(SHAPES[ndim]) * 2 + generic(SHAPES[ndim], 1)
    make, mode = build(case["blur"], case["padder"], len(axes))
    exact = case["blur"] in ("dyadic", "delta", "peraxis") and mode != "mean"
    hows = spellings(ndim, axes)
    d, _ = expected(x, axes, case["blur"], mode, 1, 0)
    for dt in ("f64", "f32"):
        for j, thr in enumerate(thresholds(d, exact)):
            for i, amount in enumerate((0.5, 0, 1.0, -1, 2.5)):
                t = lay(x, dtype=DT[dt])
                before = t.clone()
                m = make(amount, thr)
                how = hows[(i + j) % len(hows)]
                got = m.forward(t, axes=spell_axes(ndim, axes, how))
                exp = expected(x, axes, case["blur"], mode, amount, thr)[1]
                st.same(got, exp, "amount=%s threshold=%s axes=%s" % (amount, thr, how), dtype=DT[dt], **tol(dt))
                st.check(torch.equal(t, before), "the input was modified")
                if amount == 0:
                    st.check(torch.equal(got, before), "amount zero changes the image")
    if axes == tuple(range(2, ndim)):
        st.same(make(0.5, 0).forward(lay(x)), expected(x, axes, case["blur"], mode, .5, 0)[1], "default axes")


def const_space(tier):
    def space(ch):
        return {"blur": ch.pick("blur", ("g3", "g5", "g4", "a3", "a2", "dyadic")),
                "mode": ch.pick("mode", [m for m in ref.ALL_MODES if m not in (
                    "empty", "zeros", "constant", "linear_ramp", "antisymmetric", "periodize")]),
                "value": ch.pick("value", (0.0, 1.0, -3.5, 1000.0)), "amount": ch.pick("amount", (0.5, -2.0, 100.0)),
                "thr": ch.pick("thr", (0, 0.3)), "axes": list(ch.pick("axes", ordered_subsets(3)))}
    return space


def const_run(case, st):
    x = np.full((5, 6, 5), case["value"])
    m = UnsharpMask(BLURS[case["blur"]][0](len(case["axes"])), case["amount"], case["thr"], padder=case["mode"])
    st.same(m.forward(lay(x), axes=case["axes"]), x, "constant image", rtol=1e-9, atol=1e-9)


def image_space(tier):
    def space(ch):
        return {"k": ch.pick("k", (7, 8, 9, 11, 15, 16, 21, 31)), "scale": ch.pick("scale", (1.0, 2.0 ** 30, 2.0 ** -30)), "sigma": ch.pick("sigma", (1.5, 3.0)), "amount": ch.pick("amount", (0.5, 3.0)),
                "thr": ch.pick("thr", (0, 2.5)), "padder": ch.pick("padder", ("reflect", "symmetric"))}
    return space


def image_run(case, st):
    x, s = generic((2, 3, 33, 40)), case["scale"]
    m = UnsharpMask(GaussianPoolNd(case["k"], case["sigma"]), case["amount"], case["thr"] * s, padder=case["padder"])
    k = ref.gaussian_kernel(case["k"], case["sigma"], 0)
    d = x - ref.pool(x, [2, 3], [k, k], [1, 1], case["padder"])
    if case["thr"] and np.abs(np.abs(d) - case["thr"]).min() < 1e-9:
        return
    exp = x + case["amount"] * np.where(np.abs(d) < case["thr"], 0, d)
    st.same(m.forward(lay(x * s)) / s, exp, "image", rtol=1e-9, atol=1e-8)


def default_space(tier):
    def space(ch):
        return {"given": ch.pick("given", ((), ("amount",), ("threshold",), ("amount", "threshold"))), "kw": ch.pick("kw", (False, True)),
                "blur": ch.pick("blur", ("g3", "a3", "odd")), "ndim": ch.pick("ndim", (3, 4)), "axes": ch.pick("axes", ("default", "all content"))}
    return space


def default_run(case, st):
    """arguments left out are amount 0.5, threshold 0 and the axes from 2 on"""
    shape = {3: (2, 1, 7), 4: (2, 1, 5, 6)}[case["ndim"]]
    n = case["ndim"] - 2
    x = generic(shape)
    amount, thr = 1.75 if "amount" in case["given"] else 0.5, 2.5 if "threshold" in case["given"] else 0
    make, kernels = BLURS[case["blur"]]
    if case["kw"] or case["given"] == ("threshold",):
        kw = {"amount": amount, "threshold": thr}
        m = UnsharpMask(blur=make(n), padder="reflect", **{k: kw[k] for k in case["given"]})
    else:
        m = UnsharpMask(make(n), *[amount, thr][:len(case["given"])], padder="reflect")
    y = m.forward(lay(x)) if case["axes"] == "default" else m.forward(lay(x), slice(2, None))
    d = x - ref.pool(x, list(range(2, 2 + n)), kernels(n), [1] * n, "reflect")
    if thr and np.abs(np.abs(d) - thr).min() < 1e-9:
        return
    st.same(y, x + amount * np.where(np.abs(d) < thr, 0, d), "mask", rtol=1e-9, atol=1e-9)


def high_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", tuple(HIGH))
        return {"ndim": ndim, "axes": list(ch.pick("axes", high_axes(ndim))), "blur": ch.pick("blur", ("g3", "a2", "odd")),
                "mode": ch.pick("mode", ("constant", "replicate", "circular")), "thr": ch.pick("thr", (0, "middle")), "amount": ch.pick("amount", (0.5, -2.0))}
    return space


def high_run(case, st):
    ndim, axes = case["ndim"], case["axes"]
    x = generic(HIGH[ndim])
    d, _ = expected(x, axes, case["blur"], case["mode"], 1, 0)
    thr = thresholds(d, False)[-2] if case["thr"] else 0
    exp = expected(x, axes, case["blur"], case["mode"], case["amount"], thr)[1]
    m = UnsharpMask(BLURS[case["blur"]][0](len(axes)), case["amount"], thr, padder=case["mode"])
    for how in spellings(ndim, axes)[:2]:
        st.same(m.forward(lay(x), axes=spell_axes(ndim, axes, how)), exp, "mask " + how, rtol=1e-8, atol=1e-8)


def harnesses(tier):
    return [Harness("defaults", default_space(tier), default_run), Harness("mask", space_(tier), run), Harness("constant", const_space(tier), const_run),
            Harness("image", image_space(tier), image_run), Harness("many axes", high_space(tier), high_run)]


def bounds(tier):
    return {"blurs": len(BLURS), "padders": len(PADDERS), "amounts": 5, "many axes": "5 to 7", "thresholds": "0, gaps between differences, "
            "exactly at differences for dyadic blurs, above all"}
