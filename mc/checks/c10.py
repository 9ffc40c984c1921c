"""C10: SSIM against its definition from windowed moments."""
import numpy as np
import torch

from torchimage.metrics import SSIM
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd

from .. import ref
from ..core import Harness
from ..util import DT, lay, ordered_subsets, spell_axes, spellings, tol, unit

ID = "C10"
ASSUMPTIONS = ["one-pixel windows with the sample covariance (division by zero pixels minus one) have no defined value",
               "scores are taken over at least one reduce axis"]

G, A = ref.gaussian_kernel, lambda k: [1.0 / k] * k
BLURS = {
    "g3": (lambda n: GaussianPoolNd(3, 0.8), lambda n: [G(3, .8, 0)] * n),
    "g4": (lambda n: GaussianPoolNd(kernel_size=4, sigma=1.2, stride=2), lambda n: [G(4, 1.2, 0)] * n),
    "a3": (lambda n: AvgPoolNd(3), lambda n: [A(3)] * n),
    "a2": (lambda n: AvgPoolNd(2), lambda n: [A(2)] * n),
    "sep": (lambda n: SeparablePoolNd([.2, .5, .3], stride=1), lambda n: [[.2, .5, .3]] * n),
    "peraxis": (lambda n: SeparablePoolNd([[.2, .5, .3], [.4, .6], [.1, .2, .3, .4]][:n] if n > 1 else [.2, .5, .3]),
                lambda n: [[.2, .5, .3], [.4, .6], [.1, .2, .3, .4]][:n]),
    "gax": (lambda n: GaussianPoolNd([3, 5, 2][:n], [.7, 1.3, 1.0][:n]) if n > 1 else GaussianPoolNd(3, .7),
            lambda n: [G(3, .7, 0), G(5, 1.3, 0), G(2, 1.0, 0)][:n]),
    "skip": (lambda n: SeparablePoolNd([[], [.2, .5, .3], []][:n]) if n > 1 else SeparablePoolNd([.2, .5, .3]),
             lambda n: [[], [.2, .5, .3], []][:n] if n > 1 else [[.2, .5, .3]]),
}
PADDERS = (None, "reflect", "constant", "replicate", "Padder")
SHAPES = {2: (6, 7), 3: (3, 6, 5), 4: (2, 3, 6, 7)}
KS = ((0.01, 0.03), (0.2, 0.05), (0.01, 0.5))


def pairs(shape):
    a, b = unit(shape), unit(shape, 3)
    return {"generic": (a, b), "inverse": (a, 1 - a), "near": (a, 0.9 * a + 0.02), "const": (a * 0 + 0.3, a * 0 + 0.8),
            "same": (a, a.copy()), "zero": (a * 0, a)}


def alike(shape):
    """pairs that agree on part of the image"""
    a, b = unit(shape), unit(shape, 3)

    def put(*idx, base=b, other=a):
        c = base.copy()
        c[(Ellipsis,) + idx] = other[(Ellipsis,) + idx]
        return a, c
    s = slice
    return {"first column": put(s(0, 1)), "last column": put(s(-1, None)), "first row": put(s(0, 1), s(None)),
            "last row": put(s(-1, None), s(None)), "corner": put(0, 0), "one pixel differs": put(2, 3, base=a, other=b),
            "left half": put(s(0, shape[-1] // 2)), "top half": put(s(0, shape[-2] // 2), s(None)),
            "one channel": (a, np.concatenate([a[:, :1], b[:, 1:]], 1)), "one sample": (a, np.concatenate([a[:1], b[1:]])),
            "equal columns": (a, np.repeat(a[..., :1], shape[-1], -1)), "reversed": (a, a[..., ::-1].copy()),
            "sum kept": (a, np.roll(a, 1, -1))}


def reduces(ndim, axes):
    out = [("tuple", tuple(range(1, ndim))), ("none", tuple(range(ndim))), ("tuple", tuple(axes)), ("tuple", (0,)),
           ("neg", tuple(range(ndim - 1, 0, -1))), ("int", (ndim - 1,)), ("slice", tuple(range(ndim - 1)))]
    return out


def verify(layer, ndim, axes, how, kernels, mode, k1, k2, cov, crop, st, y1, y2, dt, reds):
    if mode is None and any(len(k) > y1.shape[a] for k, a in zip(kernels, axes)):
        return
    full, _ = ref.ssim_maps(y1, y2, axes, kernels, mode, k1, k2, cov)
    part = ref.crop(full, axes, kernels) if crop and mode is not None else full
    if part.size == 0:
        return                                         # cropped away entirely: mean of nothing
    t1, t2 = lay(y1, dtype=DT[dt]), lay(y2, dtype=DT[dt])
    t = {"rtol": 1e-7, "atol": 1e-8} if dt == "f64" else {"rtol": 5e-3, "atol": 5e-3}
    ca = spell_axes(ndim, axes, how)
    for q, (rh, r) in enumerate(reds):
        ra = spell_axes(ndim, r, rh)
        s, f = layer.forward(t1, t2, content_axes=ca, reduce_axes=ra, full=True)
        st.same(f, full, "map", dtype=DT[dt], **t)
        st.same(s, part.mean(axis=tuple(r)), "score over %s" % (r,), dtype=DT[dt], **t)
        if q:
            continue
        s2 = layer.forward(t1, t2, content_axes=ca, reduce_axes=ra)
        st.same(s2, part.mean(axis=tuple(r)), "score without the map", count=False, **t)
        s3 = layer.forward(t2, t1, content_axes=ca, reduce_axes=ra)
        st.same(s3, part.mean(axis=tuple(r)), "score with images exchanged", count=False, **t)
    if y1 is y2 or np.array_equal(y1, y2):
        st.check(abs(float(s.reshape(-1)[0]) - 1) < 1e-6, "identical images score %r" % s)
        s, f = layer.forward(t1, t1, content_axes=ca, reduce_axes=spell_axes(ndim, reds[0][1], reds[0][0]), full=True)
        st.same(f, full, "map of one tensor given twice", dtype=DT[dt], **t)
        st.same(s, part.mean(axis=tuple(reds[0][1])), "score of one tensor given twice", dtype=DT[dt], **t)


def space_(tier):
    def space(ch):
        blur = ch.pick("blur", tuple(BLURS))
        padder = ch.pick("padder", PADDERS if tier == "quick" else PADDERS + (
            "own", "symmetric", "circular", "smooth", "odd_reflect", "mean", "median", "maximum", "zeros", "linear_ramp"))
        cov = ch.pick("cov", (True, False))
        crop = ch.pick("crop", (True, False))
        ndim = ch.pick("ndim", (2, 3) if tier == "quick" else (2, 3, 4))
        axes = ch.pick("axes", ordered_subsets(ndim, 3))
        return {"blur": blur, "padder": padder, "cov": cov, "crop": crop, "ndim": ndim, "axes": list(axes),
                "pairs": ["generic", "inverse", "same"] if tier == "quick" else ["generic", "inverse", "near", "const", "same", "zero"]}
    return space


def run(case, st):
    ndim, axes = case["ndim"], tuple(case["axes"])
    n = len(axes)
    make, kern = BLURS[case["blur"]]
    mode = case["padder"]
    hows = spellings(ndim, axes)
    reds = reduces(ndim, axes)
    for i, (y1, y2) in enumerate(pairs(SHAPES[ndim])[n] for n in case["pairs"]):
        for j, (k1, k2) in enumerate(KS if i < 1 else KS[:1]):
            b = make(n)
            pad = mode
            m = mode
            if mode == "Padder":
                pad, m = Padder(pad_width=[(1, 2)], mode="symmetric"), "symmetric"
            elif mode == "own":
                b.same_padder = Padder(mode="replicate")
                pad, m = None, "replicate"
            layer = SSIM(b, pad, k1, k2, case["cov"], case["crop"]) if i % 2 else SSIM(
                blur=b, padder=pad, K1=k1, K2=k2, use_sample_covariance=case["cov"], crop_border=case["crop"])
            verify(layer, ndim, axes, hows[(i + j) % len(hows)], kern(n), m, k1, k2, case["cov"], case["crop"], st, y1, y2,
                   "f64", [reds[(2 * i + j + q) % len(reds)] for q in (0, 1)])
    with_shape = [s for s in ((5,), SHAPES[ndim][:-1] + (SHAPES[ndim][-1] + 1,), (1,) + SHAPES[ndim][1:], (1,) + SHAPES[ndim])]
    for s in with_shape:
        try:
            layer.forward(lay(y1), lay(unit(s)), content_axes=axes)
        except Exception:
            continue
        st.check(False, "images of shapes %s and %s are accepted" % (y1.shape, s))


def default_space(tier):
    def space(ch):
        return {"blur": ch.pick("blur", ("default", "gaussian", "mean")), "padder": ch.pick("padder", (None, "reflect", "constant")),
                "shape": list(ch.pick("shape", ((2, 3, 13, 14), (1, 1, 11, 24), (2, 1, 12, 12, 13)))),
                "cov": ch.pick("cov", (True, False)), "crop": ch.pick("crop", (True, False)),
                "dt": ch.pick("dt", ("f64", "f32"))}
    return space


def default_run(case, st):
    ndim = len(case["shape"])
    axes = tuple(range(2, ndim))
    kw = {} if case["blur"] == "default" else {"blur": case["blur"]}
    layer = SSIM(padder=case["padder"], use_sample_covariance=case["cov"], crop_border=case["crop"], **kw)
    kern = [A(11) if case["blur"] == "mean" else G(11, 1.5, 0)] * len(axes)
    ps = pairs(case["shape"])
    for name in ("generic", "near", "same"):
        y1, y2 = ps[name]
        verify(layer, ndim, axes, "tuple", kern, case["padder"], 0.01, 0.03, case["cov"], case["crop"], st, y1, y2, case["dt"],
               reduces(ndim, axes)[:4])
        full, _ = ref.ssim_maps(y1, y2, axes, kern, case["padder"], 0.01, 0.03, case["cov"])
        part = ref.crop(full, axes, kern) if case["crop"] and case["padder"] is not None else full
        if part.size:
            t = {"rtol": 1e-7, "atol": 1e-8} if case["dt"] == "f64" else {"rtol": 5e-3, "atol": 5e-3}
            st.same(layer(lay(y1, dtype=DT[case["dt"]]), lay(y2, dtype=DT[case["dt"]])),
                    part.mean(axis=tuple(range(1, ndim))), "default axes", **t)
    st.same(SSIM(padder="constant")(lay(y1), lay(y1)), np.ones(y1.shape[0]), "identical images")


def image_space(tier):
    def space(ch):
        return {"blur": ch.pick("blur", ("default", "mean", "g31", "a16", "a7")), "padder": ch.pick("padder", (None, "reflect", "constant")),
                "shape": list(ch.pick("shape", ((2, 3, 40, 37), (1, 1, 33, 64)) if tier == "quick" else ((2, 3, 40, 37), (1, 1, 65, 64), (3, 2, 33, 32)))),
                "cov": ch.pick("cov", (True, False)), "crop": ch.pick("crop", (True, False)), "pairs": ["generic", "near"] if tier == "quick" else ["generic", "inverse", "near", "const", "same"],
                "range": ch.pick("range", (1.0, 255.0, 2.0 ** -12))}
    return space


def image_run(case, st):
    blur, kern = {"default": ("gaussian", G(11, 1.5, 0)), "mean": ("mean", A(11)), "g31": (GaussianPoolNd(31, 4.0), G(31, 4.0, 0)),
                  "a16": (AvgPoolNd(16), A(16)), "a7": (AvgPoolNd(7, stride=7), A(7))}[case["blur"]]
    r = case["range"]
    layer = SSIM(blur=blur, padder=case["padder"], K1=0.01 * r, K2=0.03 * r, use_sample_covariance=case["cov"], crop_border=case["crop"])
    for y1, y2 in (pairs(case["shape"])[n] for n in case["pairs"]):
        verify(layer, 4, (2, 3), "tuple", [kern, kern], case["padder"], 0.01 * r, 0.03 * r, case["cov"], case["crop"], st, y1 * r, y2 * r,
               "f64", reduces(4, (2, 3))[:2])


def alike_space(tier):
    shapes = ((2, 2, 13, 70), (2, 2, 72, 12), (2, 2, 14, 15)) if tier == "quick" else (
        (2, 2, 13, 70), (2, 2, 72, 12), (2, 2, 14, 15), (2, 2, 130, 131), (2, 3, 12, 260))

    def space(ch):
        shape = ch.pick("shape", shapes)
        return {"shape": list(shape), "pair": ch.pick("pair", tuple(alike((2, 2, 5, 5)))), "swap": ch.pick("swap", (False, True)),
                "blur": ch.pick("blur", ("gaussian", "mean", "g3")), "padder": ch.pick("padder", (None, "reflect")),
                "cov": ch.pick("cov", (True, False)), "crop": ch.pick("crop", (True, False))}
    return space


def alike_run(case, st):
    blur, kern = {"gaussian": ("gaussian", G(11, 1.5, 0)), "mean": ("mean", A(11)), "g3": (GaussianPoolNd(3, .8), G(3, .8, 0))}[case["blur"]]
    layer = SSIM(blur=blur, padder=case["padder"], use_sample_covariance=case["cov"], crop_border=case["crop"])
    y1, y2 = alike(case["shape"])[case["pair"]]
    if case["swap"]:
        y1, y2 = y2, y1
    verify(layer, 4, (2, 3), "tuple", [kern, kern], case["padder"], 0.01, 0.03, case["cov"], case["crop"], st, y1, y2, "f64",
           reduces(4, (2, 3))[:1])


MANY = {3: (4, 3, 5), 4: (3, 4, 3, 4), 5: (2, 3, 4, 3, 3), 6: (2, 1, 3, 3, 3, 3)}
KERN = [[.3, .4, .3], [.4, .6], [.2, .5, .3], [.5, .5], [.6, .4], [.1, .8, .1]]


def many_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", tuple(MANY))
        m = ch.pick("m", tuple(range(2 if ndim > 4 else 3, ndim + 1)))
        sets = [a for a in ordered_subsets(ndim, m) if len(a) == m] if ndim <= 4 else [
            tuple(range(ndim - m, ndim)), tuple(range(m)), tuple(range(ndim - 1, ndim - 1 - m, -1)), tuple((2 * i + 1) % ndim for i in range(m))
            if ndim % 2 else tuple(range(m))[::-1]]
        return {"ndim": ndim, "axes": list(ch.pick("axes", sets)), "blur": ch.pick("blur", ("g2", "a2", "peraxis", "g3")),
                "padder": ch.pick("padder", (None, "constant", "replicate")), "cov": ch.pick("cov", (True, False)),
                "crop": ch.pick("crop", (True, False))}
    return space


def many_run(case, st):
    ndim, axes = case["ndim"], tuple(case["axes"])
    n = len(axes)
    blur, kern = {"g2": (GaussianPoolNd(2, .9), [G(2, .9, 0)] * n), "a2": (AvgPoolNd(2), [A(2)] * n), "g3": (GaussianPoolNd(3, .8), [G(3, .8, 0)] * n),
                  "peraxis": (SeparablePoolNd(KERN[:n]), KERN[:n])}[case["blur"]]
    layer = SSIM(blur, case["padder"], use_sample_covariance=case["cov"], crop_border=case["crop"])
    hows = spellings(ndim, axes)
    for i, name in enumerate(("generic", "near")):
        y1, y2 = pairs(MANY[ndim])[name]
        verify(layer, ndim, axes, hows[i % len(hows)], kern, case["padder"], 0.01, 0.03, case["cov"], case["crop"], st, y1, y2, "f64",
               reduces(ndim, axes)[i::3][:2])


def harnesses(tier):
    return [Harness("ssim", space_(tier), run), Harness("default", default_space(tier), default_run),
            Harness("image", image_space(tier), image_run),
            Harness("many axes", many_space(tier), many_run),
            Harness("alike", alike_space(tier), alike_run)]


def bounds(tier):
    return {"blurs": len(BLURS) + 2, "padders": list(PADDERS), "ndim": "2..3" if tier == "quick" else "2..4",
            "many axes": "2 to 6 content axes of images with 3 to 6 axes",
            "image pairs": 6, "partly equal pairs": 13, "K": KS}
