"""C11: multi-scale SSIM against its definition."""
import numpy as np
import torch

from torchimage.metrics import MS_SSIM
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd

from .. import ref
from ..core import Harness
from ..util import DT, lay, ordered_subsets, spell_axes, spellings, unit
from .c10 import A, BLURS, G

ID = "C11"
ASSUMPTIONS = ["sizes large enough for the required levels are those above window size times 2^(levels-1) along every "
               "content axis"]
WEIGHTS = ((1.0,), (0.5, 0.5), (0.3, 0.7), (0.0448, 0.2856, 0.3001), (2.0, -1.0, 0.5), (0.1, 0.2, 0.3, 0.4))
PADDERS = (None, "reflect", "constant", "Padder")
DEFAULT_W = (0.0448, 0.2856, 0.3001, 0.2363, 0.1333)


def down(x, axes):
    for a in axes:
        n = x.shape[a] // 2
        idx0 = [slice(None)] * x.ndim
        idx1 = list(idx0)
        idx0[a], idx1[a] = slice(0, 2 * n, 2), slice(1, 2 * n, 2)
        x = (x[tuple(idx0)] + x[tuple(idx1)]) / 2
    return x


def expected(y1, y2, axes, kernels, mode, k1, k2, cov, crop, weights, prod, eps, reduce_axes):
    total = None
    for i, w in enumerate(weights):
        full, cs = ref.ssim_maps(y1, y2, axes, kernels, mode, k1, k2, cov)
        m = full if i == len(weights) - 1 else cs
        if crop and mode is not None:
            m = ref.crop(m, axes, kernels)
        s = m.mean(axis=tuple(axes), keepdims=True)
        if prod:
            term = np.maximum(s, eps) ** w
            total = term if total is None else total * term
        else:
            term = s * w
            total = term if total is None else total + term
        y1, y2 = down(y1, axes), down(y2, axes)
    return total.mean(axis=tuple(reduce_axes))


def image_pairs(shape):
    a, b = unit(shape), unit(shape, 3)
    # two separated structures so that coarse levels still differ
    ramp = np.linspace(0, 1, int(np.prod(shape))).reshape(shape)
    return {"generic": (a * 0.3 + ramp * 0.7, b * 0.4 + ramp * ramp * 0.6), "inverse": (a, 1 - a), "same": (a, a.copy()),
            "coarse": (ramp, 1 - ramp * 0.5)}


def space_(tier):
    def space(ch):
        w = ch.pick("weights", WEIGHTS if tier == "quick" else WEIGHTS + (DEFAULT_W, (0.25, 0.25, 0.25, 0.25), (0.0, 1.0)))
        blur = ch.pick("blur", ("g3", "a2", "peraxis") if tier == "quick" else tuple(b for b in BLURS if b != "skip"))
        padder = ch.pick("padder", PADDERS if tier == "quick" else PADDERS + ("own", "symmetric", "circular", "smooth", "mean"))
        crop = ch.pick("crop", (True, False)) if padder else True
        cov = ch.pick("cov", (True, False))
        prod = ch.pick("prod", (True, False))
        axes = ch.pick("axes", ((2, 3), (3, 2), (1,), (0, 2)) if tier == "quick" else
                       tuple(ordered_subsets(4, 2)))
        extra = ch.pick("extra", ((1, 1), (2, 3)) if len(axes) == 2 else ((1, 0), (2, 0), (3, 0)))
        return {"weights": list(w), "blur": blur, "padder": padder, "crop": crop, "cov": cov, "prod": prod,
                "axes": list(axes), "extra": list(extra),
                "pairs": ("generic", "inverse", "same") if tier == "quick" else ("generic", "inverse", "same", "coarse")}
    return space


def run(case, st):
    axes = tuple(case["axes"])
    n, ndim = len(axes), 4
    L = len(case["weights"])
    kern = BLURS[case["blur"]][1](n)
    shape = [2, 3, 2, 3]
    for a, k, e in zip(axes, kern, case["extra"]):
        shape[a] = len(k) * 2 ** (L - 1) + e
    mode = pad = case["padder"]
    b = BLURS[case["blur"]][0](n)
    if pad == "Padder":
        pad, mode = Padder(pad_width=3, mode="symmetric"), "symmetric"
    elif pad == "own":
        b.same_padder, pad, mode = Padder(mode="replicate"), None, "replicate"
    hows = spellings(ndim, axes)
    others = tuple(a for a in range(ndim) if a not in axes)
    reds = [("tuple", tuple(range(1, ndim))), ("none", tuple(range(ndim))), ("neg", axes), ("tuple", (0,)), ("tuple", others)]
    for i, name in enumerate(case["pairs"]):
        y1, y2 = image_pairs(shape)[name]
        k1, k2, eps = ((0.01, 0.03, 1e-8), (0.3, 0.1, 1e-3))[i % 2]
        layer = MS_SSIM(weights=tuple(case["weights"]) if i % 2 else list(case["weights"]), use_prod=case["prod"], blur=b,
                        padder=pad, K1=k1, K2=k2, eps=eps, use_sample_covariance=case["cov"], crop_border=case["crop"])
        for q in (0, 1, 2) if i == 0 else (0, 1) if name == "same" else (0,):
            rh, r = reds[(2 * i + q) % len(reds)]
            t1, t2 = lay(y1), lay(y2)
            if q == 2:
                t1, t2 = t2, t1                          # symmetric in its arguments
            if q == 1 and name == "same":
                t2 = t1                                  # the very same tensor
            got = layer.forward(t1, t2, content_axes=spell_axes(ndim, axes, hows[(i + q) % len(hows)]),
                                reduce_axes=spell_axes(ndim, r, rh))
            exp = expected(y1, y2, axes, kern, mode, k1, k2, case["cov"], case["crop"], case["weights"], case["prod"], eps, r)
            st.same(got, exp, "%s images, reduced over %s" % (name, r), rtol=1e-6, atol=1e-8)
            if name == "same" and case["prod"]:
                st.check(bool(((got - 1).abs() < 1e-6).all()), "identical images score %r" % got)
    # images just too small along one content axis
    for a, k in zip(axes, kern):
        small = list(shape)
        small[a] = len(k) * 2 ** (L - 1)
        try:
            out = layer.forward(lay(unit(small)), lay(unit(small)), content_axes=axes)
        except Exception:
            continue
        st.check(False, "size %d along axis %d accepted for %d levels: %s" % (small[a], a, L, out))
    try:
        layer.forward(lay(y1), lay(y2[:1]), content_axes=axes)
    except Exception:
        pass
    else:
        st.check(False, "images of different shapes are accepted")


def default_space(tier):
    def space(ch):
        return {"shape": list(ch.pick("shape", ((1, 1, 177, 178), (1, 2, 180, 177)))), "padder": ch.pick("padder", (None, "reflect")),
                "blur": ch.pick("blur", ("default", "mean")), "prod": ch.pick("prod", (True, False)), "dt": ch.pick("dt", ("f64", "f32"))}
    return space


def default_run(case, st):
    kw = {} if case["blur"] == "default" else {"blur": "mean"}
    kern = [A(11) if case["blur"] == "mean" else G(11, 1.5, 0)] * 2
    layer = MS_SSIM(use_prod=case["prod"], padder=case["padder"], **kw)
    ps = image_pairs(case["shape"])
    for name in ("generic", "coarse"):
        y1, y2 = ps[name]
        got = layer(lay(y1, dtype=DT[case["dt"]]), lay(y2, dtype=DT[case["dt"]]))
        exp = expected(y1, y2, (2, 3), kern, case["padder"], 0.01, 0.03, True, True, DEFAULT_W, case["prod"], 1e-8, (1, 2, 3))
        st.same(got, exp, name, **({"rtol": 1e-6, "atol": 1e-8} if case["dt"] == "f64" else {"rtol": 1e-2, "atol": 1e-2}))


def deep_space(tier):
    """more levels, larger windows"""
    def space(ch):
        return {"k,L": list(ch.pick("k,L", ((2, 6), (2, 7), (3, 5), (7, 3), (8, 2), (15, 2), (21, 1), (5, 4)))),
                "padder": ch.pick("padder", (None, "reflect")), "prod": ch.pick("prod", (True, False)),
                "extra": list(ch.pick("extra", ((1, 1), (2, 7), (33, 4)))), "range": ch.pick("range", (1.0, 255.0)), "cov": ch.pick("cov", (True, False))}
    return space


def deep_run(case, st):
    (k, L), r = case["k,L"], case["range"]
    shape = [2, 1] + [k * 2 ** (L - 1) + e for e in case["extra"]]
    w = [0.1 * (i + 1) for i in range(L)]
    layer = MS_SSIM(w, use_prod=case["prod"], blur=AvgPoolNd(k), padder=case["padder"], K1=0.1 * r, K2=0.2 * r,
                    use_sample_covariance=case["cov"])
    kern = [A(k)] * 2
    for name in ("generic", "coarse"):
        y1, y2 = (y * r for y in image_pairs(shape)[name])
        exp = expected(y1, y2, (2, 3), kern, case["padder"], 0.1 * r, 0.2 * r, case["cov"], True, w, case["prod"], 1e-8, (1, 2, 3))
        st.same(layer(lay(y1), lay(y2)), exp, name, rtol=1e-6, atol=1e-8)


# ------------------------------------------------------------------------- floors of the factors, images that disagree

EPS = (0.0, 1e-12, 1e-8, 1e-3, 0.25, 1.0, 2.0)


def floor_space(tier):
    def space(ch):
        return {"eps": ch.pick("eps", EPS), "weights": list(ch.pick("weights", ((0.5, 0.5), (1.0,), (0.3, 0.0, 0.7), (1.0, 2.0), (0.0, 1.0), (0.2, 0.3, 0.5)))),
                "prod": ch.pick("prod", (True, False)), "pair": ch.pick("pair", ("inverse", "generic", "half", "coarse", "zero")),
                "padder": ch.pick("padder", (None, "replicate")), "cov": ch.pick("cov", (True, False)), "dt": ch.pick("dt", ("f64", "f32") if tier != "quick" else ("f64",))}
    return space


def floor_run(case, st):
    L = len(case["weights"])
    shape = (2, 2, 3 * 2 ** (L - 1) + 2, 3 * 2 ** (L - 1) + 5)
    ps = image_pairs(shape)
    a, b = unit(shape), unit(shape, 3)
    ps["half"] = (a, np.concatenate([1 - a[:1], b[1:]]))        # one sample disagrees, the other does not
    ps["zero"] = (a * 0, b)
    y1, y2 = ps[case["pair"]]
    layer = MS_SSIM(list(case["weights"]), case["prod"], AvgPoolNd(3), case["padder"], eps=case["eps"], use_sample_covariance=case["cov"])
    t = {"rtol": 1e-6, "atol": 1e-8} if case["dt"] == "f64" else {"rtol": 1e-2, "atol": 1e-2}
    for r in ((1, 2, 3), (0, 1, 2, 3)):
        got = layer.forward(lay(y1, dtype=DT[case["dt"]]), lay(y2, dtype=DT[case["dt"]]), reduce_axes=r)
        exp = expected(y1, y2, (2, 3), [A(3), A(3)], case["padder"], 0.01, 0.03, case["cov"], True, case["weights"], case["prod"], case["eps"], r)
        st.same(got, exp, "floor %s reduced over %s" % (case["eps"], r), **t)


def harnesses(tier):
    return [Harness("deep", deep_space(tier), deep_run), Harness("default", default_space(tier), default_run), Harness("levels", space_(tier), run), Harness("floor", floor_space(tier), floor_run)]


def bounds(tier):
    return {"weights": [list(w) for w in WEIGHTS], "levels": "1..5", "floor": list(EPS), "sizes": "the minimum + 1..3 along each content axis"}
