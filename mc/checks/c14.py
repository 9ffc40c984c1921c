"""C14: Bayer convolution per colour site; gradient-corrected demosaicing."""
import itertools

import numpy as np
import torch
import torch.nn.functional as F

from torchimage.cfa.bayer_conv import BayerConv2d, BayerConv2dUnshuffle, demosaic, last_step_demosaic

from .. import ref
from ..core import Harness
from ..util import DT, LAYOUTS, generic, lay, smallints, tol

ID = "C14"
ASSUMPTIONS = ["odd kernel sizes (even ones have no centre); height and width at least large enough for reflection",
               "impulses at every pixel stand for every input: the Bayer convolution is linear"]
SITES = ("R", "B", "GR", "GB")


def weights(ci, co, k, site, salt=0):
    s = SITES.index(site)
    w = ((np.arange(co * ci * k * k) * (7 + 2 * s) + 3 * s + salt) % 11 - 5.0).reshape(co, ci, k, k)
    return w / 4


def biases(co, site):
    return np.arange(co) * 0.5 + SITES.index(site) * 10.0 + 1


def expected(x, al, k, ci, co, bias):
    h, w = x.shape[-2:]
    y = np.zeros(x.shape[:-3] + (co, h, w))
    for s in SITES:
        v = ref.centred_correlate_reflect(x, weights(ci, co, k, s))
        if bias:
            v = v + biases(co, s)[:, None, None]
        m = ref.site_mask(al, h, w, s)
        y[..., m] = v[..., m]
    return y


def build(cls, ci, co, k, bias, dt):
    layer = cls(ci, co, k, bias) if co % 2 else cls(in_channels=ci, out_channels=co, kernel_size=k, bias=bias)
    layer = layer.to(DT[dt])
    with torch.no_grad():
        for s in SITES:
            layer.conv_dict[s].weight.copy_(torch.tensor(weights(ci, co, k, s)))
            if bias:
                layer.conv_dict[s].bias.copy_(torch.tensor(biases(co, s)))
    return layer


def conv_space(tier):
    def space(ch):
        k = ch.pick("k", (1, 3, 5) if tier == "quick" else (1, 3, 5, 7))
        sizes = [s for s in ((2, 4, 6) if tier == "quick" else (2, 4, 6, 8, 10)) if s > k // 2]
        return {"k": k, "al": ch.pick("al", ref.ALIGNMENTS + tuple(a.lower() for a in ref.ALIGNMENTS[:2])),
                "ci": ch.pick("ci", (1, 2, 3) if tier != "quick" else (1, 2)), "co": ch.pick("co", (1, 2, 3) if tier != "quick" else (1, 3)), "bias": ch.pick("bias", (False, True)),
                "h": ch.pick("h", sizes), "w": ch.pick("w", sizes), "batch": ch.pick("batch", (None, 1, 3)),
                "dt,layout": list(ch.pick("dt,layout", (("f64", "contiguous"), ("f32", "strided")) if tier == "quick" else
                                          tuple(itertools.product(("f64", "f32"), LAYOUTS[:4]))))}
    return space


def conv_run(case, st):
    k, al, ci, co, bias, h, w = (case[n] for n in ("k", "al", "ci", "co", "bias", "h", "w"))
    dt, layout = case["dt,layout"]
    lead = () if case["batch"] is None else (case["batch"],)
    x = smallints(lead + (ci, h, w))
    t = lay(x, layout, DT[dt])
    exp = expected(x, al.upper(), k, ci, co, bias)
    layer = build(BayerConv2d, ci, co, k, bias, dt)
    st.same(layer(t, al), exp, "forward", dtype=DT[dt], **tol(dt))
    un = F.pixel_unshuffle(torch.tensor(exp), 2)
    st.same(layer.forward_unshuffle(t, sensor_alignment=al), un, "forward_unshuffle", dtype=DT[dt], **tol(dt))
    lu = build(BayerConv2dUnshuffle, ci, co, k, bias, dt)
    st.same(lu(t, al), un, "BayerConv2dUnshuffle", dtype=DT[dt], **tol(dt))


def impulse_space(tier):
    def space(ch):
        k = ch.pick("k", (3, 5) if tier == "quick" else (1, 3, 5, 7))
        h, w = ch.pick("size", ((4, 6), (6, 4)) if tier == "quick" else ((6, 8), (8, 6), (4, 4)))
        return {"k": k, "al": ch.pick("al", ref.ALIGNMENTS), "h": h, "w": w}
    return space


def impulse_run(case, st):
    k, al, h, w = (case[n] for n in ("k", "al", "h", "w"))
    if min(h, w) <= k // 2:
        return
    x = np.zeros((h * w, 1, h, w))
    for i in range(h * w):
        x[i, 0, i // w, i % w] = 1
    layer = build(BayerConv2d, 1, 2, k, False, "f64")
    st.same(layer(lay(x), al), expected(x, al, k, 1, 2, False), "impulses")
    st.same(layer.forward_unshuffle(lay(x), al), F.pixel_unshuffle(torch.tensor(expected(x, al, k, 1, 2, False)), 2),
            "unshuffled impulses")


def ladder_space(tier):
    def space(ch):
        k = ch.pick("k", (7, 9, 11, 1, 3) if tier == "quick" else (7, 9, 11, 15, 21, 1, 3, 5))
        return {"k": k, "al": ch.pick("al", ref.ALIGNMENTS), "ci": ch.pick("ci", (1, 4, 9)), "co": ch.pick("co", (1, 5, 8)),
                "bias": ch.pick("bias", (False, True)), "h": ch.pick("h", (16,)), "w": ch.pick("w", (12, 22)),
                "batch": ch.pick("batch", (None, 5)), "dt,layout": ["f64", "contiguous"]}
    return space


# -------------------------------------------------------------------------------------------------------- demosaicing

FILTERS = ref.site_filters()


def demosaic_ref(x, al, clamp):
    """x (..., 1, h, w)"""
    h, w = x.shape[-2:]
    out = np.zeros(x.shape[:-3] + (3, h, w))
    for s in SITES:
        m = ref.site_mask(al, h, w, s)
        for ci, c in enumerate("RGB"):
            if s[0] == c:
                v = x[..., 0, :, :]
            else:
                v = ref.centred_correlate_reflect(x, FILTERS[(c, s)][None, None])[..., 0, :, :]
            out[..., ci, :, :][..., m] = v[..., m]
    return np.clip(out, 0.0, clamp)


def demosaic_space(tier):
    sizes = (4, 6, 8) if tier == "quick" else (4, 6, 8, 10, 12)

    def space(ch):
        return {"al": ch.pick("al", ref.ALIGNMENTS + tuple(a.lower() for a in ref.ALIGNMENTS)),
                "h": ch.pick("h", sizes), "w": ch.pick("w", sizes), "batch": ch.pick("batch", (None, 2)),
                "kind": ch.pick("kind", ("impulse", "generic", "constant", "edges")),
                "clamp": ch.pick("clamp", (None, 1.0, 1000.0, 0.5))}
    return space


def demosaic_run(case, st):
    al, h, w = case["al"], case["h"], case["w"]
    clamp = case["clamp"]
    lead = () if case["batch"] is None else (case["batch"],)
    kw = {} if clamp is None else {"clamp": clamp}
    top = 1.0 if clamp is None else clamp
    t = {"rtol": 1e-5, "atol": 1e-5 * max(1.0, top / 10)}
    kind = case["kind"]
    if kind == "impulse":
        n = h * w
        x = np.full((n, 1, h, w), 0.25 if top <= 1 else 100.0)
        for i in range(n):
            x[i, 0, i // w, i % w] += 0.125 if top <= 1 else 40.0
        if case["batch"] is None:
            for i in range(0, n, max(n // 5, 1)):
                st.same(demosaic(lay(x[i], dtype=torch.float32), al, **kw), demosaic_ref(x[i], al.upper(), top), "impulse", **t)
            return
    elif kind == "generic":
        x = (smallints(lead + (1, h, w)) + 2) / (4.0 if top <= 1 else 0.01)
    elif kind == "edges":
        x = np.zeros(lead + (1, h, w))
        x[..., : h // 2 + 1, :] = 0.8 * top
        x[..., w // 2:] += 0.4 * top
    else:
        for rgb in itertools.product((0.0, 0.3, 1.0), repeat=3):
            x = np.zeros(lead + (1, h, w))
            for s in SITES:
                x[..., 0, :, :][..., ref.site_mask(al.upper(), h, w, s)] = rgb["RGB".index(s[0])] * top
            # interpolating a constant colour from a mosaic is exact only where the colour planes agree: check the
            # reference everywhere and exact reproduction for equal channels
            out = demosaic(lay(x, dtype=torch.float32), al, **kw)
            st.same(out, demosaic_ref(x, al.upper(), top), "constant colour", **t)
            st.same(out, np.broadcast_to(np.array(rgb).reshape(3, 1, 1) * top, lead + (3, h, w)), "constant colour reproduced", **t)
        return
    got = demosaic(lay(x, dtype=torch.float32), sensor_alignment=al, **kw)
    st.same(got, demosaic_ref(x, al.upper(), top), kind, dtype=torch.float32, **t)


def big_space(tier):
    def space(ch):
        return {"al": ch.pick("al", ref.ALIGNMENTS), "h": ch.pick("h", (16, 34, 64)), "w": ch.pick("w", (16, 18, 66)),
                "batch": ch.pick("batch", (None, 2)), "kind": ch.pick("kind", ("generic", "edges")), "clamp": ch.pick("clamp", (None, 255.0, 65535.0))}
    return space


def last_space(tier):
    def space(ch):
        return {"al": ch.pick("al", ref.ALIGNMENTS + tuple(a.lower() for a in ref.ALIGNMENTS)), "h": ch.pick("h", (2, 4, 6)),
                "w": ch.pick("w", (2, 4, 6)), "lead": list(ch.pick("lead", ((), (1,), (2,), (2, 3)))),
                "dt": ch.pick("dt", ("f64", "f32", "i64"))}
    return space


def last_run(case, st):
    al, h, w, lead = case["al"], case["h"], case["w"], tuple(case["lead"])
    x, y = generic(lead + (1, h, w)), generic(lead + (2, h, w), 3) + 500
    exp = np.zeros(lead + (3, h, w))
    for i in range(h):
        for j in range(w):
            own = "RGB".index(ref.site_of(al.upper(), i, j)[0])
            rest = [c for c in range(3) if c != own]
            exp[..., own, i, j] = x[..., 0, i, j]
            exp[..., rest[0], i, j] = y[..., 0, i, j]
            exp[..., rest[1], i, j] = y[..., 1, i, j]
    tx, ty = lay(x, dtype=DT[case["dt"]]), lay(y, dtype=DT[case["dt"]])
    st.same(last_step_demosaic(tx, ty, al), exp, "last_step_demosaic", dtype=DT[case["dt"]], rtol=0, atol=0)


def harnesses(tier):
    return [Harness("conv", conv_space(tier), conv_run), Harness("impulse", impulse_space(tier), impulse_run), Harness("ladder", ladder_space(tier), conv_run),
            Harness("demosaic", demosaic_space(tier), demosaic_run), Harness("demosaic_large", big_space(tier), demosaic_run), Harness("last_step", last_space(tier), last_run)]


def bounds(tier):
    return {"kernel sizes": (1, 3, 5) if tier == "quick" else (1, 3, 5, 7), "channels": "1..3 in and out",
            "sizes": "2..6" if tier == "quick" else "2..12", "alignments": 4}
