"""C13: Bayer layout conversions, sample by sample."""
import itertools

import numpy as np
import torch

from torchimage.cfa.utils import (bayer_1c_to_4c, bayer_4c_to_1c, check_sensor_alignment, downsample_1c_bayer_to_rgb,
                                  downsample_4c_bayer_to_rgb, rgb_to_1c_bayer, rgb_to_4c_bayer)

from .. import ref
from ..core import Harness
from ..util import DT, LAYOUTS, lay

ID = "C13"
ASSUMPTIONS = ["for integer inputs the green mean is judged by value, not by the element type it is returned in"]
DTS = ("f64", "f32", "f16", "bf16", "i64", "i32", "i16", "u8", "bool")
RGB = "RGB"


def content(shape, dt, salt=0):
    n = int(np.prod(shape, dtype=int))
    v = np.arange(n) * 3 + 1 + salt
    if dt == "bool":
        return ((v * v // 3) % 2).reshape(shape).astype(bool)
    if dt == "u8":
        return ((v * 37) % 256).reshape(shape).astype(np.uint8)
    if dt in ("f16", "bf16"):
        return (v % 251).reshape(shape).astype(np.float64)
    if dt in ("i64", "i32", "i16"):
        return (v * 5 % 20011 - 300).reshape(shape).astype(np.int64)  # stays within 16 bits at every size
    return (v * 0.25 - 7).reshape(shape)


def exact(st, got, exp, what, dtype=None):
    st.same(got, exp, what, rtol=0, atol=0, dtype=dtype)


def colour(al, r, c):
    return RGB.index(al.upper()[(r % 2) * 2 + c % 2])


LEADS = ((), (1,), (2,), (3, 2), (1, 2, 1), (2, 1, 1, 2))


def space_(tier):
    sizes = (2, 4, 6) if tier == "quick" else (2, 4, 6, 8, 10)

    def space(ch):
        return {"lead": list(ch.pick("lead", LEADS + ((0,),) if tier == "quick" else LEADS + ((0,), (2, 2, 2)))),
                "h": ch.pick("h", sizes), "w": ch.pick("w", sizes), "dt": ch.pick("dt", DTS),
                "layout": ch.pick("layout", LAYOUTS[:4])}
    return space


def run(case, st):
    lead, h, w, dt = tuple(case["lead"]), case["h"], case["w"], case["dt"]
    T = DT[dt]
    one = content(lead + (1, h, w), dt)
    four = content(lead + (4, h // 2, w // 2), dt, 5)
    e4 = np.stack([one[..., 0, r::2, c::2] for r in (0, 1) for c in (0, 1)], axis=-3)
    e1 = np.empty(lead + (1, h, w), dtype=four.dtype)
    for i in range(h):
        for j in range(w):
            e1[..., 0, i, j] = four[..., (i % 2) * 2 + j % 2, i // 2, j // 2]
    t1, t4 = lay(one, case["layout"], T), lay(four, case["layout"], T)
    b1, b4 = t1.clone(), t4.clone()
    exact(st, bayer_1c_to_4c(t1), e4, "1c -> 4c", T)
    exact(st, bayer_4c_to_1c(t4), e1, "4c -> 1c", T)
    exact(st, bayer_4c_to_1c(bayer_1c_to_4c(t1)), one, "1c -> 4c -> 1c", T)
    exact(st, bayer_1c_to_4c(bayer_4c_to_1c(t4)), four, "4c -> 1c -> 4c", T)
    rgb = content(lead + (3, h, w), dt, 2)
    tr = lay(rgb, case["layout"], T)
    br = tr.clone()
    for al in ref.ALIGNMENTS:
        for name in (al, al.lower()):
            m1 = np.empty(lead + (1, h, w), dtype=rgb.dtype)
            for i in range(h):
                for j in range(w):
                    m1[..., 0, i, j] = rgb[..., colour(al, i, j), i, j]
            m4 = np.stack([m1[..., 0, r::2, c::2] for r in (0, 1) for c in (0, 1)], axis=-3)
            exact(st, rgb_to_1c_bayer(tr, name), m1, "rgb -> 1c " + name, T)
            exact(st, rgb_to_4c_bayer(tr, name), m4, "rgb -> 4c " + name, T)
            if dt == "bool":
                continue
            pos = {k: [i for i, ch in enumerate(al) if ch == k] for k in RGB}
            f = four.astype(np.float64)
            down = np.stack([f[..., pos["R"][0], :, :], (f[..., pos["G"][0], :, :] + f[..., pos["G"][1], :, :]) / 2,
                             f[..., pos["B"][0], :, :]], axis=-3)
            tt = {"rtol": 1e-2, "atol": 1e-2} if dt in ("f16", "bf16") else {"rtol": 1e-6, "atol": 1e-6}
            keep = T if T.is_floating_point else None
            st.same(downsample_4c_bayer_to_rgb(t4, name), down, "4c -> rgb " + name, dtype=keep, **tt)
            st.same(downsample_1c_bayer_to_rgb(lay(e1, dtype=T), name), down, "1c -> rgb " + name, dtype=keep, **tt)
    st.check(torch.equal(t1, b1) and torch.equal(t4, b4) and torch.equal(tr, br), "an input was modified")


# ------------------------------------------------------------------------------------------------------ rejections

FUNCS = {
    "1c4c": (bayer_1c_to_4c, False, "1"), "4c1c": (bayer_4c_to_1c, False, "4"),
    "rgb1c": (rgb_to_1c_bayer, True, "3"), "rgb4c": (rgb_to_4c_bayer, True, "3"),
    "down1": (downsample_1c_bayer_to_rgb, True, "1"), "down4": (downsample_4c_bayer_to_rgb, True, "4"),
}


def shape_space(tier):
    def space(ch):
        f = ch.pick("f", tuple(FUNCS))
        nd = ch.pick("ndim", (3, 0, 1, 2, 4, 5))
        if nd < 3:
            shape = [ch.pick("s", (2, 4, 3, 1)) for _ in range(nd)]
        else:
            shape = [2] * (nd - 3) + [ch.pick("c", (1, 2, 3, 4, 5, 0, 6)), ch.pick("h", (2, 3, 4, 1)), ch.pick("w", (2, 3, 4, 1))]
        return {"f": f, "shape": shape}
    return space


def shape_run(case, st):
    fn, needs_al, ch = FUNCS[case["f"]]
    shape = case["shape"]
    ok = len(shape) >= 3 and shape[-3] == int(ch) and (ch == "4" or (shape[-2] % 2 == 0 and shape[-1] % 2 == 0))
    args = ("RGGB",) if needs_al else ()
    x = torch.zeros(shape)
    try:
        fn(x, *args)
        done = True
    except Exception:
        done = False
    st.check(done == ok, "shape %s is %s" % (shape, "accepted" if done else "rejected"))
    st.outcome((case["f"], tuple(shape), done))
    if ok:
        for bad in (x.numpy(), x.tolist(), None):
            try:
                fn(bad, *args)
            except Exception:
                continue
            st.check(False, "%s accepts %s" % (case["f"], type(bad)))


def align_space(tier):
    def space(ch):
        f = ch.pick("f", ("check",) + tuple(k for k in FUNCS if FUNCS[k][1]))
        kind = ch.pick("kind", ("letters", "mixed", "other"))
        if kind == "letters":
            al = "".join(ch.pick("l", "RGBr" if tier == "quick" else "RGBrgbX") for _ in range(4))
        elif kind == "mixed":
            a = ch.pick("a", ref.ALIGNMENTS)
            m = ch.pick("m", list(range(16)))
            al = "".join(x.lower() if m >> i & 1 else x for i, x in enumerate(a))
        else:
            al = ch.pick("o", ("", "RGG", "RGGBX", "RGGB ", " RGGB", "RGGBRGGB", None, 0, ["R", "G", "G", "B"], b"RGGB".hex()))
        return {"f": f, "al": al}
    return space


def align_run(case, st):
    al = case["al"]
    if isinstance(al, list):
        al = tuple(al)
    ok = isinstance(al, str) and al.upper() in ref.ALIGNMENTS
    if case["f"] == "check":
        call = lambda: check_sensor_alignment(al)
    else:
        fn, _, ch = FUNCS[case["f"]]
        call = lambda: fn(torch.ones(int(ch), 4, 4), al)
    try:
        r = call()
        done = True
    except Exception:
        done = False
    st.check(done == ok, "alignment %r is %s" % (al, "accepted" if done else "rejected"))
    if done and case["f"] == "check":
        st.check(r == al.upper(), "%r normalised to %r" % (al, r))
    st.outcome((case["f"], al, done))


def large_space(tier):
    def space(ch):
        return {"lead": list(ch.pick("lead", ((), (2,)))), "h": ch.pick("h", (8, 10, 16, 34, 66)), "w": ch.pick("w", (8, 12, 18, 32, 64)),
                "dt": ch.pick("dt", ("f64", "f32", "i32", "u8")), "layout": ch.pick("layout", LAYOUTS[:2])}
    return space


def harnesses(tier):
    return [Harness("convert", space_(tier), run), Harness("large", large_space(tier), run), Harness("shapes", shape_space(tier), shape_run),
            Harness("alignment", align_space(tier), align_run)]


def bounds(tier):
    return {"sizes": "even 2..%d" % (6 if tier == "quick" else 10), "leading": [list(l) for l in LEADS], "dtypes": DTS}
