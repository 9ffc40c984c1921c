"""C27: empty batches, requests without axes and axes of a single pixel are ordinary inputs."""
import itertools

import numpy as np
import torch

from torchimage.filtering import Farid, Laplace, Prewitt, Scharr, Sobel, UnsharpMask
from torchimage.metrics import SSIM
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd

from .. import ref
from ..catalog import OPS
from ..core import Harness
from ..util import DT, generic, lay, unit
from .c20 import INT, values

ID = "C27"
ASSUMPTIONS = ["any_conv_1d and the Bayer operations on tensors without elements (torch's own building blocks differ there) and reduce_axes=() are left out (DESIGN.md, section 4)"]
MODES = tuple(m for m in ref.ALL_MODES if m != "empty")


# ------------------------------------------------------------------------------------------------------ empty batches

def empty_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(n for n, o in OPS.items() if o.out != "scalar" and not n.startswith(("any_conv", "bayer"))))
        op = OPS[name]
        dt = ch.pick("dt", tuple(op.dts) + (INT if op.ints else ()))
        if op.fixed:
            if max(op.lead) == 0:
                ch.prune()
            n = ch.pick("lead", [q for q in op.lead if q])
            return {"op": name, "dt": dt, "k": len(op.shape), "slots": [0] * n, "empty": ch.pick("empty", list(range(n))), "order": 0}
        k = ch.pick("k", op.k)
        n = ch.pick("lead", (1, 2))
        slots = ch.pick("slots", list(itertools.combinations_with_replacement(range(k + 1), n)))     # before which content axis
        return {"op": name, "dt": dt, "k": k, "slots": list(slots), "empty": ch.pick("empty", list(range(n)) + (["all"] if n > 1 else [])),
                "order": ch.pick("order", (0, 1) if k > 1 else (0,))}
    return space


def empty_run(case, st):
    op, dt = OPS[case["op"]], DT[case["dt"]]
    content = list(op.shape) if op.fixed else [5, 6] if "msssim" in op.name else list(op.sizes[:case["k"]]) if case["k"] < 3 else [3, 4, 3]

    def go(extent):
        shape, axes = [], []
        for c in range(len(content) + 1):
            for j, s in enumerate(case["slots"]):
                if s == c:
                    shape.append(extent if case["empty"] in (j, "all") else 2)
            if c < len(content):
                axes.append(len(shape))
                shape.append(content[c])
        if case["order"]:
            axes = axes[::-1]
        xs = [lay(v, dtype=dt) for v in values(op, shape, case["dt"])] if extent else [torch.zeros(shape, dtype=dt) for _ in range(op.nin)]
        return [tuple(o.shape) + (o.dtype,) for o in op.call(op.make(), xs, None if op.fixed else axes)]
    two, three, none = go(2), go(3), go(0)
    st.transitions += 3
    st.check(len(none) == len(two), "number of results")
    for a, b, z in zip(two, three, none):
        exp = tuple(0 if p != q else p for p, q in zip(a, b))
        st.check(z == exp, lambda: "%s: an empty batch gives %s, expected %s" % (case["op"], z, exp))
        st.outcome(repr(z).encode())


# --------------------------------------------------------------------------------------------------------- no axes

ABSENT = {
    "avg:counted": lambda m: AvgPoolNd(3, 2, same_padder=m), "avg": lambda m: AvgPoolNd(3), "gauss": lambda m: GaussianPoolNd(3, 0.8, same_padder=m),
    "pool": lambda m: SeparablePoolNd([0.25, 0.5, 1.0], 2, same_padder=m), "pool:none": lambda m: SeparablePoolNd([], same_padder=m),
    "pad": lambda m: Padder((3, 2), m), "pad:0": lambda m: Padder(0, m), "filter": lambda m: AvgPoolNd(4).to_filter(m),
    "unsharp": lambda m: UnsharpMask(AvgPoolNd(3), 0.7, 0, padder=m), "unsharp:threshold": lambda m: UnsharpMask(GaussianPoolNd(3, 0.8), 0.7, 2.0, padder=m),
}


def absent_space(tier):
    def space(ch):
        return {"op": ch.pick("op", tuple(ABSENT)), "mode": ch.pick("mode", MODES), "dt": ch.pick("dt", ("f64", "f32")),
                "shape": ch.pick("shape", ([3], [2, 3], [1, 2, 3, 2], [0, 3], [1])), "axes": ch.pick("axes", ("tuple", "list", "slice"))}
    return space


def absent_run(case, st):
    shape = tuple(case["shape"])
    axes = {"tuple": (), "list": [], "slice": slice(0, 0)}[case["axes"]]
    x = generic(shape, 1)
    t = lay(x, dtype=DT[case["dt"]])
    got = ABSENT[case["op"]](case["mode"]).forward(t, axes=axes)
    st.transitions += 1
    st.same(got, x, "nothing to do along no axes", rtol=0, atol=0, dtype=DT[case["dt"]])
    st.same(t, x, "input", rtol=0, atol=0, count=False)


# ------------------------------------------------------------------------------------------------- single-pixel axes

POOLS = {"avg3": ([1 / 3] * 3, 1, lambda m: AvgPoolNd(3).to_filter(m)), "avg4s2": ([0.25] * 4, 2, lambda m: AvgPoolNd(4, 2, same_padder=m)),
         "avg2s3": ([0.5] * 2, 3, lambda m: AvgPoolNd(2, 3, same_padder=m)),
         "gauss5": (None, 1, lambda m: GaussianPoolNd(5, 0.9).to_filter(m)),
         "custom": ([0.5, -1.0, 2.0, 0.25], 3, lambda m: SeparablePoolNd([0.5, -1.0, 2.0, 0.25], 3, same_padder=m)),
         "one": ([1.5], 1, lambda m: SeparablePoolNd([1.5], 1, same_padder=m)), "onestride": ([1.5], 2, lambda m: SeparablePoolNd([1.5], 2, same_padder=m))}
EDGES = {"Sobel": Sobel, "Prewitt": Prewitt, "Scharr": Scharr, "Farid": Farid}
OTHER = ("pad", "unsharp", "ssim", "ssim:sample", "laplace", "nopad")


def pixel_space(tier):
    ext = (1, 2, 5) if tier == "quick" else (1, 2, 3, 4, 5)

    def space(ch):
        kind = ch.pick("op", tuple(POOLS) + tuple(EDGES) + OTHER)
        mode = ch.pick("mode", MODES)
        d = ch.pick("d", (1, 2, 3))
        if d == 1 and kind in EDGES or d < 2 and kind == "laplace":
            ch.prune()
        shape = [ch.pick("n", ext if d < 3 else (1, 2)) for _ in range(d)]
        if 1 not in shape:
            ch.prune()
        case = {"op": kind, "mode": mode, "shape": shape, "reverse": ch.pick("reverse", (False, True) if d > 1 else (False,)),
                "normalize": ch.pick("normalize", (False, True) if kind in EDGES else (False,))}
        if kind == "pad":
            case["width"] = [ch.pick("before", (0, 1, 3)), ch.pick("after", (0, 2, 3))]
        if mode == "periodize" and kind not in POOLS and kind != "pad":
            ch.prune()                           # odd extents grow by one: no size on which a sum is defined
        if kind == "nopad" and mode != "zeros":
            ch.prune()
        return case
    return space


def pixel_run(case, st):
    shape, mode, kind = tuple(case["shape"]), case["mode"], case["op"]
    d = len(shape)
    axes = tuple(range(d))[::-1] if case["reverse"] else tuple(range(d))
    x = generic(shape, 2) / 4
    t = lay(x)
    st.transitions += 1
    kw = {"rtol": 1e-9, "atol": 1e-9}
    if kind in POOLS:
        k, s, make = POOLS[kind]
        k = ref.gaussian_kernel(5, 0.9, 0) if k is None else k
        st.same(make(mode).forward(t, axes=axes), ref.pool(x, axes, [k] * d, [s] * d, mode), kind, **kw)
    elif kind == "pad":
        b, a = case["width"]
        if mode == "periodize" and b == a == 0:
            st.outcome("undefined")
            return
        got = Padder((b, a), mode, constant_values=(2, -3), end_values=(1.5, 0.5), stat_length=2).forward(t, axes=axes)
        st.same(got, ref.pad_nd(x, axes, [(b, a)] * d, [mode] * d, [(2, -3)] * d, [(1.5, 0.5)] * d, [(2, 2)] * d), kind, **kw)
    elif kind in EDGES:
        e, s = ref.EDGE_KERNELS[kind]
        f = EDGES[kind](normalize=case["normalize"], same_padder=mode)
        comps = [ref.edge_component(x, a, list(axes), e, s, case["normalize"], mode) for a in axes]
        for g, c in zip(f.all_components(t, axes=axes), comps):
            st.same(g, c, kind, **kw)
        st.same(f.magnitude(t, axes=axes, epsilon=0.5), np.sqrt(sum(c * c for c in comps) + 0.5), kind + " magnitude", **kw)
    elif kind == "laplace":
        comps = [ref.edge_component(x, a, list(axes), [1, -2, 1], [], False, mode) for a in axes]
        st.same(Laplace(same_padder=mode).forward(t, axes=axes), sum(comps), kind, **kw)
    elif kind == "unsharp":
        blur = ref.pool(x, axes, [[1 / 3] * 3] * d, [1] * d, mode)
        st.same(UnsharpMask(AvgPoolNd(3), 0.7, 0, padder=mode).forward(t, axes=axes), x + 0.7 * (x - blur), kind, **kw)
    elif kind == "nopad":
        k, n = 3, shape
        cnt = 1
        for i, size in enumerate(n):
            c = np.array([min(j + 2, size) - max(j - 1, 0) for j in range(size)], dtype=float)
            cnt = np.multiply.outer(cnt, c)
        tot = ref.pool(x, axes, [[1.0] * 3] * d, [1] * d, "zeros")
        st.same(AvgPoolNd(3, 1, count_include_pad=False, same_padder="zeros").forward(t, axes=axes), tot / cnt, kind, **kw)
    else:
        sample = kind == "ssim:sample"
        y1, y2 = unit(shape, 1), unit(shape, 2)
        full, _ = ref.ssim_maps(y1, y2, axes, [[1 / 3] * 3] * d, mode, 0.2, 0.3, sample)
        m = SSIM(AvgPoolNd(3), mode, K1=0.2, K2=0.3, use_sample_covariance=sample, crop_border=False)
        score, got = m.forward(lay(y1), lay(y2), content_axes=axes, reduce_axes=axes, full=True)
        st.same(got, full, "map", rtol=1e-7, atol=1e-7)
        st.same(score, full.mean(), "score", rtol=1e-7, atol=1e-7)


def harnesses(tier):
    return [Harness("empty", empty_space(tier), empty_run), Harness("absent", absent_space(tier), absent_run),
            Harness("pixel", pixel_space(tier), pixel_run)]


def bounds(tier):
    return {"empty": "every operation x every placement of one or two batch axes, each or all of them empty x element types",
            "absent": "%d layers x %d modes x 5 shapes x 3 spellings" % (len(ABSENT), len(MODES)),
            "pixel": "%d operations x modes x shapes of rank 1-3 with at least one axis of extent one" % (len(POOLS) + len(EDGES) + len(OTHER))}
