"""
C26: values of any magnitude stay where the definition puts them.

Every single entry of the input is replaced, in turn, by NaN, the infinities and a huge finite number; the entries of the
result that the definition does not connect with it (a boolean incidence matrix per axis, built from the index formulas of
ref.py) have to keep their value to the last few bits, and those it connects with a non-zero coefficient have to show it.
Scaling by powers of two commutes with every homogeneous operation over the whole exponent range, and integer samples are
moved exactly up to the extremes of their type.
"""
import itertools

import numpy as np
import torch

from torchimage.cfa.utils import bayer_1c_to_4c, bayer_4c_to_1c, rgb_to_1c_bayer, rgb_to_4c_bayer
from torchimage.filtering import Farid, GaussianGrad, Prewitt, Scharr, Sobel, UnsharpMask
from torchimage.metrics import PSNR
from torchimage.misc import outer
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.random import random_crop

from .. import ref
from ..catalog import OPS, Op
from ..core import Harness, HarnessError, Violation
from ..util import DT, generic, lay, unit
from .c19 import data

ID = "C26"
ASSUMPTIONS = ["an entry with coefficient zero inside a window (the centre of an edge kernel) may or may not take part",
               "only element types float64, float32 and the integers"]

# ------------------------------------------------------------------------------------------- incidence of one axis


def eye(n):
    m = np.eye(n, dtype=bool)
    return m, m


def full(n):
    m = np.ones((1, n), dtype=bool)
    return m, m


def pad_mat(mode, n, b, a, stat=None):
    """(may, must): which samples an extended signal's entries may / have to depend on"""
    if mode in ref.LINEAR_MODES:
        c = ref.extension_matrix(mode, n, b, a)
        must = c != 0
        may = must.copy()
        if mode not in ref.COPY_MODES and mode != "antisymmetric":
            # the formula refers to the outermost sample(s) of its side and, further out, to entries already built
            two = mode == "smooth" and n > 1
            for side, edge in ((list(range(b - 1, -1, -1)), (0, 1)), (list(range(b + n, b + n + a)), (n - 1, n - 2))):
                for q, i in enumerate(side):
                    may[i, edge[0]] = True
                    if two:
                        may[i, edge[1]] = True
                    elif q >= n - 1:
                        may[i] |= may[side[:q]].any(0)
        return may, must
    may = np.zeros((b + n + a, n), dtype=bool)
    must = np.zeros((b + n + a, n), dtype=bool)
    may[b:b + n] = must[b:b + n] = np.eye(n, dtype=bool)
    if mode == "linear_ramp":
        may[:b, 0] = True
        may[b + n:, n - 1] = True
        must[1:b, 0] = True
        must[b + n:b + n + a - 1, n - 1] = True
    elif mode in ref.STAT_MODES:
        s0, s1 = stat or (n, n)
        may[:b, :min(s0, n)] = True
        may[b + n:, max(0, n - s1):] = True
        if mode == "mean":
            must = may.copy()
    return may, must


def win_mat(k, s, n, mode, kernel=None):
    """windows of k every s over the same-padded (or bare) axis"""
    if not k:
        return eye(n)
    s = s or k
    may, must = eye(n) if mode is None else pad_mat(mode, n, *ref.same_width(k, s, n))
    nz = [True] * k if kernel is None else [v != 0 for v in kernel]
    count = (may.shape[0] - k) // s + 1
    omay = np.stack([may[i * s:i * s + k].any(0) for i in range(count)])
    if mode in (None, "zeros", "constant"):
        omust = np.stack([may[i * s:i * s + k][nz].any(0) for i in range(count)])
    else:
        # several taps on one sample might cancel: require only entries hit exactly once
        omust = np.stack([(may[i * s:i * s + k].sum(0) == 1) & must[i * s:i * s + k][nz].any(0) for i in range(count)])
    return omay, omust


PADKW = {"maximum": (3, 3), "minimum": (2, 3), "median": (3, 3)}
EDGE = {"Sobel": ([-1, 0, 1], [1, 2, 1]), "Prewitt": ([-1, 0, 1], [1, 1, 1]), "Scharr": ([-1, 0, 1], [3, 10, 3]),
        "Farid": ([-1, -1, 0, 1, 1], [1] * 5)}


def edge_terms(sizes, edge, smooth, mode):
    """one dict per edge position"""
    out = []
    for e in range(len(sizes)):
        out.append({i: win_mat(len(edge), 1, n, mode, edge) if i == e else win_mat(len(smooth), 1, n, mode, smooth)
                    for i, n in enumerate(sizes)})
    return out


def connect(name, sizes):
    """
    For every output a list of terms; a term gives each content axis its incidence matrices.  The result depends on
    the union of its terms; "must" counts only if there is a single term.
    """
    K = range(len(sizes))
    part = name.split(":")
    if name == "pad:mixed":
        return [[{0: pad_mat("reflect", sizes[0], 1, 2), 1: pad_mat("constant", sizes[1], 3, 0)}]]
    if name == "pad:none" or name.startswith(("pool:none", "unsharp:none", "ssim:none", "poly1d", "safe_power")) or name == "mse:none" \
            or name == "edge:none:l1":
        if name in ("poly1d:const", "poly1d:zero", "unsharp:none", "safe_power:neg"):
            return [[{i: (eye(n)[0], np.zeros((n, n), bool)) for i, n in enumerate(sizes)}]]
        return [[{i: eye(n) for i, n in enumerate(sizes)}]]
    if name in ("pad:constant", "pad:linear_ramp"):          # one parameter pair in a list: the last axis only
        return [[{i: pad_mat(part[1], n, 3, 2) if i == len(sizes) - 1 else eye(n) for i, n in enumerate(sizes)}]]
    if part[0] == "pad":
        return [[{i: pad_mat(part[1], n, 3, 2, PADKW.get(part[1])) for i, n in enumerate(sizes)}]]
    if name == "pad_axis":
        return [[{0: pad_mat("symmetric", sizes[0], 3, 0)}]]
    if part[0] in ("pool", "avg", "gauss", "any_conv_1d"):
        ker, st, mode = {
            "pool:valid": ([[1, 1, 1]], [2], None), "pool:peraxis": ([[1, 1], [1, 1, 1]], [2, 1], "reflect"),
            "pool:skip": ([[], [1, 1, 1]], [1], "circular"), "avg:valid": ([[1, 1]], [2], None),
            "avg:pad": ([[1] * 3], [2], "zeros"), "avg:nopad": ([[1] * 3, [1] * 2], [1, 2], "zeros"),
            "avg:filter": ([[1] * 3], [1], "symmetric"), "gauss": ([[1] * 3], [1], "reflect"),
            "gauss:deriv": ([[1, 0, 1], [1] * 4], [1], "replicate"), "any_conv_1d": ([[1] * 3], [2], None),
            "any_conv_1d:dilated": None,
        }.get(name) or ([[1] * 4], [3], part[-1])
        return [[{i: win_mat(len(ker[i % len(ker)]), st[i % len(st)], n, mode, ker[i % len(ker)]) for i, n in enumerate(sizes)}]] \
            if name != "any_conv_1d:dilated" else [[{0: dilated(sizes[0])}]]
    if part[0] == "edge" and part[1] in EDGE:
        e, s = EDGE[part[1]]
        if part[2] == "component":
            return [[edge_terms(sizes, e, s, "symmetric")[0]]]
        t = edge_terms(sizes, e, s, "reflect")
        if part[2] == "all":
            return [[x] for x in t]
        if part[2] == "hv":
            # horizontal: edge on axis -2, smoothing on -1
            return [[t[0]], [t[1]]]
        return [t]
    if name == "edge:custom":
        return [[{i: win_mat(3, 1, n, "replicate") if i == 0 else win_mat(2, 1, n, "replicate") for i, n in enumerate(sizes)}]]
    if name == "edge:discrete":
        return [[{i: win_mat(3, 1, n, "reflect") for i, n in enumerate(sizes)}]]
    if name == "laplace":
        return [edge_terms(sizes, [1, -2, 1], [], "reflect")]
    if name == "log":
        return [edge_terms(sizes, [1] * 5, [1] * 5, "reflect")]
    if name == "gaussgrad":
        return [edge_terms(sizes, [1, 1, 0, 1, 1], [1] * 3, "reflect")]
    if name == "gaussgrad:all":
        return [[x] for x in edge_terms(sizes, [1] * 3, [1] * 3, "reflect")]
    if part[0] == "unsharp":
        return [[{i: win_mat(3, 1, n, "replicate" if len(part) > 1 else "reflect") for i, n in enumerate(sizes)},
                 {i: eye(n) for i, n in enumerate(sizes)}]]
    if name == "ssim:map":
        return [[{i: win_mat(3, 1, n, "reflect") for i, n in enumerate(sizes)}, {i: eye(n) for i, n in enumerate(sizes)}]]
    if part[0] in ("ssim", "msssim", "psnr") or name in ("mse", "mse:sum"):
        t = {i: full(n) for i, n in enumerate(sizes)}
        return [[t] if part[0] in ("mse", "psnr") else [t, t]]
    raise KeyError(name)


def dilated(n):
    m = np.zeros((n - 3, n), dtype=bool)
    for i in range(n - 3):
        m[i, i] = m[i, i + 3] = True
    return m, m


def masks(terms, ndim, shape, axes, p):
    """(may, must) over the entries of the result for the input entry p; reduced axes have extent one"""
    may = must = None
    for t in terms:
        a = b = np.ones((), dtype=bool)
        for d in range(ndim):
            m, u = t[axes.index(d)] if d in axes else eye(shape[d])
            a = np.multiply.outer(a, m[:, p[d]])
            b = np.multiply.outer(b, u[:, p[d]])
        may = a if may is None else may | a
        must = b if must is None else must | b
    return may, (must if len(terms) == 1 else np.zeros_like(must))


# ----------------------------------------------------------------------------------------------------- colour arrays

def fixed_masks(name, shape, p):
    """operations on fixed layouts: list over outputs of (may, must); lead axes are independent"""
    if name == "edge:Sobel:hv":
        n = len(shape)
        t = connect("edge:Sobel:hv", shape[-2:])
        return [masks(x, n, shape, [n - 2, n - 1], p) for x in t]
    if name.startswith("edgeloss"):
        return [(np.ones((), bool), np.zeros((), bool))]
    lead, (c, h, w) = shape[:-3], shape[-3:]
    l, (pc, r, q) = p[:-3], p[-3:]

    def put(oc, oh, ow, cells):
        m = np.zeros(tuple(lead) + (oc, oh, ow), dtype=bool)
        for cell in cells:
            m[tuple(l) + cell] = True
        return m
    al = {"bayer:rgb1c": "GBRG", "bayer:rgb4c": "BGGR", "bayer:down1": "RGGB", "bayer:down4": "GRBG"}.get(name)
    if name == "bayer:1c4c":
        m = put(4, h // 2, w // 2, [(r % 2 * 2 + q % 2, r // 2, q // 2)])
        return [(m, m)]
    if name == "bayer:4c1c":
        m = put(1, 2 * h, 2 * w, [(0, 2 * r + pc // 2, 2 * q + pc % 2)])
        return [(m, m)]
    if name in ("bayer:rgb1c", "bayer:rgb4c"):
        site = r % 2 * 2 + q % 2
        hit = al[site] == "RGB"[pc]
        m = put(1, h, w, [(0, r, q)] if hit else []) if name == "bayer:rgb1c" else \
            put(4, h // 2, w // 2, [(site, r // 2, q // 2)] if hit else [])
        return [(m, m)]
    if name in ("bayer:down1", "bayer:down4"):
        site = r % 2 * 2 + q % 2 if name == "bayer:down1" else pc
        cell = ("RGB".index(al[site]),) + ((r // 2, q // 2) if name == "bayer:down1" else (r, q))
        m = put(3, h // 2, w // 2, [cell]) if name == "bayer:down1" else put(3, h, w, [cell])
        return [(m, m)]
    if name == "bayer:last":
        m = put(3, h, w, [(i, r, q) for i in range(3)])
        return [(m, m)]
    k, oc = {"bayer:conv": (3, 3), "bayer:unshuffle": (3, 2), "bayer:demosaic": (5, 3)}[name]
    pr, pq = (win_reflect(k, h)[:, r], win_reflect(k, w)[:, q])
    grid = np.argwhere(np.multiply.outer(pr, pq))
    if name == "bayer:unshuffle":
        cells = [(o * 4 + y % 2 * 2 + x % 2, y // 2, x // 2) for y, x in grid for o in range(oc)]
        m = put(4 * oc, h // 2, w // 2, cells)
    else:
        m = put(oc, h, w, [(o, y, x) for y, x in grid for o in range(oc)])
    return [(m, np.zeros_like(m))]


def win_reflect(k, n):
    """centred windows of k with reflected borders"""
    c = ref.extension_matrix("reflect", n, k // 2, k // 2) != 0
    return np.stack([c[i:i + k].any(0) for i in range(n)])


# ------------------------------------------------------------------------------------------------------------- poison

for _p in (4, 6, 2.0):
    if "edge:Sobel:magnitude:p%g" % _p not in OPS:
        Op("edge:Sobel:magnitude:p%g" % _p, lambda: Sobel(), lambda o, xs, ax, p=_p: o.magnitude(xs[0], axes=ax, p=p), k=(2,))
Op("edge:Farid:magnitude:p4", lambda: Farid(normalize=True), lambda o, xs, ax: o.magnitude(xs[0], axes=ax, p=4, epsilon=1e-3), k=(2,))


def content(op, shape, salt, how):
    """generic samples; or a picture with flat (black) parts; or one of which both images are the same"""
    x = data(op, shape, 0 if how == "equal" else salt)
    if how in ("flat", "equal"):
        n = [i for i in range(len(shape))][-2:]
        idx = tuple(slice(None, (s + 1) // 2) if i in n else slice(None) for i, s in enumerate(shape))
        x[idx] = 0
    return x


POISON = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": None, "-huge": None}


def op_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(OPS))
        op = OPS[name]
        dt = ch.pick("dt", tuple(op.dts))
        which = ch.pick("poison", ("nan", "inf", "huge") if tier == "quick" else tuple(POISON))
        how = ch.pick("content", ("generic", "flat") + (("equal",) if op.nin == 2 else ()))
        if tier == "quick" and how != "generic" and dt != op.dts[0]:
            ch.prune()
        if op.fixed:
            return {"op": name, "dt": dt, "poison": which, "content": how, "axes": None,
                    "shape": [2] * ch.pick("lead", op.lead if tier != "quick" else op.lead[:2]) + list(op.shape), "layout": "contiguous"}
        k = ch.pick("k", op.k)
        if "hv" in name:
            ch.prune()
        sizes = list(op.sizes[:k]) if k < 3 else [3, 4, 3]
        if "msssim" in name:
            sizes = [5, 6]
        elif name.startswith("pad") and k == 1:
            sizes = [sizes[0] + ch.pick("grow", (0, 5))]
        elif tier != "quick" and k < 3:
            sizes = [s + ch.pick("grow", (0, 2)) for s in sizes]
        pos = ch.pick("lead", ((None, 0, -1) if how == "generic" or tier != "quick" else (None,)) + ((1, "both") if tier != "quick" else ()))
        axes = list(range(k))
        shape = list(sizes)
        if pos in (0, "both"):
            shape, axes = [2] + shape, [a + 1 for a in axes]
        if pos in (-1, "both"):
            shape = shape + [2]
        if pos == 1:
            shape, axes = shape[:1] + [2] + shape[1:], [a + (a >= 1) for a in axes]
        if ch.pick("reverse", (False, True)):
            axes = axes[::-1]
        return {"op": name, "dt": dt, "poison": which, "content": how, "shape": shape, "axes": axes,
                "layout": ch.pick("layout", ("contiguous",) if tier == "quick" else ("contiguous", "transposed", "strided"))}
    return space


def op_run(case, st):
    op, dt, shape = OPS[case["op"]], DT[case["dt"]], case["shape"]
    bad = POISON[case["poison"]]
    if bad is None:
        bad = (1 if case["poison"] == "huge" else -1) * (2.0 ** 300 if case["dt"] == "f64" else 2.0 ** 50)
    xs = [content(op, shape, s, case["content"]) for s in range(op.nin)]
    obj = op.make()
    base = [o.detach().numpy() for o in op.call(obj, [lay(x, case["layout"], dt) for x in xs], case["axes"])]
    if any(not np.isfinite(b).all() for b in base):
        if case["content"] == "generic":
            raise HarnessError("base result of %s is not finite" % case["op"])
        st.note("skipped_undefined_on_flat_parts")
        st.outcome("undefined")
        return
    axes = case["axes"]
    terms = None
    if not op.fixed:
        terms = connect(case["op"], [shape[a] for a in axes])
    rtol = 1e-10 if case["dt"] == "f64" else 1e-5
    for which in range(op.nin):
        for p in itertools.product(*(range(n) for n in shape)):
            ys = [x.copy() for x in xs]
            ys[which][p] = bad
            outs = op.call(obj, [lay(y, case["layout"], dt) for y in ys], axes)
            if op.fixed:
                mm = fixed_masks(case["op"], shape, p)
            else:
                mm = [masks(t, len(shape), shape, axes, p) for t in terms]
            st.transitions += 1
            if len(outs) != len(mm):
                raise HarnessError("%d outputs, %d expected" % (len(outs), len(mm)))
            for o, b, (may, must) in zip(outs, base, mm):
                g = o.detach().numpy()
                if g.shape != b.shape or may.size != b.size:
                    raise HarnessError("%s: shape %s %s %s" % (case, g.shape, b.shape, may.shape))
                may, must = may.reshape(b.shape), must.reshape(b.shape)
                rest = ~may
                st.comparisons += b.size
                # the scale of an entry is that of the operation's ordinary results
                keep = np.isclose(g[rest], b[rest], rtol=rtol, atol=rtol * max(1.0, np.abs(b).max() if b.size else 1.0))
                st.check(keep.all(), lambda: "%s: input %d entry %s = %r changes result entries it has no part in, first %s: %r instead of %r" % (
                    case["op"], which, p, bad, tuple(np.argwhere(rest)[np.argwhere(~keep)[0][0]]), g[rest][~keep][0], b[rest][~keep][0]))
                if case["poison"] in ("nan", "inf", "-inf"):
                    seen = ~np.isfinite(g[must])
                    st.check(seen.all(), lambda: "%s: input %d entry %s = %r does not show in result entry %s: %r" % (
                        case["op"], which, p, bad, tuple(np.argwhere(must)[np.argwhere(~seen)[0][0]]), g[must][~seen][0]))
                st.outcome(np.packbits(may).tobytes() + g.tobytes()[:64])


# ---------------------------------------------------------------------------------------- long axes, long kernels

def ramp_kernel(k):
    return [((i * 7) % 11 - 4) / 8 + (0.25 if i % 3 else 0.5) for i in range(k)]


def long_make(case):
    k, s, pad, op = case["k"], case["stride"], case["pad"], case["op"]
    if op == "avg":
        return AvgPoolNd(k, s, same_padder=pad), [1 / k] * k
    if op == "gauss":
        return GaussianPoolNd(k, k / 6, 0, s, same_padder=pad), ref.gaussian_kernel(k, k / 6, 0)
    if op == "custom":
        return SeparablePoolNd(ramp_kernel(k), s, same_padder=pad), ramp_kernel(k)
    return None, None


def long_space(tier):
    def space(ch):
        op = ch.pick("op", ("avg", "gauss", "custom", "edge"))
        dt = ch.pick("dt", ("f64", "f32"))
        two = ch.pick("two", (False, True))
        k = ch.pick("k", ((3, 17, 33) if not two else (3, 11)) if tier == "quick" else ((3, 8, 17, 33, 64, 65) if not two else (3, 11, 16)))
        shape = [ch.pick("n", (70, 129) if tier == "quick" else (70, 128, 129, 257))] if not two else [24, 19]
        if op == "edge":
            if not two:
                ch.prune()
            return {"op": op, "dt": dt, "k": k, "shape": shape, "which": ch.pick("which", ("Sobel", "Farid") if k == 3 else ("GaussianGrad",))}
        pad = ch.pick("pad", (None, "reflect", "circular", "zeros"))
        return {"op": op, "dt": dt, "k": k, "shape": shape, "pad": pad, "stride": ch.pick("stride", (1, 2) if tier == "quick" else (1, 2, 5))}
    return space


def long_run(case, st):
    dt, shape = DT[case["dt"]], tuple(case["shape"])
    axes = list(range(len(shape)))
    x = unit(shape, 1) * 100
    if case["op"] == "edge":
        name = case["which"]
        e, s = EDGE.get(name) or ([1] * (case["k"] // 2) + [0] + [1] * (case["k"] // 2), [1] * case["k"])
        f = {"Sobel": Sobel, "Farid": Farid}[name]() if name in EDGE else GaussianGrad(case["k"], case["k"] / 6)
        terms = edge_terms(shape, e, s, "reflect")[:1]

        def call(t):
            return f.component(t, edge_axis=0, smooth_axes=1)
        want = None
    else:
        layer, ker = long_make(case)
        terms = [{i: win_mat(case["k"], case["stride"], n, case["pad"], ker) for i, n in enumerate(shape)}]

        def call(t):
            return layer.forward(t, axes=tuple(axes))
        want = ref.pool(x, axes, [ker] * len(shape), [case["stride"]] * len(shape), case["pad"])
    base = call(lay(x, dtype=dt)).numpy()
    rtol = 1e-10 if case["dt"] == "f64" else 1e-5
    if want is not None:
        st.same(base, want, "values", rtol=rtol * 100, atol=rtol * 100 * np.abs(want).max())
    huge = 2.0 ** 300 if case["dt"] == "f64" else 2.0 ** 50
    for p in itertools.product(*(range(n) for n in shape)):
        for bad in (np.nan, huge):
            y = x.copy()
            y[p] = bad
            g = call(lay(y, dtype=dt)).numpy()
            may, must = masks(terms, len(shape), shape, axes, p)
            st.transitions += 1
            rest = ~may
            ok = np.isclose(g[rest], base[rest], rtol=rtol, atol=rtol * max(1.0, np.abs(base).max()))
            st.check(ok.all(), lambda: "entry %s = %r changes result entries whose window does not hold it, first %s" % (
                p, bad, tuple(np.argwhere(rest)[np.argwhere(~ok)[0][0]])))
            if bad != bad:
                st.check(not np.isfinite(g[must]).any(), lambda: "entry %s = %r does not show in every window that holds it" % (p, bad))
        st.outcome(np.packbits(may).tobytes())


# -------------------------------------------------------------------------------------------------------------- scale

DEGREE = {"mse": 2, "mse:sum": 2, "mse:none": 2, "pad:maximum": 1, "pad:minimum": 1, "pad:median": 1, "edgeloss:plain": 1,
          "safe_power:direct": 1.5, "safe_power:raw": 2.5}
EXTRA = {
    "magnitude:Sobel": (1, lambda s: Sobel(), lambda o, x, ax: o.magnitude(x[0], axes=ax)),
    "magnitude:Prewitt": (1, lambda s: Prewitt(normalize=True), lambda o, x, ax: o.magnitude(x[0], axes=ax)),
    "magnitude:Scharr": (1, lambda s: Scharr(normalize=True), lambda o, x, ax: o.magnitude(x[0], axes=ax)),
    "magnitude:Farid": (1, lambda s: Farid(), lambda o, x, ax: o.magnitude(x[0], axes=ax)),
    "unsharp:gauss": (1, lambda s: UnsharpMask(GaussianPoolNd(3, 0.8), 0.7, 4.0 * s, padder="reflect"), lambda o, x, ax: o.forward(x[0], axes=ax)),
    "unsharp:mean": (1, lambda s: UnsharpMask(AvgPoolNd(3), 1.5, 4.0 * s, padder="replicate"), lambda o, x, ax: o.forward(x[0], axes=ax)),
    "ramp": (1, lambda s: Padder((3, 2), "linear_ramp", end_values=[(2.0 * s, -1.0 * s)]), lambda o, x, ax: o.forward(x[0], axes=ax)),
    "constant": (1, lambda s: Padder((3, 2), "constant", constant_values=[(2.0 * s, -1.0 * s)]), lambda o, x, ax: o.forward(x[0], axes=ax)),
    "psnr:scaled": (0, lambda s: PSNR(max_value=3 * s, eps=0.0), lambda o, x, ax: o.forward(x[0], x[1], reduce_axes=ax)),
}


def scale_space(tier):
    names = [n for n, o in OPS.items() if o.linear or n in DEGREE] + list(EXTRA)

    def space(ch):
        name = ch.pick("op", tuple(names))
        op = OPS.get(name)
        dt = ch.pick("dt", tuple(op.dts) if op else ("f64", "f32"))
        top = (100, 300) if dt == "f64" else (16, 60)
        if tier == "quick":
            es = [-top[1], -top[0], top[0], top[1]]
        else:
            es = list(range(-top[1], top[1] + 1, 4))
        e = ch.pick("exponent", es)
        deg = DEGREE.get(name, 1) if op else EXTRA[name][0]
        if deg == 0:
            deg = 2
        if deg * abs(e) > (700 if dt == "f64" else 90) or name.startswith("magnitude") and abs(e) > (400 if dt == "f64" else 40):
            ch.prune()
        if op and op.fixed:
            return {"op": name, "dt": dt, "exponent": e, "shape": [2] * op.lead[0] + list(op.shape), "axes": None}
        k = ch.pick("k", op.k if op else (2,))
        sizes = (list(op.sizes[:k]) if op else [5, 6]) if k < 3 else [3, 4, 3]
        return {"op": name, "dt": dt, "exponent": e, "shape": [2] + sizes, "axes": list(range(1, k + 1))}
    return space


def scale_run(case, st):
    dt, s = DT[case["dt"]], 2.0 ** case["exponent"]
    op = OPS.get(case["op"])
    if op:
        deg = DEGREE.get(case["op"], 1)
        xs = [data(op, case["shape"], q) for q in range(op.nin)]
        a = op.call(op.make(), [lay(x, dtype=dt) for x in xs], case["axes"])
        b = op.call(op.make(), [lay(x * s, dtype=dt) for x in xs], case["axes"])
    else:
        deg, make, call = EXTRA[case["op"]]
        xs = [unit(case["shape"], q) + 0.05 * q for q in (1, 2)] if "psnr" in case["op"] else [generic(case["shape"], 1) / 4 + 0.13]
        a = [call(make(1.0), [lay(x, dtype=dt) for x in xs], case["axes"])]
        b = [call(make(s), [lay(x * s, dtype=dt) for x in xs], case["axes"])]
    st.transitions += 2
    rtol = 1e-9 if dt == torch.float64 else 1e-4
    for u, v in zip(a, b):
        u, v = u.detach().numpy().astype(float), v.detach().numpy().astype(float) / s ** deg
        lim = rtol * max(np.abs(u).max(), 1e-12)
        st.check(np.isfinite(v).all() and np.allclose(v, u, rtol=rtol, atol=lim), lambda: "%s: scaling the input by 2**%d scales the result by something else than 2**%s: %s against %s" % (
            case["op"], case["exponent"], deg * case["exponent"], v.reshape(-1)[:6], u.reshape(-1)[:6]))
        st.outcome(np.round(v, 3).tobytes()[:2048] + b"%d" % case["exponent"])


# --------------------------------------------------------------------------------------------------- integer extremes

INTS = {"u8": torch.uint8, "i8": torch.int8, "i16": torch.int16, "i32": torch.int32, "i64": torch.int64}


def extremes(dt, n, salt):
    i = torch.iinfo(INTS[dt])
    v = [i.max, i.min, i.max - 1, i.min + 1, i.max // 2 + 1, i.min // 2 - 1 if i.min else 1, i.max // 3, 0, 1]
    if dt == "i64":
        v += [2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62 + 3]
    if dt == "i32":
        v += [2 ** 24 + 1, -2 ** 24 - 1]
    return [v[(j * (1 + salt % 3) + salt) % len(v)] for j in range(n)]


MOVES = ("1c4c", "4c1c", "rgb1c", "rgb4c", "crop", "outer")


def int_space(tier):
    modes = ref.COPY_MODES + ("zeros", "constant", "maximum", "minimum", "median")

    def space(ch):
        dt = ch.pick("dt", tuple(INTS))
        salt = ch.pick("salt", list(range(3 if tier == "quick" else 12)))
        kind = ch.pick("kind", ("pad", "move"))
        if kind == "move":
            return {"kind": kind, "dt": dt, "salt": salt, "op": ch.pick("op", MOVES)}
        return {"kind": kind, "dt": dt, "salt": salt, "mode": ch.pick("mode", modes), "n": ch.pick("n", (1, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)),
                "before": ch.pick("before", (0, 2, 5)), "after": ch.pick("after", (0, 1, 5)), "axis": ch.pick("axis", (0, 1))}
    return space


def int_run(case, st):
    dt = INTS[case["dt"]]
    npd = torch.zeros(0, dtype=dt).numpy().dtype
    info = torch.iinfo(dt)
    if case["kind"] == "pad":
        n, b, a, mode, ax = case["n"], case["before"], case["after"], case["mode"], case["axis"]
        shape = (n, 2) if ax == 0 else (2, n)
        x = np.array(extremes(case["dt"], 2 * n, case["salt"]), dtype=npd).reshape(shape)
        c = (info.max, info.min)
        got = Padder((b, a), mode, constant_values=[c], stat_length=(2, 3)).forward(torch.tensor(x), axes=(ax,))
        m = np.moveaxis(x, ax, 0)
        if mode in ref.COPY_MODES:
            idx = (ref.extension_matrix(mode, n, b, a) != 0).argmax(1)
            if mode == "periodize" and b == a == 0:
                idx = np.arange(n)
            exp = m[idx]
        else:
            if mode in ("zeros", "constant"):
                lo, hi = [np.full((1, 2), v if mode == "constant" else 0, dtype=npd) for v in c]
            else:
                pick = {"maximum": lambda s: s[-1:], "minimum": lambda s: s[:1], "median": lambda s: s[(len(s) - 1) // 2:][:1]}[mode]
                lo, hi = pick(np.sort(m[:2], axis=0)), pick(np.sort(m[max(0, n - 3):], axis=0))
            exp = np.concatenate([np.repeat(lo, b, 0), m, np.repeat(hi, a, 0)])
        exact(st, got, np.moveaxis(exp, 0, ax), dt)
        return
    op, v = case["op"], lambda *shape: np.array(extremes(case["dt"], int(np.prod(shape)), case["salt"]), dtype=npd).reshape(shape)
    if op == "outer":
        lim = int(info.max ** 0.5)
        x, y = np.array([lim, -lim if info.min else 1, 1, lim - 1], dtype=npd), np.array([lim, 0, lim - 2], dtype=npd)
        exact(st, outer(torch.tensor(x), torch.tensor(y)), np.array([[int(p) * int(q) for q in y] for p in x], dtype=npd), dt)
    elif op == "crop":
        x = v(5, 4)
        for seed in range(4):
            got = random_crop(torch.tensor(x), (0, 1), (3, 2), generator=torch.Generator().manual_seed(seed))
            hit = [(i, j) for i in range(3) for j in range(3) if np.array_equal(got.numpy(), x[i:i + 3, j:j + 2])]
            st.check(bool(hit) and got.dtype == dt, "a crop is not a block of its input")
            st.outcome(got.numpy().tobytes())
    elif op == "1c4c":
        x = v(1, 4, 4)
        exact(st, bayer_1c_to_4c(torch.tensor(x)), np.stack([x[0, r::2, c::2] for r in (0, 1) for c in (0, 1)]), dt)
    elif op == "4c1c":
        x = v(4, 2, 2)
        e = np.zeros((1, 4, 4), dtype=npd)
        for k in range(4):
            e[0, k // 2::2, k % 2::2] = x[k]
        exact(st, bayer_4c_to_1c(torch.tensor(x)), e, dt)
    else:
        for al in ("RGGB", "GRBG", "GBRG", "BGGR"):
            x = v(3, 4, 4)
            e4 = np.stack([x["RGB".index(al[k]), k // 2::2, k % 2::2] for k in range(4)])
            e = np.zeros((1, 4, 4), dtype=npd)
            for k in range(4):
                e[0, k // 2::2, k % 2::2] = e4[k]
            if op == "rgb1c":
                exact(st, rgb_to_1c_bayer(torch.tensor(x), al), e, dt)
            else:
                exact(st, rgb_to_4c_bayer(torch.tensor(x), al), e4, dt)


def exact(st, got, exp, dt):
    st.comparisons += exp.size
    if got.dtype != dt:
        raise Violation("element type %s became %s" % (dt, got.dtype))
    g = got.numpy()
    if g.shape != exp.shape:
        raise Violation("shape %s, expected %s" % (g.shape, exp.shape))
    st.outcome(g.tobytes()[:2048])
    if not np.array_equal(g, exp):
        q = tuple(np.argwhere(g != exp)[0])
        raise Violation("entry %s is %d, expected %d" % (q, int(g[q]), int(exp[q])))


def harnesses(tier):
    return [Harness("poison", op_space(tier), op_run), Harness("long", long_space(tier), long_run), Harness("scale", scale_space(tier), scale_run),
            Harness("ints", int_space(tier), int_run)]


def bounds(tier):
    return {"operations": len(OPS), "poison": "every entry of every input, one at a time, by each of %s" % ", ".join(("nan", "inf", "huge") if tier == "quick" else tuple(POISON)),
            "long": "axes up to %d, kernels up to %d" % ((129, 33) if tier == "quick" else (257, 65)),
            "scale": "2**k, |k| up to 300 (f64) and 60 (f32)", "ints": ", ".join(INTS)}
