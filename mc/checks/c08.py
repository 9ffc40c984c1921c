"""C08: edge detectors against edge correlation followed by smoothing correlation, component by component."""
import itertools

import numpy as np
import torch

from torchimage.filtering import (EdgeFilter, Farid, GaussianGrad, Laplace, LaplacianOfGaussian, Prewitt, Scharr,
                                  Sobel)
from torchimage.padding import Padder

from .. import ref
from ..core import Harness
from ..util import DT, generic, lay, ordered_subsets, smallints, spell_axes, spellings, tol

ID = "C08"
ASSUMPTIONS = ["kernels beyond the enumerated ones are reached through linearity in the kernel (generic entries)"]

CLASSES = {"Sobel": Sobel, "Prewitt": Prewitt, "Scharr": Scharr, "Farid": Farid}
SHAPES = {2: (5, 6), 3: (4, 5, 6), 4: (2, 3, 5, 4)}


def magnitude_ref(comps, p, eps):
    if p == 1:
        return sum(comps) + eps
    with np.errstate(all="ignore"):
        return (sum(c ** p for c in comps) + eps) ** (1.0 / p)


def verify(ef, edge, smooth, normalize, mode, ndim, axes, how, st, x=None, ps=((2, 0.0), (1, 0.0), (2, 0.7), (4, 0.0), (3, 1.0), (1, 0.3)),
           extra=True, t=None, dt="f64"):
    t = t or {"rtol": 1e-8, "atol": 1e-7}
    x = generic(SHAPES[ndim]) if x is None else x
    tx = lay(x, dtype=DT[dt])
    comps = [ref.edge_component(x, a, axes, edge, smooth, normalize, mode) for a in axes]
    for a, c in zip(axes, comps):
        st.same(ef.component(tx, edge_axis=a, smooth_axes=spell_axes(ndim, axes, how)), c, "component along %d" % a, **t)
    if len(axes) < 2:
        return
    got = ef.all_components(tx, axes=spell_axes(ndim, axes, how))
    st.check(len(got) == len(comps), "%d components" % len(got))
    for a, g, c in zip(axes, got, comps):
        st.same(g, c, "all_components along %d" % a, **t)
    for p, eps in ps if len({c.shape for c in comps}) == 1 else ():     # without padding the shapes may not fit
        m = ef.magnitude(tx, axes=spell_axes(ndim, axes, how), epsilon=eps, p=p)
        exp = magnitude_ref(comps, p, eps)
        if p == 3:                             # next to zero, rounding decides between a root and NaN
            hazy = np.abs(sum(c ** p for c in comps) + eps) <= t["rtol"] * (1 + sum(np.abs(c) ** p for c in comps))
            m = torch.where(torch.tensor(hazy), torch.zeros_like(m), m)
            exp = np.where(hazy, 0.0, exp)
        st.same(m, exp, "magnitude p=%s epsilon=%s" % (p, eps), rtol=max(t["rtol"], 1e-7), atol=t["atol"] * 10)
    if extra and len(axes) == 2 and not (len(smooth) and not np.isscalar(smooth[0])):
        st.same(ef.horizontal(tx), ref.edge_component(x, ndim - 2, [ndim - 1], edge, smooth, normalize, mode),
                "horizontal", **t)
        st.same(ef.vertical(tx), ref.edge_component(x, ndim - 1, [ndim - 2], edge, smooth, normalize, mode),
                "vertical", **t)


# --------------------------------------------------------------------------------------------------- named detectors

def named_space(tier):
    def space(ch):
        name = ch.pick("name", tuple(CLASSES))
        norm = ch.pick("normalize", (False, True))
        mode = ch.pick("mode", ("default", "constant", "symmetric", "circular", "replicate", None, "padder") if
                       tier == "quick" else ("default", None, "padder") + tuple(m for m in ref.ALL_MODES if m not in (
                           "empty", "periodize")))
        ndim = ch.pick("ndim", (2, 3))
        axes = ch.pick("axes", ordered_subsets(ndim))
        if mode is None and name == "Farid" and len(axes) and ndim == 3:
            ch.prune()                               # the 4-wide axis has no complete 5-wide window
        how = ch.pick("how", spellings(ndim, axes))
        return {"name": name, "normalize": norm, "mode": mode, "ndim": ndim, "axes": list(axes), "how": how}
    return space


def named_run(case, st):
    kw = {} if case["mode"] == "default" else {"same_padder": case["mode"]}
    mode = "reflect" if case["mode"] == "default" else case["mode"]
    cst = {}
    if mode == "padder":
        kw = {"same_padder": Padder(mode="symmetric", pad_width=(4, 9))}
        mode = "symmetric"
    ef = CLASSES[case["name"]](normalize=case["normalize"], **kw)
    edge, smooth = ref.EDGE_KERNELS[case["name"]]
    verify(ef, edge, smooth, case["normalize"], mode, case["ndim"], tuple(case["axes"]), case["how"], st)


# -------------------------------------------------------------------------------------- custom kernels (every fast path)

VALUES = (-1.0, 0.0, 1.0, -1.5, 1.5, -2.0, 0.5)


def custom_space(tier):
    def space(ch):
        # around the two discrete kernels: every kernel with entries from a set that truncates/rounds to them
        k = ch.pick("k", (3, 2, 1, 4, 5))
        if k == 3:
            edge = [ch.pick("e", VALUES if tier != "quick" else VALUES[:5] + VALUES[5:6]) for _ in range(3)]
        else:
            edge = list(ch.pick("edge", {2: ((-1.0, 1.0), (0.5, 2.0)), 1: ((1.0,), (-2.5,)),
                                         4: ((-1.0, 0.0, 1.0, 0.0), (0.0, -1.0, 0.0, 1.0)),
                                         5: ((0.0, -1.0, 0.0, 1.0, 0.0), (1.0, -2.0, 1.0, 0.0, 3.0))}[k]))
        smooth = ch.pick("smooth", ((1.0, 2.0, 1.0), (), (2.0, 3.0), (-1.0, 4.0, -1.0)) if tier == "quick" else
                         ((1.0, 2.0, 1.0), (), (2.0, 3.0), (-1.0, 4.0, -1.0), (1.0,), (1.0, 4.0, 6.0, 4.0, 2.0), (1.0, -3.0)))
        norm = ch.pick("normalize", (False, True)) if smooth else False
        mode = ch.pick("mode", ("reflect", "constant", None))
        form = ch.pick("form", ("tuple", "list", "numpy", "tensor") if k != 3 or edge[1] == 0 and mode == "reflect" else ("tuple",))
        return {"edge": edge, "smooth": list(smooth), "normalize": norm, "mode": mode, "form": form}
    return space


def make(v, form):
    return {"tuple": tuple, "list": list, "numpy": np.array, "tensor": lambda a: torch.tensor(a, dtype=torch.float64)}[form](v)


def custom_run(case, st):
    edge, smooth = case["edge"], case["smooth"]
    form = case["form"]
    ef = EdgeFilter(make(edge, form), make(smooth, form if smooth else "tuple"), normalize=case["normalize"],
                    same_padder=case["mode"])
    for axes in ((0, 1), (1, 0)):
        verify(ef, edge, smooth, case["normalize"], case["mode"], 2, axes, "tuple", st, x=generic((5, 6)),
               ps=((2, 0.0), (1, 0.0)))


# ------------------------------------------------------------------------------------------ exponents of the magnitude

POWERS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 1.0, 2.0, 0.5, 1.5, 2.5, 3.0, 1.0 / 3)


def power_space(tier):
    def space(ch):
        return {"name": ch.pick("name", tuple(CLASSES)), "p": ch.pick("p", POWERS if tier == "quick" else POWERS + (
                    13, 14, 17, 20, 24, 27, 32, 0.25, 0.75, 4.0, 9.0, 12.0)),
                "eps": ch.pick("eps", (0.0, 0.7, 1e-6)), "ndim": ch.pick("ndim", (2, 3)), "axes": ch.pick("axes", ([0, 1], [-1, 0])),
                "scale": ch.pick("scale", (1.0, 0.1))}
    return space


def power_run(case, st):
    p, eps, ndim = case["p"], case["eps"], case["ndim"]
    ef = CLASSES[case["name"]]()
    edge, smooth = ref.EDGE_KERNELS[case["name"]]
    axes = tuple(a % ndim for a in case["axes"])
    x = generic(SHAPES[ndim]) * case["scale"]
    comps = [ref.edge_component(x, a, axes, edge, smooth, False, "reflect") for a in axes]
    m = ef.magnitude(torch.tensor(x), axes=tuple(case["axes"]), epsilon=eps, p=p)
    exp = magnitude_ref(comps, p, eps)         # a negative sum has no root: NaN on both sides
    margin = 1e-9 * (1 + sum(np.abs(c) ** p for c in comps)) if p != 1 else 1
    with np.errstate(all="ignore"):
        total = sum(c ** p for c in comps) + eps
    clear = ~(np.abs(total) <= margin)         # next to zero, rounding decides between a root and NaN
    if p != int(p):
        clear &= np.all([np.abs(c) > 1e-9 for c in comps], axis=0)
    st.same(m.numpy()[clear], exp[clear], "magnitude p=%s epsilon=%s" % (p, eps), rtol=1e-6, atol=1e-8)
    if p == 2 and eps == 0.0:
        st.same(ef.magnitude(torch.tensor(x), axes=tuple(case["axes"])), exp, "default exponent and epsilon", rtol=1e-6, atol=1e-6)


# --------------------------------------------------------------------- one smoothing kernel per axis, explicit components

def lists_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", (3, 4))
        edge_axis = ch.pick("edge_axis", list(range(-ndim, ndim)))
        rest = [a for a in range(ndim) if a != edge_axis % ndim]
        m = ch.pick("m", (0, 1, 2))
        axes = ch.pick("smooth_axes", list(itertools.permutations(rest, m)))
        with_edge = ch.pick("with_edge", (False, True))
        norm = ch.pick("normalize", (False, True))
        per_axis = ch.pick("per_axis", (True, False)) if m else False
        return {"ndim": ndim, "edge_axis": edge_axis, "smooth_axes": list(axes), "with_edge": with_edge,
                "normalize": norm, "per_axis": per_axis, "edge": ch.pick("edge", ([-1.0, 0.0, 1.0], [1.0, -3.0, 1.0]))}
    return space


def lists_run(case, st):
    ndim, e = case["ndim"], case["edge_axis"]
    axes = list(case["smooth_axes"])
    ks = [[1.0, -2.0, 3.0], [3.0, 1.0]][:len(axes)]
    smooth = ks if case["per_axis"] else [2.0, 1.0, 5.0]
    ef = EdgeFilter(case["edge"], smooth, normalize=case["normalize"], same_padder="symmetric")
    x = generic(SHAPES[ndim])
    arg = tuple(axes[:1] + [e % ndim] + axes[1:]) if case["with_edge"] else tuple(axes)
    out = ef.component(lay(x), edge_axis=e, smooth_axes=arg)
    exp = ref.edge_component(x, e % ndim, axes, case["edge"], smooth, case["normalize"], "symmetric")
    st.same(out, exp, "component", rtol=1e-8, atol=1e-7)


# --------------------------------------------------------------------------------- Gaussian gradient, Laplace, LoG

def gauss_space(tier):
    def space(ch):
        kind = ch.pick("kind", ("grad", "log", "laplace"))
        c = {"kind": kind, "mode": ch.pick("mode", ("reflect", "constant", "replicate") if tier != "quick" else ("reflect", "constant"))}
        ndim = ch.pick("ndim", (2, 3))
        c["ndim"], c["axes"] = ndim, list(ch.pick("axes", [a for a in ordered_subsets(ndim) if len(a) > 1]))
        if kind == "grad":
            c["k"] = ch.pick("k", (3, 4, 5) if tier != "quick" else (3, 4))
            c["sigma"] = ch.pick("sigma", (0.8, 1.7))
            c["ek"] = ch.pick("ek", (None, 5, 3))
            c["es"] = ch.pick("es", (None, 0.6))
            c["order"] = ch.pick("order", (1, 0, 2, 3))
            c["normalize"] = ch.pick("normalize", (True, False))
        elif kind == "log":
            c["k"] = ch.pick("k", (3, 4, 5, 7))
            c["sigma"] = ch.pick("sigma", (0.5, 0.53, 0.55, 0.8, 1.0, 1.5, 2.0))
        return c
    return space


def gauss_run(case, st):
    kind, mode, ndim, axes = case["kind"], case["mode"], case["ndim"], tuple(case["axes"])
    x = generic(SHAPES[ndim])
    kw = {} if mode == "reflect" else {"same_padder": mode}
    if kind == "laplace":
        layer, edge, smooth = Laplace(**kw), [1.0, -2.0, 1.0], []
    elif kind == "log":
        layer = LaplacianOfGaussian(case["k"], case["sigma"], **kw)
        edge, smooth = ref.gaussian_kernel(case["k"], case["sigma"], 2), ref.gaussian_kernel(case["k"], case["sigma"], 0)
    else:
        layer = GaussianGrad(case["k"], case["sigma"], edge_kernel_size=case["ek"], edge_sigma=case["es"],
                             normalize=case["normalize"], edge_order=case["order"], **kw)
        edge = ref.gaussian_kernel(case["ek"] or case["k"], case["es"] or case["sigma"], case["order"])
        smooth = ref.gaussian_kernel(case["k"], case["sigma"], 0)
        verify(layer, list(edge), list(smooth), case["normalize"], mode, ndim, axes, "tuple", st)
        return
    exp = sum(ref.edge_component(x, a, axes, edge, list(smooth), False, mode) for a in axes)
    st.same(layer.forward(lay(x), axes=axes), exp, kind, rtol=1e-8, atol=1e-7)
    if axes == tuple(range(ndim)):
        st.same(layer.forward(lay(x), axes=None), exp, kind + " all axes", rtol=1e-8, atol=1e-7)
        if kind == "log":
            st.same(layer.forward(lay(x)), exp, kind + " default axes", rtol=1e-8, atol=1e-7)


def image_space(tier):
    def space(ch):
        return {"name": ch.pick("name", tuple(CLASSES)), "shape": list(ch.pick("shape", ((2, 3, 17, 33), (1, 1, 64, 40)))),
                "dt": ch.pick("dt", ("f64", "f32")), "normalize": ch.pick("normalize", (False, True))}
    return space


def image_run(case, st):
    ef = CLASSES[case["name"]](normalize=case["normalize"])
    edge, smooth = ref.EDGE_KERNELS[case["name"]]
    t = None if case["dt"] == "f64" else {"rtol": 1e-3, "atol": 1e-2}
    verify(ef, edge, smooth, case["normalize"], "reflect", 4, (2, 3), "slice", st, x=generic(case["shape"]), t=t,
           dt=case["dt"], ps=((2, 0.0), (1, 0.0)))


# ---------------------------------------------------------------------------------------- kernel-size and scale ladders

def ladder_space(tier):
    sizes = (6, 7, 8, 9, 11, 15, 16, 21, 31, 33) + (() if tier == "quick" else (10, 12, 13, 14, 17, 25, 32, 63, 64, 65))

    def space(ch):
        return {"ek": ch.pick("ek", sizes), "sk": ch.pick("sk", (0, 1, 7, 10, 15, 31) if tier == "quick" else (0, 1) + sizes),
                "normalize": ch.pick("normalize", (False, True)), "mode": ch.pick("mode", (None, "reflect", "constant", "circular")),
                "scale": ch.pick("scale", (1.0, 2.0 ** 30, 2.0 ** -30))}
    return space


def ladder_run(case, st):
    n, s = 70 if case["mode"] is None else 40, case["scale"]
    edge = [float(v) for v in generic((case["ek"],), 1, lo=-9, span=19)]
    smooth = [float(v) for v in generic((case["sk"],), 3, lo=1, span=7)]
    if not smooth and case["normalize"]:
        return
    ef = EdgeFilter(edge, smooth, normalize=case["normalize"], same_padder=case["mode"])
    x = generic((2, n, 37 if case["mode"] else n))
    t = lay(x * s)
    comps = [ref.edge_component(x, a, (1, 2), edge, smooth, case["normalize"], case["mode"]) for a in (1, 2)]
    big = max(1.0, max(np.abs(c).max() for c in comps))
    got = ef.all_components(t, axes=(1, 2))
    for a, g, c in zip((1, 2), got, comps):
        st.same(ef.component(t, edge_axis=a, smooth_axes=(1, 2)) / s, c, "component along %d" % a, atol=1e-9 * big)
        st.same(g / s, c, "all_components along %d" % a, atol=1e-9 * big)
    if comps[0].shape == comps[1].shape:
        for p in (1, 2, 4):
            st.same(ef.magnitude(t, axes=(1, 2), epsilon=0.0, p=p) / s, magnitude_ref(comps, p, 0.0), "magnitude p=%d" % p, rtol=1e-7,
                    atol=1e-8 * big)


def gladder_space(tier):
    def space(ch):
        return {"kind": ch.pick("kind", ("grad", "log")), "k": ch.pick("k", (6, 7, 8, 9, 11, 15, 16, 21, 31)),
                "sigma": ch.pick("sigma", (0.7, 1.5, 4.0)), "order": ch.pick("order", (1, 2)), "normalize": ch.pick("normalize", (True, False)),
                "scale": ch.pick("scale", (1.0, 2.0 ** 30, 2.0 ** -30))}
    return space


def gladder_run(case, st):
    k, sigma, s = case["k"], case["sigma"], case["scale"]
    x = generic((1, 2, 40, 37))
    t = lay(x * s)
    g0 = list(ref.gaussian_kernel(k, sigma, 0))
    if case["kind"] == "log":
        if case["order"] == 1 or case["normalize"]:
            return
        g2 = list(ref.gaussian_kernel(k, sigma, 2))
        exp = sum(ref.edge_component(x, a, (2, 3), g2, g0, False, "reflect") for a in (2, 3))
        st.same(LaplacianOfGaussian(k, sigma).forward(t, axes=(2, 3)) / s, exp, "LoG", rtol=1e-8, atol=1e-7)
        return
    g1 = list(ref.gaussian_kernel(k, sigma, case["order"]))
    layer = GaussianGrad(k, sigma, normalize=case["normalize"], edge_order=case["order"])
    comps = [ref.edge_component(x, a, (2, 3), g1, g0, case["normalize"], "reflect") for a in (2, 3)]
    for g, c in zip(layer.all_components(t, axes=(2, 3)), comps):
        st.same(g / s, c, "component", rtol=1e-8, atol=1e-7 * max(1, np.abs(c).max()))
    st.same(layer.magnitude(t, axes=(2, 3), epsilon=0.0) / s, magnitude_ref(comps, 2, 0.0), "magnitude", rtol=1e-6, atol=1e-6)


# --------------------------------------------------------- components with one smoothing kernel per axis; images with many axes

def sets_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", (3, 4))
        return {"ndim": ndim, "axes": list(ch.pick("axes", [a for a in ordered_subsets(ndim) if len(a) == 3])),
                "normalize": ch.pick("normalize", (False, True)), "mode": ch.pick("mode", ("reflect", "constant", None)),
                "smooth": ch.pick("smooth", ([[1.0, -2.0, 4.0], [3.0, 1.0]], [[1.0, 2.0], [1.0, 2.0, 2.0]], [[], [1.0, 3.0, 2.0]])
                                  if tier == "quick" else ([[1.0, -2.0, 4.0], [3.0, 1.0]], [[1.0, 2.0], [1.0, 2.0, 2.0]],
                                                           [[], [1.0, 3.0, 2.0]], [[5.0, 1.0], []], [[1.0, 2.0, 1.0], [1.0, 2.0, 1.0]])),
                "edge": ch.pick("edge", ([-1.0, 0.0, 1.0], [1.0, -3.0]))}
    return space


def sets_run(case, st):
    ndim, axes, smooth = case["ndim"], case["axes"], case["smooth"]
    ef = EdgeFilter(case["edge"], smooth, normalize=case["normalize"], same_padder=case["mode"])
    x = generic(SHAPES[ndim] if case["mode"] else (5, 4, 6, 3)[:ndim])
    comps = [ref.edge_component(x, a, [b for b in axes if b != a], case["edge"], smooth, case["normalize"], case["mode"]) for a in axes]
    for how in spellings(ndim, axes)[:2]:
        got = ef.all_components(lay(x), axes=spell_axes(ndim, axes, how))
        st.check(len(got) == 3, "%d components" % len(got))
        for a, g, c in zip(axes, got, comps):
            st.same(g, c, "all_components along %d" % a, rtol=1e-8, atol=1e-7)
        if len({c.shape for c in comps}) == 1:
            for p in (1, 2):
                st.same(ef.magnitude(lay(x), axes=spell_axes(ndim, axes, how), epsilon=0.0, p=p), magnitude_ref(comps, p, 0.0),
                        "magnitude p=%d" % p, rtol=1e-7, atol=1e-6)


MANY = {2: (6, 7), 3: (3, 6, 5), 4: (2, 3, 6, 5), 5: (2, 3, 2, 6, 5), 6: (2, 1, 2, 3, 5, 6), 7: (1, 2, 1, 2, 2, 6, 5)}


def planes_space(tier):
    def space(ch):
        c = {"ndim": ch.pick("ndim", tuple(MANY)), "name": ch.pick("name", tuple(CLASSES) + ("custom", "grad")),
             "normalize": ch.pick("normalize", (False, True)), "mode": ch.pick("mode", ("reflect", "constant", None, "circular"))}
        c["what"] = ch.pick("what", ("planes", "component", "magnitude", "laplace"))
        if c["what"] == "laplace" and (c["name"] != "custom" or c["normalize"] or c["mode"] is None):
            ch.prune()
        if c["what"] in ("planes", "laplace"):
            return c
        n = c["ndim"]
        pairs_ = [(a, b) for a in range(n) for b in range(n) if a != b] if c["mode"] in ("constant", "circular") else [
            (n - 1, n - 2), (n - 2, n - 1)]
        c["axes"] = list(ch.pick("axes", pairs_ if tier != "quick" else pairs_[::max(1, len(pairs_) // 8)]))
        return c
    return space


def planes_run(case, st):
    n, norm, mode, name = case["ndim"], case["normalize"], case["mode"], case["name"]
    t = {"rtol": 1e-8, "atol": 1e-7}
    x = generic(MANY[n])
    if mode is None and name == "Farid":
        x = generic(MANY[n][:-2] + (6, 6))           # whole five-sample windows
    if case["what"] == "laplace":
        axes = tuple(a for a in range(n) if MANY[n][a] > 1)
        exp = sum(ref.edge_component(x, a, axes, [1.0, -2.0, 1.0], [], False, mode) for a in axes)
        st.same(Laplace(same_padder=mode).forward(lay(x), axes=axes), exp, "laplace", **t)
        return
    if name == "custom":
        edge, smooth = [1.0, -3.0, 5.0], [2.0, 1.0]
        ef = EdgeFilter(edge, smooth, normalize=norm, same_padder=mode)
    elif name == "grad":
        edge, smooth = list(ref.gaussian_kernel(3, 0.9, 1)), list(ref.gaussian_kernel(3, 0.9, 0))
        ef = GaussianGrad(3, 0.9, normalize=norm, same_padder=mode)
    else:
        edge, smooth = ref.EDGE_KERNELS[name]
        ef = CLASSES[name](normalize=norm, same_padder=mode)
    if case["what"] == "planes":
        st.same(ef.horizontal(lay(x)), ref.edge_component(x, n - 2, [n - 1], edge, smooth, norm, mode), "horizontal", **t)
        st.same(ef.vertical(lay(x)), ref.edge_component(x, n - 1, [n - 2], edge, smooth, norm, mode), "vertical", **t)
        return
    axes = tuple(case["axes"])
    comps = [ref.edge_component(x, a, axes, edge, smooth, norm, mode) for a in axes]
    if case["what"] == "component":
        st.same(ef.component(lay(x), edge_axis=axes[0] - n, smooth_axes=axes[1]), comps[0], "component", **t)
        for a, g, c in zip(axes, ef.all_components(lay(x), axes=axes), comps):
            st.same(g, c, "all_components along %d" % a, **t)
    elif comps[0].shape == comps[1].shape:
        st.same(ef.magnitude(lay(x), axes=axes, epsilon=0.0), magnitude_ref(comps, 2, 0.0), "magnitude", rtol=1e-7, atol=1e-6)


def harnesses(tier):
    return [Harness("named", named_space(tier), named_run),
            Harness("custom", custom_space(tier), custom_run),
            Harness("power", power_space(tier), power_run),
            Harness("lists", lists_space(tier), lists_run), Harness("gauss", gauss_space(tier), gauss_run),
            Harness("image", image_space(tier), image_run),
            Harness("kernel sets", sets_space(tier), sets_run), Harness("planes", planes_space(tier), planes_run),
            Harness("ladder", ladder_space(tier), ladder_run), Harness("gauss_ladder", gladder_space(tier), gladder_run)]


def bounds(tier):
    return {"named": "4 detectors, every ordered axis subset and spelling in 2-d/3-d, magnitude for 6 (p, epsilon)",
            "custom": "every 3-tap edge kernel with entries in %d values, 4 other lengths" % (6 if tier == "quick" else 7),
            "power": "%d exponents, 3 epsilons" % (len(POWERS) + (0 if tier == "quick" else 12)),
            "kernel sets": "one smoothing kernel per axis, every ordered choice of 3 axes of 3-d and 4-d images",
            "planes": "images of 2 to 7 axes: horizontal, vertical, component, magnitude, Laplace",
            "ladder": "edge kernels to %d taps, smoothing kernels to 31, 40x37 and 70x70 images, values scaled by 2^-30, 1, 2^30"
                      % (33 if tier == "quick" else 65)}
