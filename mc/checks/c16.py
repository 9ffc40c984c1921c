"""C16: poly1d, outer, describe, pixels_per_degree."""
import itertools
import math

import numpy as np
import torch

from torchimage.metrics.hdrvdp.pixels_per_degree import pixels_per_degree
from torchimage.misc import describe, outer, poly1d

from .. import ref
from ..core import Harness
from ..util import DT, LAYOUTS, generic, lay, tol, unit

ID = "C16"
ASSUMPTIONS = ["integer tensors are combined with integer coefficients only (torch itself refuses to add a fraction in place)"]


def poly_space(tier):
    def space(ch):
        n = ch.pick("n", (1, 2, 3, 4, 5, 6, 7) if tier == "quick" else tuple(range(1, 10)))
        alpha = (1.0, 0.0, -2.5, 3.0) if n < 5 else (1.0, -2.5) if n < 7 or tier != "quick" else (1.5, 0.0)
        return {"p": [ch.pick("c", alpha) for _ in range(n)], "dt": ch.pick("dt", ("f64", "f32"))}
    return space


POLY_SHAPES = ((5,), (2, 3), (), (1, 2, 3), (0,))


def horner(p, x):
    y = np.zeros_like(x)
    for c in p:
        y = y * x + c
    return y


def poly_run(case, st):
    p, dt = case["p"], case["dt"]
    for i, shape in enumerate(POLY_SHAPES):
        x = (np.arange(int(np.prod(shape, dtype=int))) * 0.75 - 1.5).reshape(shape)
        exp = horner(p, x)
        forms = {"list": lambda: list(p), "tuple": lambda: tuple(p), "numpy": lambda: np.array(p),
                 "tensor": lambda: torch.tensor(p, dtype=torch.float64), "gen": lambda: (c for c in p)}
        for name, f in forms.items():
            if i and name != "list":
                continue
            t = torch.tensor(x).to(DT[dt])
            t = t if t.ndim == 0 else lay(x, LAYOUTS[len(p) % 4], DT[dt])
            keep = t.clone()
            c = f()
            ck = c.copy() if isinstance(c, np.ndarray) else c.detach().clone() if torch.is_tensor(c) else list(c) if name in (
                "list", "tuple") else None
            y = poly1d(t, c)
            st.same(y, exp, "poly1d %s %s" % (name, shape), **(dict(rtol=1e-9, atol=1e-9) if dt == "f64" else dict(rtol=1e-4, atol=1e-2)))
            if name in ("list", "tuple", "gen"):
                st.check(y.dtype == DT[dt], "element type %s" % y.dtype)
            st.check(torch.equal(t, keep), "x was modified")
            y.detach().add_(1)
            st.check(torch.equal(t, keep), "the result shares memory with x")
            if ck is not None:
                st.check(np.array_equal(np.asarray(c.detach() if torch.is_tensor(c) else c), np.asarray(ck)), "the coefficients were modified")
    if all(c == int(c) for c in p):
        pi = [int(c) for c in p]
        t = torch.tensor([-2, 0, 1, 3])
        st.same(poly1d(t, pi), horner(pi, np.array([-2, 0, 1, 3])), "integers", rtol=0, atol=0)


def long_space(tier):
    def space(ch):
        return {"n": ch.pick("n", (1, 2, 3, 4, 5, 8, 12, 20)), "shape": list(ch.pick("shape", ((1000,), (33, 65), (2, 3, 40, 37), (1, 1)))),
                "dt": ch.pick("dt", ("f64", "f32")), "layout": ch.pick("layout", LAYOUTS[:4]), "scale": ch.pick("scale", (1.0, 2.0 ** 20, 2.0 ** -20))}
    return space


def long_run(case, st):
    """long coefficient lists on large tensors, values in [-1, 1] so that every coefficient matters"""
    n, shape, s = case["n"], tuple(case["shape"]), case["scale"]
    p = [((i * 7 + 3) % 11 - 5) * s for i in range(n)]
    x = unit(shape) * 2 - 1
    t = lay(x, case["layout"], DT[case["dt"]])
    keep = t.clone()
    st.same(poly1d(t, p) / s, horner(p, x) / s, "poly1d", dtype=DT[case["dt"]], rtol=tol(case["dt"])[ "rtol"], atol=tol(case["dt"])["atol"] * 10)
    st.check(torch.equal(t, keep), "x was modified")


def big_outer_run(case, st):
    u, v = generic(case["u"]), generic(case["v"], 2)
    st.same(outer(lay(u), lay(v)), np.multiply.outer(u, v), "outer")
    st.same(torch.as_tensor(outer(u.copy(), v.copy())), np.multiply.outer(u, v), "outer of arrays")
    for q in (u, v):
        t = lay(q)
        st.same(outer(t, t), np.multiply.outer(q, q), "outer product of a tensor with itself")


def big_outer_space(tier):
    def space(ch):
        s = ((300,), (17, 33), (2, 3, 4, 5), (1,), (1, 1, 1, 1, 1))
        return {"u": list(ch.pick("u", s)), "v": list(ch.pick("v", s))}
    return space


def big_desc_space(tier):
    def space(ch):
        return {"n": ch.pick("n", (7, 8, 9, 10, 11, 16, 100, 101, 1000, 4097)), "shape": ch.pick("shape", ("flat", "column")),
                "kind": ch.pick("kind", ("mixed", "sorted", "reversed", "ties"))}
    return space


def big_desc_run(case, st):
    n = case["n"]
    v = np.arange(n) * 37 % n * 1.5 - 3 if case["kind"] == "mixed" else np.arange(n) * 0.5
    if case["kind"] == "reversed":
        v = v[::-1].copy()
    if case["kind"] == "ties":
        v = np.arange(n) * 37 % n % 5 * 1.0
    s = np.sort(v)
    d = describe(lay(v if case["shape"] == "flat" else v[:, None]))
    exp = {"mean": v.mean(), "std": v.std(ddof=1), "min": s[0], "max": s[-1], "25%": np.quantile(v, .25), "50%": np.quantile(v, .5),
           "75%": np.quantile(v, .75)}
    st.check(set(d) == set(exp), "keys %s" % sorted(d))
    for k in exp:
        st.check(abs(d[k] - exp[k]) <= 1e-5 * max(1, abs(exp[k])), "%s is %s, expected %s" % (k, d[k], exp[k]))
    st.outcome(tuple(d.values()))


def outer_space(tier):
    shapes = [()] + [s for r in (1, 2, 3) for s in itertools.product((1, 2, 3) if r < 3 else (1, 2), repeat=r)] + [(0,), (2, 0)]

    def space(ch):
        return {"u": list(ch.pick("u", shapes)), "v": list(ch.pick("v", shapes)), "form": ch.pick("form", ("tensor", "numpy", "strided"))}
    return space


def outer_run(case, st):
    u, v = generic(case["u"]), generic(case["v"], 2)
    exp = np.multiply.outer(u, v).reshape(u.shape + v.shape)
    if case["form"] == "numpy":
        a, b = u.copy(), v.copy()
    else:
        a, b = (torch.tensor(t) if t.ndim == 0 else lay(t, "strided" if case["form"] == "strided" else "contiguous") for t in (u, v))
    got = outer(a, b)
    st.same(got, exp, "outer")
    st.check(isinstance(got, np.ndarray if case["form"] == "numpy" else torch.Tensor) or got.ndim == 0, "type %s" % type(got))
    st.check(np.array_equal(np.asarray(a), u) and np.array_equal(np.asarray(b), v), "an input was modified")


def desc_space(tier):
    def space(ch):
        n = ch.pick("n", (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6))
        if n <= 4:
            vals = [ch.pick("v", (-1.5, 0.0, 2.0, 7.0)) for _ in range(n)]
        else:
            vals = list(ch.pick("perm", list(itertools.permutations((3.0, -1.0, 0.5, 0.5, 10.0, -7.25)[:n]))))
        return {"v": vals, "dt": ch.pick("dt", ("f64", "f32"))}
    return space


def desc_run(case, st):
    v = np.array(case["v"])
    n = len(v)
    s = np.sort(v)

    def quant(q):
        h = q * (n - 1)
        lo = int(math.floor(h))
        return s[lo] + (h - lo) * (s[min(lo + 1, n - 1)] - s[lo])
    m = v.sum() / n
    exp = {"mean": m, "std": math.sqrt(((v - m) ** 2).sum() / (n - 1)), "min": s[0], "25%": quant(.25), "50%": quant(.5),
           "75%": quant(.75), "max": s[-1]}
    shapes = [(n,), (1, n), (n, 1, 1)] + ([(2, n // 2)] if n % 2 == 0 else [])
    for sh in shapes:
        for layout in ("contiguous", "transposed", "strided"):
            t = lay(v.reshape(sh), layout, DT[case["dt"]])
            keep = t.clone()
            d = describe(t)
            st.check(set(d) == set(exp), "keys %s" % sorted(d))
            for k in exp:
                st.check(isinstance(d[k], float), "%s is %s" % (k, type(d[k])))
                st.check(abs(d[k] - exp[k]) <= 1e-5 * max(1, abs(exp[k])), "%s is %s, expected %s" % (k, d[k], exp[k]))
            st.check(torch.equal(t, keep), "the input was modified")
    st.outcome(tuple(round(float(x), 6) for x in d.values()))


def ppd_space(tier):
    def space(ch):
        return {"diag": ch.pick("diag", (610, 533.4, 100, 1, 2000.5)), "h": ch.pick("h", (1080, 1200, 768, 1, 3, 4096)),
                "w": ch.pick("w", (1920, 1024, 1, 3, 7)), "d": ch.pick("d", (0.5, 1, 0.01, 2.75, 30))}
    return space


def ppd_run(case, st):
    got = pixels_per_degree(case["diag"], case["h"], case["w"], case["d"])
    exp = ref.pixels_per_degree(case["diag"], case["h"], case["w"], case["d"])
    st.check(abs(got - exp) <= 1e-9 * exp, "%r, expected %r" % (got, exp))
    kw = pixels_per_degree(display_diagonal_mm=case["diag"], height_pix=case["h"], width_pix=case["w"], viewing_distance_m=case["d"])
    st.check(kw == got, "keywords change the result")
    st.outcome(round(got, 9))


def harnesses(tier):
    return [Harness("poly1d", poly_space(tier), poly_run), Harness("poly_large", long_space(tier), long_run),
            Harness("outer_large", big_outer_space(tier), big_outer_run), Harness("describe_large", big_desc_space(tier), big_desc_run),
            Harness("outer", outer_space(tier), outer_run),
            Harness("describe", desc_space(tier), desc_run), Harness("ppd", ppd_space(tier), ppd_run)]


def bounds(tier):
    return {"coefficients": "1..7" if tier == "quick" else "1..9", "outer": "every pair of shapes of rank 0..3",
            "describe": "every sequence of length 2..4 over 4 values, every permutation of 5%s values" % ("" if tier == "quick" else " and 6")}
