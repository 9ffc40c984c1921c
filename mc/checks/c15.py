"""C15: safe_power, value by value and gradient by gradient."""
import itertools
import math

import numpy as np
import torch

from torchimage.misc import safe_power

from .. import ref
from ..core import Harness
from ..util import DT, lay

ID = "C15"
ASSUMPTIONS = ["integer bases with negative integer exponents are undefined for integer tensors in torch itself",
               "overflowing results are out of scope, as documented"]
INF, NAN = math.inf, math.nan


def value(b, e, eps):
    """the documented value for one base and one exponent (floats)"""
    frac = math.floor(e) != e
    if not frac:
        if b == 0 and e < 0:
            return math.copysign(INF, b) if int(e) % 2 else INF
        return float(b) ** e
    if b == 0:
        b = eps
        if b == 0:
            return 0.0 if e > 0 else INF
    return b ** e if b > 0 else -((-b) ** e)


def grad(b, e, eps):
    """derivative with respect to the base"""
    frac = math.floor(e) != e
    if not frac:
        if e == 0:
            return 0.0
        if b == 0 and e < 1:
            return None                 # infinite: left to torch
        return e * float(b) ** (e - 1)
    if b == 0:
        b = eps
        if b == 0:
            return None
    return e * abs(b) ** (e - 1)


BASES = (-3.0, -1.0, -0.5, -1e-3, 0.0, 1e-3, 0.5, 1.0, 2.0, 7.25)
EXPS = (-2.5, -2.0, -1.0, -0.5, 0.0, 0.3, 0.5, 1.0, 1.5, 2.0, 3.0, 2.75)


def close(st, got, exp, what, r=1e-9, a=1e-12):
    g = got.detach().to(torch.float64).numpy()
    e = np.asarray(exp, dtype=float)
    st.check(g.shape == e.shape, "%s: shape %s, expected %s" % (what, g.shape, e.shape))
    st.outcome(g.tobytes())
    ok = np.isclose(g, e, rtol=r, atol=a, equal_nan=False)
    st.check(ok.all(), lambda: "%s: got %s, expected %s" % (what, g.reshape(-1)[~ok.reshape(-1)][:5], e.reshape(-1)[~ok.reshape(-1)][:5]))


def tables(bs, es, eps):
    """bs, es broadcast arrays"""
    B, E = np.broadcast_arrays(bs, es)
    v = np.array([value(float(b), float(e), eps) for b, e in zip(B.reshape(-1), E.reshape(-1))]).reshape(B.shape)
    return v


# every pair in every pair of roles ------------------------------------------------------------------------------

ROLES = ("float", "int", "t0", "t1", "t2")       # python numbers, 0-d, (1,), (2,2) tensors


def pair_space(tier):
    def space(ch):
        b, e = ch.pick("b", BASES), ch.pick("e", EXPS)
        rb = ch.pick("rb", ROLES if b == int(b) else tuple(r for r in ROLES if r != "int"))
        re = ch.pick("re", ROLES if e == int(e) else tuple(r for r in ROLES if r != "int"))

        def dts(v, r):
            return ("f64",) if r[0] != "t" else ("f64", "f32", "i64") if v == int(v) else ("f64", "f32")
        return {"b": b, "e": e, "rb": rb, "re": re, "dtb": ch.pick("dtb", dts(b, rb)), "dte": ch.pick("dte", dts(e, re)),
                "eps": ch.pick("eps", (None, 1e-6, 0.0, 0.25, 1.0) if tier != "quick" else (None, 0.0, 0.25, 1.0))}
    return space


def make(v, role, dt):
    if role == "float":
        return v
    if role == "int":
        return int(v) if v == int(v) else None
    if dt == "i64" and v != int(v):
        return None
    t = torch.tensor(v, dtype=DT[dt])
    return {"t0": t, "t1": t.reshape(1), "t2": t.reshape(1, 1).repeat(2, 2)}[role]


def pair_run(case, st):
    b, e = make(case["b"], case["rb"], case["dtb"]), make(case["e"], case["re"], case["dte"])
    integral = (lambda t: not t.is_floating_point() if torch.is_tensor(t) else isinstance(t, int))
    if integral(b) and integral(e) and case["e"] < 0:
        return
    eps = 1e-6 if case["eps"] is None else case["eps"]
    kw = {} if case["eps"] is None else {"epsilon": case["eps"]}
    keep = [t.clone() if torch.is_tensor(t) else t for t in (b, e)]
    got = safe_power(b, e, **kw)
    exp = np.broadcast_to(value(case["b"], case["e"], eps), got.shape)
    shapes = [t.shape if torch.is_tensor(t) else torch.Size() for t in (b, e)]
    st.check(got.shape == torch.broadcast_shapes(*shapes), "shape %s" % (got.shape,))
    low = any(torch.is_tensor(t) and t.dtype != torch.float64 for t in (got, b, e))
    close(st, got, exp, "safe_power(%r, %r, %s)" % (b, e, kw), *((1e-5, 1e-7) if low else (1e-9, 1e-12)))
    for t, k in zip((b, e), keep):
        st.check(not torch.is_tensor(t) or torch.equal(t, k), "an input was modified")


# broadcasting whole alphabets -----------------------------------------------------------------------------------

def grid_space(tier):
    def space(ch):
        bm = ch.pick("bm", list(range(1, 1 << 5)))             # which kinds of bases occur together
        em = ch.pick("em", list(range(1, 1 << 5)))
        return {"bm": bm, "em": em, "shape": ch.pick("shape", ("outer", "zip", "rowcol")), "dt": ch.pick("dt", ("f64", "f32")),
                "eps": ch.pick("eps", (1e-6, 0.0, 0.25))}
    return space


BK = ((-2.0, -0.25), (0.0,), (0.5,), (3.0, 1.0), (-1.0,))
EK = ((0.5, 2.25), (2.0, 3.0), (0.0, 1.0), (-0.5, -1.75), (-1.0, -2.0))


def grid_run(case, st):
    bs = [v for i, k in enumerate(BK) if case["bm"] >> i & 1 for v in k]
    es = [v for i, k in enumerate(EK) if case["em"] >> i & 1 for v in k]
    if case["shape"] == "outer":
        b, e = np.array(bs)[:, None], np.array(es)[None]
    elif case["shape"] == "rowcol":
        b, e = np.array(bs)[None, :, None], np.array(es)[:, None, None]
    else:
        n = len(bs) * len(es)
        b, e = np.resize(np.array(bs), n), np.repeat(np.array(es), len(bs))
    eps = case["eps"]
    tb = lay(b, dtype=DT[case["dt"]], requires_grad=True)
    te = lay(e, dtype=DT[case["dt"]])
    kb, ke = tb.detach().clone(), te.clone()
    out = safe_power(tb, te, epsilon=eps)
    rt = (1e-9, 1e-12) if case["dt"] == "f64" else (1e-4, 1e-5)
    close(st, out, tables(b, e, eps), "values", *rt)
    st.check(torch.equal(tb.detach(), kb) and torch.equal(te, ke), "an input was modified")
    # gradient: one backward pass per output entry of the smaller tensors
    B, E = np.broadcast_arrays(b, e)
    flat = out.reshape(-1)
    idx = np.broadcast_to(np.arange(b.size).reshape(b.shape), B.shape).reshape(-1)
    for j in range(0, flat.numel(), max(1, flat.numel() // 12)):
        g, = torch.autograd.grad(flat[j], tb, retain_graph=True)
        bb, ee = float(B.reshape(-1)[j]), float(E.reshape(-1)[j])
        ex = grad(bb, ee, eps)
        row = g.reshape(-1).detach().numpy()
        if bool((b == 0).any()) and (eps == 0 or any(v < 0 and v == math.floor(v) for v in es)):
            continue                    # a zero base has an infinite gradient there (times zero elsewhere)
        if math.floor(ee) != ee:
            st.check(not np.isnan(row[idx[j]]), "NaN gradient for base %s exponent %s" % (bb, ee))
        if ex is not None:
            st.check(np.isclose(row[idx[j]], ex, rtol=rt[0] * 10, atol=rt[1]), "gradient %s at base %s exponent %s, expected %s" % (
                row[idx[j]], bb, ee, ex))
    # all together: what training does
    if eps != 0 and all(math.floor(v) != v for v in es):
        g, = torch.autograd.grad(out.sum(), tb)
        st.check(not bool(torch.isnan(g).any()), "NaN in the gradient of the sum")
    # the exponent may need a gradient too
    t2 = lay(e, dtype=DT[case["dt"]], requires_grad=True)
    st.check(torch.equal(torch.nan_to_num(safe_power(lay(b, dtype=DT[case["dt"]]), t2, epsilon=eps).detach()), torch.nan_to_num(out.detach())), "requiring the gradient of the exponent changes the values")
    t3 = lay(np.ascontiguousarray(E), dtype=DT[case["dt"]], requires_grad=True)  # one exponent per output entry
    o3 = safe_power(lay(np.ascontiguousarray(B), dtype=DT[case["dt"]]), t3, epsilon=eps)
    st.check(o3.requires_grad, "the exponent receives no gradient")
    g3, = torch.autograd.grad(o3.sum(), t3)
    T, G = tables(b, e, eps).reshape(-1), g3.reshape(-1).numpy()
    for j, (bb, ee) in enumerate(zip(B.reshape(-1), E.reshape(-1))):
        if bb > 0 or (bb < 0 and math.floor(ee) != ee):
            ex = T[j] * math.log(abs(bb))
            st.check(np.isclose(G[j], ex, rtol=rt[0] * 10, atol=rt[1]), "gradient %s of the exponent at base %s exponent %s, expected %s" % (G[j], bb, ee, ex))


def large_space(tier):
    def space(ch):
        return {"shape": list(ch.pick("shape", ((1000,), (65, 64), (2, 3, 33, 31), (20000,), (257, 1)))),
                "e": ch.pick("e", ("0.5", "1.7", "-0.5", "2", "3", "per element", "per column")), "dt": ch.pick("dt", ("f64", "f32")),
                "eps": ch.pick("eps", (1e-6, 0.25)), "layout": ch.pick("layout", ("contiguous", "transposed", "strided")),
                "scale": ch.pick("scale", (1.0, 1e5, 1e-5))}
    return space


def large_run(case, st):
    """long tensors of mixed signs and zeros, every entry judged, values and gradients"""
    shape, eps, s = tuple(case["shape"]), case["eps"], case["scale"]
    n = int(np.prod(shape))
    b = ((np.arange(n) * 7 % 23 - 11) / 8.0).reshape(shape) * s
    if case["e"] == "per element":
        e = np.resize(np.array([0.5, 1.25, 2.5, 0.75]), n).reshape(shape)
    elif case["e"] == "per column":
        e = np.resize(np.array([0.5, 1.0, 2.0, 1.5, 0.3]), shape[-1])
    else:
        e = np.array(float(case["e"]))
    B, E = np.broadcast_arrays(b, e)
    frac = np.floor(E) != E
    with np.errstate(all="ignore"):
        base = np.where(frac & (B == 0), eps, B)
        exp = np.where(frac, np.sign(base) * np.abs(base) ** E, base ** E)
        gexp = E * np.where(frac, np.abs(base) ** (E - 1), base ** (E - 1))
    T = DT[case["dt"]]
    t = lay(b, case["layout"], T, requires_grad=True)
    te = float(e) if e.ndim == 0 else torch.tensor(e, dtype=T)
    rt = 1e-9 if case["dt"] == "f64" else 1e-4
    out = safe_power(t, te, epsilon=eps)
    st.check(tuple(out.shape) == B.shape and out.dtype == T, "result is %s %s" % (out.dtype, tuple(out.shape)))
    close(st, out, exp, "values", rt, 1e-12)
    g, = torch.autograd.grad(out.sum(), t)
    close(st, g, gexp, "gradient", rt * 10, 1e-12)
    with torch.no_grad():
        close(st, safe_power(lay(b, case["layout"], T), te, epsilon=eps), exp, "values without gradients", rt, 1e-12)


def harnesses(tier):
    return [Harness("large", large_space(tier), large_run), Harness("pair", pair_space(tier), pair_run), Harness("grid", grid_space(tier), grid_run)]


def bounds(tier):
    return {"bases": BASES, "exponents": EXPS, "roles": ROLES, "combinations": "every subset of 5 kinds of bases with every "
            "subset of 5 kinds of exponents, three broadcast shapes"}
