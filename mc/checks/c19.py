"""
C19: gradients.  For every operation the whole Jacobian is collected by back-propagating every unit cotangent and compared,
entry by entry, with the derivative of the forward function along every unit direction (exact for affine operations,
central differences otherwise).
"""
import itertools

import numpy as np
import torch

from torchimage.cfa.bayer_conv import BayerConv2d
from torchimage.misc import poly1d, safe_power
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, SeparablePoolNd
from torchimage.pooling.operator import any_conv_1d

from .. import ref
from ..catalog import OPS
from ..core import Harness, Violation
from ..util import DT, LAYOUTS, generic, lay, unit

ID = "C19"
ASSUMPTIONS = ["points are generic (no ties, nothing within the differencing step of a kink); derivatives of smooth operations are "
               "compared with central differences in double precision (step 1e-5, relative tolerance 1e-5)"]
H = 1e-5


def data(op, shape, salt):
    if op.nin == 2:
        return unit(shape, salt) + 0.05 * salt
    if op.name.startswith("safe_power"):
        return np.round(generic(shape, salt) / 2) + 0.3
    if op.name == "bayer:demosaic":
        return 300 + generic(shape, salt)
    return generic(shape, salt, lo=-20) / 4 + 0.13


def jacobians(fn, xs, dt, st, layout="contiguous"):
    """list over outputs of list over inputs: matrix (out, in); also checks forward values"""
    leaves = [lay(x, layout, dt, requires_grad=True) for x in xs]
    plain = fn([lay(x, layout, dt) for x in xs])
    with torch.no_grad():
        quiet = fn(leaves)
    outs = fn(leaves)
    for a, b, c in zip(outs, plain, quiet):
        st.same(a, b, "values when a gradient is required", rtol=1e-12, atol=1e-12, count=False)
        st.same(c, b, "values without gradient mode", rtol=1e-12, atol=1e-12, count=False)
    res = []
    for o in outs:
        flat = o.reshape(-1)
        rows = [[] for _ in leaves]
        for j in range(flat.numel()):
            # a result outside the graph is a constant: its derivative is compared as zero
            gs = torch.autograd.grad(flat[j], leaves, retain_graph=True, allow_unused=True) if o.requires_grad else \
                [None] * len(leaves)
            for r, g, l in zip(rows, gs, leaves):
                r.append(np.zeros(l.numel()) if g is None else g.reshape(-1).numpy().astype(float))
        res.append([np.array(r).reshape(flat.numel(), l.numel()) for r, l in zip(rows, leaves)])
        st.transitions += flat.numel()
    # a whole backward pass leaves the transpose of the sum in .grad
    total = sum(o.sum() for o in outs)
    if total.requires_grad:
        total.backward()
    for i, l in enumerate(leaves):
        tot = sum(r[i].sum(0) for r in res)
        g = np.zeros(l.numel()) if l.grad is None else l.grad.reshape(-1).numpy().astype(float)
        s = max(1.0, np.abs(tot).max() if tot.size else 1.0)
        st.check(np.allclose(g, tot, rtol=1e-9 if dt == torch.float64 else 1e-4, atol=s * (1e-8 if dt == torch.float64 else 1e-4)),
                 "backward() of the sum gives another gradient")
    return plain, res


def columns(fn, xs, dt, step, both):
    """numeric Jacobian, same nesting"""
    base = [np.array(x, dtype=float) for x in xs]

    def run():
        return [o.detach().numpy().astype(float).reshape(-1) for o in fn([lay(b, dtype=dt) for b in base])]
    y0 = run()
    cols = [[[] for _ in xs] for _ in y0]
    for i, b in enumerate(base):
        f = b.reshape(-1)
        for q in range(f.size):
            v = f[q]
            f[q] = v + step
            hi = run()
            if both:
                f[q] = v - step
                lo = run()
            f[q] = v
            for o in range(len(y0)):
                cols[o][i].append((hi[o] - lo[o]) / (2 * step) if both else (hi[o] - y0[o]) / step)
    return [[np.array(c).T.reshape(len(y0[o]), -1) for c in cols[o]] for o in range(len(y0))]


def compare(st, got, exp, what, rtol, atol):
    for o, (go, eo) in enumerate(zip(got, exp)):
        for i, (g, e) in enumerate(zip(go, eo)):
            st.comparisons += g.size
            st.outcome(np.round(g, 6).tobytes()[:4096])
            ok = np.isclose(g, e, rtol=rtol, atol=atol)
            if not ok.all():
                r, c = np.argwhere(~ok)[0]
                raise Violation("%s: d out[%d][%d] / d in[%d][%d] is %r, expected %r" % (what, o, r, i, c, g[r, c], e[r, c]))


def op_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(OPS))
        op = OPS[name]
        if op.fixed:
            return {"op": name, "shape": [2] * ch.pick("lead", op.lead[:2]) + list(op.shape), "axes": None,
                    "layout": ch.pick("layout", ("contiguous", "strided"))}
        k = ch.pick("k", op.k)
        if k == 3 and tier == "quick":
            ch.prune()
        sizes = list(op.sizes[:k]) if k < 3 else [3, 4, 3]
        if "msssim" in name:
            sizes = [5, 6]
        pos = ch.pick("lead", (None, 0, -1) if tier != "quick" else (None, 0))
        axes = list(range(k))
        shape = list(sizes)
        if pos == 0:
            shape = [2] + shape
            axes = [a + 1 for a in axes]
        elif pos == -1:
            shape = shape + [2]
        if ch.pick("reverse", (False, True)):
            axes = axes[::-1]
        return {"op": name, "shape": shape, "axes": axes, "layout": ch.pick("layout", ("contiguous", "transposed") if tier == "quick" else LAYOUTS[:4])}
    return space


def op_run(case, st):
    op = OPS[case["op"]]
    dt = DT[op.dts[0]]
    xs = [data(op, case["shape"], s) for s in range(op.nin)]
    obj = op.make()
    if op.name == "unsharp:threshold":
        k = [1 / 3] * 3
        d = xs[0] - ref.pool(xs[0], case["axes"], [k] * len(case["axes"]), [1] * len(case["axes"]), "replicate")
        if np.abs(np.abs(d) - 4.0).min() < 1e-3:
            st.note("skipped_near_kink")
            st.outcome("kink")
            return

    def fn(ts):
        return op.call(obj, ts, case["axes"])
    _, got = jacobians(fn, xs, dt, st, case["layout"])
    if dt == torch.float32:
        exp, tolr = columns(fn, xs, dt, 4.0, False), (1e-3, 1e-3)
    elif op.linear or op.affine:
        exp, tolr = columns(fn, xs, dt, 1.0, False), (1e-9, 1e-9)
    else:
        exp, tolr = columns(fn, xs, dt, H, True), (1e-5, 1e-6)
    if case["op"].startswith("edgeloss:div"):
        tolr = (1e-4, 1e-4)
    compare(st, got, exp, case["op"], *tolr)


# ------------------------------------------------------------------------------- padding, every width around the size

def pad_space(tier):
    top = 5 if tier == "quick" else 9

    def space(ch):
        return {"mode": ch.pick("mode", tuple(m for m in ref.ALL_MODES if m != "empty")), "n": ch.pick("n", (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6)),
                "before": ch.pick("before", list(range(top + 1))), "after": ch.pick("after", list(range(top + 1))),
                "via": ch.pick("via", ("forward", "pad_axis"))}
    return space


def pad_run(case, st):
    n, b, a, mode = case["n"], case["before"], case["after"], case["mode"]
    if b == a == 0:
        st.outcome("nothing")
        return
    kw = {"constant_values": (2, 3), "end_values": (1.5, -2.0), "stat_length": (2, 3)}
    p = Padder(pad_width=(b, a), mode=mode, **kw)
    x = generic((n, 2), 1) / 3 + 0.1

    def fn(ts):
        return (p.forward(ts[0], axes=(0,)) if case["via"] == "forward" else p.pad_axis(ts[0], 0, 0),)
    _, got = jacobians(fn, [x], torch.float64, st)
    if mode in ref.LINEAR_MODES:
        m = ref.extension_matrix(mode, n, b, a)
        exp = [[np.kron(m, np.eye(2))]]
        compare(st, got, exp, "padding", 1e-12, 1e-12)
    elif mode == "median":
        # the gradient must select a median entry: compare with differences
        compare(st, got, columns(fn, [x], torch.float64, H, True), "padding", 1e-7, 1e-7)
    elif mode in ("maximum", "minimum"):
        compare(st, got, columns(fn, [x], torch.float64, H, True), "padding", 1e-7, 1e-7)
    else:
        compare(st, got, columns(fn, [x], torch.float64, 1.0, False), "padding", 1e-9, 1e-9)


# ---------------------------------------------------------------------------- differentiable parameters and exponents

def param_space(tier):
    def space(ch):
        kind = ch.pick("kind", ("bayer", "conv", "exponent", "both"))
        c = {"kind": kind}
        if kind == "bayer":
            c["k"], c["bias"], c["al"] = ch.pick("k", (1, 3)), ch.pick("bias", (True, False)), ch.pick("al", ref.ALIGNMENTS)
            c["un"] = ch.pick("un", (False, True))
        elif kind == "conv":
            c["k"], c["stride"], c["dil"], c["dim"] = ch.pick("k", (1, 2, 3)), ch.pick("s", (1, 2)), ch.pick("d", (1, 2)), ch.pick("dim", (0, 1))
        else:
            c["e"] = ch.pick("e", (0.5, 1.5, -0.5, 2.25, 0.75))
        return c
    return space


def param_run(case, st):
    kind = case["kind"]
    if kind == "bayer":
        k = case["k"]
        layer = BayerConv2d(1, 2, k, case["bias"]).double()
        names = [n for n, _ in layer.named_parameters()]
        shapes = [p.shape for _, p in layer.named_parameters()]
        vals = [generic(tuple(s), i) / 20 for i, s in enumerate(shapes)]
        x = generic((1, 4, 4)) / 10

        def fn(ts):
            r = torch.func.functional_call(layer, dict(zip(names, ts[1:])), (ts[0], case["al"])) if not case["un"] else \
                un_call(layer, dict(zip(names, ts[1:])), ts[0], case["al"])
            return (r,)
        _, got = jacobians(fn, [x] + vals, torch.float64, st)
        compare(st, got, columns(fn, [x] + vals, torch.float64, 1.0, False), "Bayer weights", 1e-8, 1e-8)
    elif kind == "conv":
        x, w = generic((5, 6)) / 10, generic((case["k"],), 2) / 10

        def fn(ts):
            return (any_conv_1d(ts[0], ts[1], dim=case["dim"], stride=case["stride"], dilation=case["dil"]),)
        _, got = jacobians(fn, [x, w], torch.float64, st)
        compare(st, got, columns(fn, [x, w], torch.float64, 1.0, False), "any_conv_1d", 1e-8, 1e-8)
    else:
        b = np.array([[0.5, 2.0, 7.25], [1e-1, 3.0, 1.0]])
        if kind == "both":
            b = b * np.array([[1], [-1]])               # negative bases: value -|b|^e, derivative by e alike
        e = np.full((1, 3), case["e"]) + np.array([0.0, 0.125, 0.0625])

        def fn(ts):
            return (safe_power(ts[0], ts[1]),)
        _, got = jacobians(fn, [b, e], torch.float64, st)
        compare(st, got, columns(fn, [b, e], torch.float64, 1e-6, True), "safe_power", 1e-5, 1e-6)


def un_call(layer, params, x, al):
    class W(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.inner = layer

        def forward(self, x):
            return self.inner.forward_unshuffle(x, al)
    return torch.func.functional_call(W(), {"inner." + n: p for n, p in params.items()}, (x,))


# --------------------------------------------------------------------------------- differentiating the gradient again

def second_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(n for n, o in OPS.items() if o.dts[0] == "f64"))
        op = OPS[name]
        weights = ch.pick("weights", ("ramp", "ones", "alternating") if tier != "quick" else ("ramp",))
        if op.fixed:
            return {"op": name, "shape": [2] * op.lead[0] + list(op.shape), "axes": None, "weights": weights}
        k = ch.pick("k", [q for q in op.k if q < 3])
        sizes = [5, 6] if "msssim" in name else list(op.sizes[:k])
        axes = list(range(k))
        if ch.pick("lead", (False, True)):
            sizes, axes = [2] + sizes, [a + 1 for a in axes]
        if ch.pick("reverse", (False, True) if k > 1 else (False,)):
            axes = axes[::-1]
        return {"op": name, "shape": sizes, "axes": axes, "weights": weights}
    return space


def second_run(case, st):
    op = OPS[case["op"]]
    xs = [data(op, case["shape"], s) for s in range(op.nin)]
    obj = op.make()

    def grad(vals, create):
        ts = [lay(v, dtype=torch.float64, requires_grad=True) for v in vals]
        total = 0
        for o in op.call(obj, ts, case["axes"]):
            i = torch.arange(1, o.numel() + 1, dtype=o.dtype)
            w = {"ramp": i, "ones": i * 0 + 1, "alternating": 1 - 2 * (i % 2)}[case["weights"]]
            total = total + (o * w.reshape(o.shape)).sum()
        if not total.requires_grad:
            return ts, torch.zeros(sum(t.numel() for t in ts), dtype=torch.float64)
        g = torch.autograd.grad(total, ts, create_graph=create, allow_unused=True)
        return ts, torch.cat([torch.zeros(t.numel(), dtype=t.dtype) if a is None else a.reshape(-1) for t, a in zip(ts, g)])

    ts, flat = grad(xs, True)
    st.same(flat, grad(xs, False)[1], "gradient recorded for a second derivative", rtol=1e-9, atol=1e-9)
    n = flat.numel()
    hess = np.zeros((n, n))
    for j in range(n):
        if flat.requires_grad:
            r = torch.autograd.grad(flat[j], ts, retain_graph=True, allow_unused=True)
            hess[j] = torch.cat([torch.zeros(t.numel(), dtype=t.dtype) if a is None else a.reshape(-1) for t, a in zip(ts, r)]).numpy()
    num, q = np.zeros((n, n)), 0
    for i, x in enumerate(xs):
        for e in range(x.size):
            both = []
            for step in (H, -H):
                ys = [y.copy() for y in xs]
                ys[i].reshape(-1)[e] += step
                both.append(grad(ys, False)[1].detach().numpy())
            num[:, q] = (both[0] - both[1]) / (2 * H)
            q += 1
    st.transitions += 3 * n
    st.outcome(np.round(hess, 3).tobytes()[:4096])
    scale = max(1.0, np.abs(num).max())
    ok = np.isclose(hess, num, rtol=1e-3, atol=1e-4 * scale)
    st.check(ok.all(), lambda: "%s: second derivative %s is %r, expected %r" % (
        case["op"], tuple(np.argwhere(~ok)[0]), hess[tuple(np.argwhere(~ok)[0])], num[tuple(np.argwhere(~ok)[0])]))


def harnesses(tier):
    return [Harness("operations", op_space(tier), op_run), Harness("padding", pad_space(tier), pad_run),
            Harness("parameters", param_space(tier), param_run),
            Harness("second", second_space(tier), second_run)]


def bounds(tier):
    return {"operations": len(OPS), "padding": "sizes 1..%d, widths 0..%d on both sides, every mode" % ((4, 5) if tier == "quick" else (6, 9)),
            "second": "the whole Hessian of a weighted sum of every operation's result",
            "cotangents": "every unit cotangent", "directions": "every unit direction"}
