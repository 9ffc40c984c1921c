"""C03: NdSpec / ragged arrays against a small reference interpreter, over every nested literal up to a bound."""
import numpy as np
import torch

from torchimage.utils import NdSpec
from torchimage.utils.ragged import apply_ragged_ndarray, expand_ragged_ndarray, get_ragged_ndarray

from ..core import Harness, Violation

ID = "C03"
ASSUMPTIONS = ["leaves are compared by value; a leaf never influences broadcasting except through being a leaf"]

ITEM_SHAPES = ((), (-1,), (1,), (2,), (3,), (-1, -1), (2, -1), (-1, 2), (2, 2), (1, 3), (2, -1, -1))


# ------------------------------------------------------------------------------------------------- reference semantics

def rshape(d):
    if not isinstance(d, list):
        return ()
    if not d:
        return (0,)
    ch = [rshape(c) for c in d]
    if len({len(c) for c in ch}) > 1:
        return (len(d),)
    return (len(d),) + tuple(v[0] if len(set(v)) == 1 else -1 for v in zip(*ch))


class Bad(Exception):
    pass


def bcast(d, target):
    if not target:
        return d
    t, rest = target[0], target[1:]
    if not d:
        if t > 0:
            raise Bad()
        return d
    ch = [bcast(c, rest) for c in d]
    if t == -1 or t == len(ch):
        return ch
    if len(ch) == 1:
        return ch * t
    raise Bad()


def spec(d, item_shape):
    """-> (is_item, item or list of items, index_shape)"""
    shape = rshape(d)
    nd, ni = len(shape), len(item_shape)
    if nd < ni:
        for a, b in zip(shape[::-1], item_shape[::-1]):
            if a == 0 and b > 0:
                raise Bad()
        v = bcast(d, item_shape[ni - nd:])
        for t in item_shape[:ni - nd][::-1]:
            v = [v] * (1 if t == -1 else t)
        return True, v, ()

    def go(v, k):
        return bcast(v, item_shape) if k == 0 else [go(c, k - 1) for c in v]
    return nd == ni, go(d, nd - ni), shape[:nd - ni]


def norm(v):
    if torch.is_tensor(v) or isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (list, tuple)):
        return [norm(c) for c in v]
    return v


# ------------------------------------------------------------------------------------------------------ literal space

def pick_data(ch, depth, width, leaves, tag="d"):
    """any nested list of at most `depth` levels"""
    counter = [0]

    def node(d):
        n = ch.pick(tag, [None] + list(range(0, width + 1)) if d > 0 else [None])
        if n is None:
            counter[0] += 1
            return leaves[(counter[0] - 1) % len(leaves)]
        return [node(d - 1) for _ in range(n)]
    return node(depth)


def rectangular(d):
    s = rshape(d)
    return -1 not in s and 0 not in s and true_depth(d) == len(s)


def true_depth(d):
    return 1 + max([true_depth(c) for c in d] + [0]) if isinstance(d, list) else 0


def wrap(d, kind, level=0):
    if kind == "numpy":
        return np.array(d)
    if kind == "tensor":
        return torch.tensor(d)
    if kind == "object":
        a = np.empty(len(d), dtype=object)
        for i, c in enumerate(d):
            a[i] = c
        return a
    if not isinstance(d, list):
        return np.float64(d) if kind == "np leaves" else torch.tensor(d, dtype=torch.float64) if kind == "0-d leaves" else d
    ch = [wrap(c, kind, level + 1) for c in d]
    if kind == "list":
        return ch
    if kind in ("tuple", "np leaves"):
        return tuple(ch)
    if kind == "0-d leaves":
        return ch
    if kind == "mixed":
        return tuple(ch) if level % 2 == 0 else ch
    if kind == "arrays":          # leaves-level lists become numpy arrays
        return np.array(d) if ch and all(not isinstance(c, (list, np.ndarray)) for c in d) else ch
    if kind == "tensors":
        return torch.tensor(d) if ch and all(not isinstance(c, (list, np.ndarray)) for c in d) else ch
    raise KeyError(kind)


def vary(*a):
    """a result whose extent depends on the values"""
    return [7] * (len(repr([norm(v) for v in a])) % 4)


LEAVES = {"int": [3, -1, 7, 2, 9, 4], "mix": ["reflect", None, 2.5, True, "zeros"], "float": [0.5, -1.25, 3.0, 8.0]}


def data_space(tier):
    def space(ch):
        leaves = ch.pick("leaves", ("int", "mix", "float"))
        depth, width = ch.pick("size", ((3, 2), (2, 3)) if tier == "quick" else ((3, 2), (2, 3), (2, 4), (4, 2)))
        if depth == 4 and leaves != "int":
            ch.prune()
        d = pick_data(ch, depth, width, LEAVES[leaves])
        if depth == 4:
            return {"d": d, "kind": "list"}
        kinds = ["list", "tuple", "mixed"]
        if isinstance(d, list) and leaves != "mix":
            if rectangular(d):
                kinds += ["numpy", "tensor"]
            if true_depth(d) >= 2 and true_depth(d) == len(rshape(d)):
                kinds += ["arrays", "tensors"]
        if isinstance(d, list) and d:
            kinds.append("object")
        if leaves == "float":
            kinds += ["np leaves", "0-d leaves"]
        kind = ch.pick("kind", kinds)
        return {"d": d, "kind": kind}
    return space


def wide_space(tier):
    """longer lists, depth at most 2"""
    def space(ch):
        n = ch.pick("n", (3, 4, 5, 8))
        inner = ch.pick("inner", (None, (1,), (2,), (1, 2), (3, 3, 1), (2, 2, 2, 2, 2), (0, 1)))
        if inner is None:
            d = list(range(n))
        else:
            d = [list(range(10 * i, 10 * i + inner[i % len(inner)])) for i in range(n)]
        kinds = ["list", "tuple", "object"] + (["numpy", "tensor"] if rectangular(d) else [])
        return {"d": d, "kind": ch.pick("kind", kinds)}
    return space


def attempt(f, what, st, bad):
    """f must fail exactly when bad"""
    try:
        r = f()
    except (ValueError, RuntimeError) as e:
        st.check(bad, "%s: raised %s: %s" % (what, type(e).__name__, e))
        return None
    st.check(not bad, lambda: "%s: accepted as %r although it cannot be broadcast" % (what, r))
    return r


def data_run(case, st):
    d = case["d"]
    obj = wrap(d, case["kind"])
    got, shape = get_ragged_ndarray(obj)
    index_shapes(case, d, obj, st)
    st.check(norm(got) == d, lambda: "get_ragged_ndarray changed the data: %r" % (got,))
    st.check(tuple(shape) == rshape(d), lambda: "shape %s of %r, expected %s" % (shape, d, rshape(d)))
    for ishape in ITEM_SHAPES:
        what = "NdSpec(%r, item_shape=%s)" % (obj, ishape)
        try:
            ref, bad = spec(d, ishape), False
        except Bad:
            ref, bad = None, True
        x = attempt(lambda: NdSpec(obj, item_shape=list(ishape) if len(ishape) % 2 else ishape), what, st, bad)
        st.check(norm(wrap(d, "list")) == norm(obj), what + ": argument modified")
        y = attempt(lambda: expand_ragged_ndarray(got, shape, ishape), "expand " + what, st, bad)
        if bad:
            continue
        is_item, val, index_shape = ref
        st.outcome((norm(val), index_shape))
        st.check(norm(y[0]) == val, lambda: "%s: expand gave %r, expected %r" % (what, y[0], val))
        check_spec(x, is_item, val, index_shape, what, st)
        check_spec(NdSpec(x), is_item, val, index_shape, "copy of " + what, st)


def index_shapes(case, d, obj, st):
    """the index shape given instead of the item shape: every prefix of the shape, wildcards, and mismatches"""
    full = rshape(d)
    for k in range(min(len(full), 3) + 1):
        pre = full[:k]
        for wild in range(1 << k):
            ask = tuple(-1 if wild >> i & 1 else v for i, v in enumerate(pre))
            x = NdSpec(obj, index_shape=ask)
            what = "NdSpec(%r, index_shape=%s)" % (obj, ask)
            if true_depth(d) == len(full):
                check_spec(x, k == 0, d, pre, what, st)
            st.check(x.ndim == len(full) and x.item_ndim == len(full) - k and tuple(x.item_shape) == full[k:],
                     lambda: "%s: item shape %s of %s" % (what, x.item_shape, full))
        for i in range(k):
            if pre[i] == -1:
                continue
            ask = pre[:i] + (pre[i] + 1,) + pre[i + 1:]
            attempt(lambda: NdSpec(obj, index_shape=ask), "NdSpec(%r, index_shape=%s)" % (obj, ask), st, True)


def check_spec(x, is_item, val, index_shape, what, st):
    st.check(x.is_item == is_item, "%s: is_item %s" % (what, x.is_item))
    st.check(tuple(x.index_shape) == tuple(index_shape), lambda: "%s: index_shape %s, expected %s" % (
        what, x.index_shape, index_shape))
    st.check(x.index_ndim == len(index_shape), what + ": index_ndim")
    if is_item:
        st.check(len(x) == 0, what + ": length of an item")
        for i in (0, 1, -1, 7, -81):
            st.check(norm(x[i]) == val, lambda: "%s[%d] = %r, expected %r" % (what, i, x[i], val))
        st.check([norm(v) for v in x] == [val], what + ": iteration of an item")
        return
    n = index_shape[0]
    st.check(len(x) == n, "%s: length %d, expected %d" % (what, len(x), n))
    for i in range(-n, n):
        st.check(norm(x[i]) == val[i], lambda: "%s[%d] = %r, expected %r" % (what, i, x[i], val[i]))
    for i in (n, n + 3, -n - 1):
        try:
            v = x[i]
        except IndexError:
            continue
        raise Violation("%s[%d] gave %r instead of IndexError" % (what, i, v))
    st.check([norm(v) for v in x] == val, lambda: "%s: iteration gave %r" % (what, list(x)))
    if len(index_shape) == 2 and index_shape[1] > 0:
        for i in range(n):
            for j in range(index_shape[1]):
                st.check(norm(x[i, j]) == val[i][j], "%s[%d, %d]" % (what, i, j))
    if -1 not in index_shape and 0 not in index_shape:
        first = val
        for _ in index_shape:
            first = first[0]
        k = len(index_shape)
        st.check(norm(x[(0,) * k]) == first, lambda: "%s[%s] = %r" % (what, (0,) * k, x[(0,) * k]))
        for key in ((0,) * (k + 1),):
            try:
                v = x[key]
            except IndexError:
                continue
            raise Violation("%s[%s] gave %r instead of IndexError" % (what, key, v))


# -------------------------------------------------------------------------------------------- map / starmap / zip / apply

ARGS = [("item", 5), ("item", "reflect"), ("list", [1]), ("list", [4, 6]), ("list", [1, 2, 3]), ("list", []),
        ("pair_item", [8, 9]), ("pairs", [[1, 2]]), ("pairs", [[1, 2], [3, 4]]), ("pairs", [[1, 2], [3, 4], [5, 6]]),
        ("grid", [[1, 2], [3, 4]]), ("grid", [[1, 2, 3], [4, 5, 6]]), ("kernels", [[1], [2, 3], [4, 5, 6]]),
        ("kernel", [1, 2, 1]), ("grid", [[1, 2, 3]]), ("grid", [[7]]), ("grid", [[1], [2]]), ("cube", [[[1, 2]]]),
        ("cube", [[[1], [2]], [[3], [4]]]), ("table", [[[1, 2], [3, 4]]])]
ISHAPE = {"item": (), "list": (), "grid": (), "pair_item": (2,), "pairs": (2,), "kernels": (-1,), "kernel": (-1,),
          "cube": (), "table": (2,)}


def apply_space(tier):
    def space(ch):
        k = ch.pick("arity", (1, 2, 3))
        args = [ch.pick("arg", list(range(len(ARGS)))) for _ in range(k)]
        kind = ch.pick("kind", ("list", "tuple") + (("mixed",) if tier != "quick" else ()))
        f = ch.pick("f", ("tuple", "const", "str", "len", "list", "vary", "none", "array", "nested"))
        return {"args": args, "kind": kind, "f": f}
    return space


FUNCS = {"tuple": lambda *a: tuple(norm(v) if isinstance(v, (list, tuple)) else v for v in a), "const": lambda *a: 1,
         "str": lambda *a: repr([norm(v) for v in a]), "len": lambda *a: list(range(len(a))),
         "list": lambda *a: [norm(v) for v in a] + [0], "vary": vary, "none": lambda *a: None,
         "array": lambda *a: np.arange(3.0) + len(a), "nested": lambda *a: [vary(*a), [len(a)]]}


def apply_run(case, st):
    specs, nds = [], []
    for i in case["args"]:
        kind, d = ARGS[i]
        ish = ISHAPE[kind]
        nds.append(NdSpec(wrap(d, case["kind"]), item_shape=ish))
        specs.append(spec(d, ish))
    f = FUNCS[case["f"]]
    shapes = {s[2] for s in specs} - {()}
    what = "apply over %s" % ([ARGS[i][1] for i in case["args"]],)
    try:
        agg = NdSpec.agg_index_shape(*nds)
        n = NdSpec.agg_index_len(*nds)
        res = NdSpec.apply(f, *nds)
        z = NdSpec.zip(*nds)
    except ValueError as e:
        st.check(len(shapes) > 1, "%s raised ValueError: %s" % (what, e))
        st.outcome(b"reject")
        return
    st.check(len(shapes) <= 1, lambda: "%s: lists of different shapes %s accepted: %r" % (what, shapes, res))
    shape = next(iter(shapes)) if shapes else ()
    st.check(tuple(agg) == shape, "%s: aggregate shape %s, expected %s" % (what, agg, shape))
    st.check(n == (shape[0] if shape else 0), what + ": aggregate length")

    def at(s, idx):
        v = s[1]
        for i in idx if s[2] else ():
            v = v[i]
        return v

    def build(fn):
        def go(idx, dims):
            if not dims:
                return fn(*[at(s, idx) for s in specs])
            return [go(idx + (i,), dims[1:]) for i in range(dims[0])]
        return go((), shape)
    for label, out, fn in (("apply", res, f), ("zip", z, lambda *a: list(a))):
        exp = norm(build(fn))
        check_spec(out, shape == (), exp, shape, "%s %s" % (label, what), st)
        st.outcome((label, exp))
    if len(nds) == 1:
        m = nds[0].map(lambda v: f(v))
        check_spec(m, shape == (), norm(build(f)), shape, "map " + what, st)
        kind, d = ARGS[case["args"][0]]
        if kind in ("pairs", "pair_item", "kernels", "kernel", "table"):
            m = nds[0].starmap(lambda *a: [sum(a), len(a)])
            check_spec(m, shape == (), norm(build(lambda v: [sum(v), len(v)])), shape, "starmap " + what, st)


# ------------------------------------------------------------------------------------------- the ragged helpers directly

def lift_ref(d):
    """strict=False: shallower siblings are wrapped until all have the same depth"""
    if not isinstance(d, list):
        return d, 0
    if not d:
        return d, 1
    ch = [lift_ref(c) for c in d]
    m = max(c[1] for c in ch)
    out = []
    for c, k in ch:
        for _ in range(m - k):
            c = [c]
        out.append(c)
    return out, m + 1


def lift_space(tier):
    def space(ch):
        d = pick_data(ch, 3, 2, LEAVES["int"])
        return {"d": d, "kind": ch.pick("kind", ("list", "tuple"))}
    return space


def lift_run(case, st):
    d = case["d"]

    def full(v):
        return isinstance(v, list) and (not v or any(full(c) for c in v))
    got, shape = get_ragged_ndarray(wrap(d, case["kind"]), strict=False)
    exp, depth = lift_ref(d)
    st.check(len(shape) == depth, lambda: "strict=False: shape %s of %r, expected %d dimensions" % (shape, d, depth))
    if all(len(rshape(c)) == len(rshape(d)) - 1 for c in (d if isinstance(d, list) else [])):
        pass
    # only top level mixing is rewritten in the returned object; deeper levels are returned as found
    if isinstance(d, list) and d and all(lift_ref(c)[0] == c for c in d):
        st.check(norm(got) == exp, lambda: "strict=False: %r became %r, expected %r" % (d, got, exp))
    if depth and true_depth(d) == len(rshape(d)):
        for k in range(depth + 1):
            seen = []

            def f(v):
                seen.append(norm(v))
                return len(seen)
            out = apply_ragged_ndarray(wrap(d, case["kind"]), f, k)
            flat = [d]
            for _ in range(k):
                flat = [c for v in flat for c in v]
            st.check(seen == flat, lambda: "apply at depth %d visited %r, expected %r" % (k, seen, flat))
            st.outcome(norm(out))


def harnesses(tier):
    return [Harness("data", data_space(tier), data_run), Harness("wide", wide_space(tier), data_run),
            Harness("apply", apply_space(tier), apply_run), Harness("lift", lift_space(tier), lift_run)]


def bounds(tier):
    return {"data": "every nested literal of depth x width %s in up to 8 container kinds x 11 item shapes"
                    % ("3x2, 2x3" if tier == "quick" else "3x2, 2x4, 4x2"),
            "apply": "every triple of 14 arguments x 5 functions"}
