"""C04: width / window arithmetic against direct counting, over every parameter tuple up to a bound."""
import numpy as np
import torch
from torch.nn import functional as F

from torchimage.padding import Padder
from torchimage.padding.utils import pad_width_format, same_padding_width
from torchimage.shapes.conv_like import conv_1d, conv_nd, n_original_elements_1d, n_original_elements_nd

from .. import ref
from ..core import Harness
from ..util import generic

ID = "C04"
ASSUMPTIONS = ["integers beyond the bounds are decided only through the ladder values"]


def count_windows(n, k, s, d=1):
    span = d * (k - 1) + 1
    return len([i for i in range(0, n, s) if i + span <= n]) if n >= span else 0


def ints(v):
    return tuple(int(x) for x in v)


# ---------------------------------------------------------------------------------------------------------- same widths

def same_space(tier):
    kmax = 12 if tier == "quick" else 30

    def space(ch):
        return {"k": ch.pick("k", list(range(1, kmax + 1)) + [31, 64, 100]),
                "s": ch.pick("s", [None] + list(range(1, kmax + 1)) + [37, 64]), "nmax": 40 if tier == "quick" else 130}
    return space


def same_run(case, st):
    k, s = case["k"], case["s"]
    for n in list(range(1, case["nmax"])) + [255, 256, 257, 1000]:
        b, a = same_padding_width(k, s, n)
        exp = ref.same_width(k, s, n)
        assert exp == closed_width(k, k if s is None else s, n)
        st.outcome((b, a))
        st.check((b, a) == exp, "same_padding_width(%s,%s,%s) = %s, expected %s" % (k, s, n, (b, a), exp))
        st.check(isinstance(b, int) and isinstance(a, int), "same_padding_width: not integers")
        st.check((b, a) == tuple(same_padding_width(kernel_size=k, stride=s, in_size=n)), "keyword call differs")
    if s == 1:
        st.check(tuple(same_padding_width(k)) == ref.same_width(k), "same_padding_width(%d)" % k)
        st.check(tuple(same_padding_width(k, 1)) == ref.same_width(k), "same_padding_width(%d,1)" % k)
    else:
        try:
            r = same_padding_width(k, s)
        except ValueError:
            return
        st.check(False, "same_padding_width(%s,%s) without in_size gave %s" % (k, s, r))


# ---------------------------------------------------------------------------------------------------------- output size

def conv_space(tier):
    kmax, smax, dmax = (7, 6, 5) if tier == "quick" else (12, 9, 8)

    def space(ch):
        return {"k": ch.pick("k", list(range(1, kmax + 1)) + [16]), "s": ch.pick("s", list(range(1, smax + 1)) + [11]),
                "d": ch.pick("d", list(range(1, dmax + 1)))}
    return space


def conv_run(case, st):
    k, s, d = case["k"], case["s"], case["d"]
    span = d * (k - 1) + 1
    for n in list(range(span, span + 3 * s + 8)) + [span + 97, span + 1000]:
        got = conv_1d(n, k, s, d)
        st.outcome((n, int(got)))
        st.check(got == count_windows(n, k, s, d), "conv_1d(%d,%d,%d,%d) = %s, expected %d" % (
            n, k, s, d, got, count_windows(n, k, s, d)))


# ------------------------------------------------------------------------------------------------------- huge integers

HUGE = (10 ** 4 + 7, 10 ** 6 + 3, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 25 + 7, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5,
        2 ** 53 - 1, 2 ** 53 + 1, 2 ** 53 + 3, 2 ** 60 + 11, 2 ** 62 + 1)


def closed_width(k, s, n):
    """ref.same_width without its search (the two are compared in the `same` harness)"""
    total = max((-(-n // s) - 1) * s + k - n, 0)
    return total - total // 2, total // 2


def huge_space(tier):
    def space(ch):
        return {"n": ch.pick("n", HUGE), "dn": ch.pick("dn", (0, 1, 2, 3, 4, 5, 6, 7))}
    return space


def huge_run(case, st):
    """counting window positions one at a time is too slow here: the last position is verified to fit, the next not to"""
    n = case["n"] + case["dn"]
    for k in (1, 2, 3, 4, 5, 17, n // 2, n // 2 + 1, n - 1, n):
        for s in (1, 2, 3, 7, 16, n // 2, n - 1, n, n + 1):
            for d in (1, 2, 3, 5):
                span = d * (k - 1) + 1
                if span > n:
                    continue
                m = conv_1d(n, k, s, d)
                st.check(m == int(m) and int(m) >= 1, "conv_1d(%d,%d,%d,%d) = %s" % (n, k, s, d, m))
                m = int(m)
                st.check((m - 1) * s + span <= n < m * s + span, "conv_1d(%d,%d,%d,%d) = %d windows" % (n, k, s, d, m))
                out = [int(v) for v in conv_nd([n, n + 1], k, [s, s], [d, d])]
                st.check(out == [m, int(conv_1d(n + 1, k, s, d))], "conv_nd differs from conv_1d at %d: %s" % (n, out))
            exp = closed_width(k, s, n)
            got = tuple(same_padding_width(k, s, n))
            st.outcome(exp)
            st.check(got == exp, "same_padding_width(%d,%d,%d) = %s, expected %s" % (k, s, n, got, exp))
        st.check(tuple(same_padding_width(k)) == (k - 1 - (k - 1) // 2, (k - 1) // 2), "same_padding_width(%d)" % k)


ND = [3, 7, [5], [5, 9], [9, 5], [8, 5, 6]]
NK = [1, 2, 3, [2], [3, 1], [1, 3], [2, 3, 1]]
NS = [1, 2, [1], [2, 1], [1, 3], [1, 2, 3]]
NDL = [1, [1], [2, 1], [1, 2], [1, 1, 2]]


def convnd_space(tier):
    def space(ch):
        n, k, s, d = ch.pick("n", ND), ch.pick("k", NK), ch.pick("s", NS), ch.pick("d", NDL)
        if len({len(v) for v in (n, k, s, d) if isinstance(v, list)}) > 1:
            ch.prune()
        return {"n": n, "k": k, "s": s, "d": d, "kind": ch.pick("kind", ("list", "tuple"))}
    return space


def at(v, i):
    return v[i] if isinstance(v, list) else v


def convnd_run(case, st):
    vs = [case[c] for c in "nksd"]
    m = max([len(v) for v in vs if isinstance(v, list)] + [0])
    args = [tuple(v) if isinstance(v, list) and case["kind"] == "tuple" else v for v in vs]
    exp = []
    for i in range(max(m, 1)):
        n, k, s, d = (at(v, i) for v in vs)
        if n < d * (k - 1) + 1:
            return
        exp.append(count_windows(n, k, s, d))
    out = conv_nd(*args)
    for i in range(max(m, 1)):
        st.check(out[i] == exp[i], "conv_nd%s[%d] = %s, expected %s" % (args, i, out[i], exp[i]))
    st.check(len(out) == m, "conv_nd%s has length %d" % (args, len(out)))
    st.outcome(exp)


# ------------------------------------------------------------------------------------------------ original-element counts

def orig_ref(n, b, a, k, s):
    present = [0] * b + [1] * n + [0] * a
    return [sum(present[i:i + k]) for i in range(0, len(present) - k + 1, s)]


def orig_space(tier):
    nmax, pmax, kmax = (7, 7, 7) if tier == "quick" else (11, 11, 11)

    def space(ch):
        return {"n": ch.pick("n", list(range(1, nmax + 1))), "b": ch.pick("b", list(range(0, pmax + 1))),
                "a": ch.pick("a", list(range(0, pmax + 1))), "kmax": kmax}
    return space


def orig_run(case, st):
    n, b, a = case["n"], case["b"], case["a"]
    for k in range(1, case["kmax"] + 1):
        for s in range(1, case["kmax"] + 3):
            got = n_original_elements_1d(n, (b, a), k, s)
            exp = orig_ref(n, b, a, k, s)
            st.outcome(exp)
            st.check(list(ints(got)) == exp, "n_original_elements_1d(%d,(%d,%d),%d,%d) = %s, expected %s" % (
                n, b, a, k, s, list(got), exp))


def origbig_space(tier):
    def space(ch):
        return {"n": ch.pick("n", (1, 2, 15, 16, 31, 33, 64, 100, 255)), "k": ch.pick("k", (1, 2, 3, 8, 16, 17, 33, 64)),
                "s": ch.pick("s", (1, 2, 3, 7, 8, 16, 33, 70))}
    return space


def origbig_run(case, st):
    n, k, s = case["n"], case["k"], case["s"]
    for b, a in ((0, 0), (1, 1), (8, 7), (16, 16), (40, 3), (3, 40), (100, 100), ref.same_width(k, s, n)):
        got = list(ints(n_original_elements_1d(n, (b, a), k, s)))
        exp = orig_ref(n, b, a, k, s)
        st.outcome(exp)
        st.check(got == exp, "n_original_elements_1d(%d,(%d,%d),%d,%d) = %s, expected %s" % (n, b, a, k, s, got, exp))


def orignd_space(tier):
    def space(ch):
        m = ch.pick("ndim", (1, 2, 3))
        n = ch.pick("n", {1: [[4], [1]], 2: [[3, 5], [4, 4], [1, 6]], 3: [[2, 3, 4], [5, 1, 2]]}[m])
        w = ch.pick("w", [[1, 1], [0, 2], [[1, 2], [0, 0], [3, 1]][:m], [[2, 2], [1, 0], [0, 0]][:m]])
        k = ch.pick("k", [1, 2, 3, [3, 2, 1][:m], [1, 2, 3][:m]])
        s = ch.pick("s", [1, 2, [2, 1, 3][:m], [1, 3, 2][:m]])
        return {"n": n, "w": w, "k": k, "s": s, "dt": ch.pick("dt", (None, "float64", "float32"))}
    return space


def orignd_run(case, st):
    n, w, k, s = case["n"], case["w"], case["k"], case["s"]
    exp = np.ones(())
    for i in range(len(n)):
        b, a = w[i] if isinstance(w[0], list) else w
        if at(k, i) > n[i] + a + b:
            return
        exp = np.multiply.outer(exp, np.array(orig_ref(n[i], b, a, at(k, i), at(s, i)), dtype=float))
    kw = {} if case["dt"] is None else {"dtype": getattr(torch, case["dt"])}
    out = n_original_elements_nd(in_size=n, pad_width=w, kernel_size=k, stride=s, **kw)
    st.same(out.double(), exp, "n_original_elements_nd(%s,%s,%s,%s)" % (n, w, k, s), rtol=0, atol=0)
    if case["dt"]:
        st.check(out.dtype == kw["dtype"], "element type %s" % out.dtype)


# ------------------------------------------------------------------------------------------------------ width formats

def fmt_space(tier):
    def space(ch):
        m = ch.pick("m", (1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
        opts = ([0, 0], [1, 2], [3, 0], [0, 2]) if m < 4 else ([0, 0], [1, 2], [3, 1])
        w = [ch.pick("w", opts) for _ in range(m)]
        return {"w": w, "extra": ch.pick("extra", (0, 1, 2)), "kind": ch.pick("kind", ("tuple", "list"))}
    return space


def fmt_run(case, st):
    w = case["w"]
    m = len(w)
    nd = m + case["extra"]
    arg = [list(v) for v in w] if case["kind"] == "list" else tuple(tuple(v) for v in w)
    t = pad_width_format(arg, source="numpy", target="torch")
    flat = tuple(x for pair in w[::-1] for x in pair)
    st.outcome(flat)
    st.check(ints(t) == flat, "numpy->torch %s gave %s" % (w, t))
    back = pad_width_format(t, source="torch", target="numpy", ndim=nd)
    exp = ((0, 0),) * case["extra"] + tuple(tuple(v) for v in w)
    st.check(tuple(ints(v) for v in back) == exp, "torch->numpy %s gave %s, expected %s" % (t, back, exp))
    again = pad_width_format(list(t), source="torch", target="numpy", ndim=m)
    st.check(tuple(ints(v) for v in again) == exp[case["extra"]:], "torch->numpy (list) gave %s" % (again,))
    st.check(pad_width_format(arg, source="numpy", target="numpy") == arg, "identity conversion changed its input")
    st.check(pad_width_format(t, source="torch", target="torch") == t, "identity conversion changed its input")
    # both describe the same padding
    x = generic(tuple(range(2, 2 + nd)))
    a = np.pad(x, back)
    st.same(F.pad(torch.tensor(x), tuple(t)), a, "the torch widths pad differently from the numpy widths")
    st.same(Padder(pad_width=[tuple(v) for v in back], mode="constant").forward(torch.tensor(x), axes=None), a,
            "the padder pads differently")


def harnesses(tier):
    return [Harness("same", same_space(tier), same_run), Harness("conv", conv_space(tier), conv_run),
            Harness("huge", huge_space(tier), huge_run),
            Harness("conv_nd", convnd_space(tier), convnd_run), Harness("original", orig_space(tier), orig_run),
            Harness("original_big", origbig_space(tier), origbig_run),
            Harness("original_nd", orignd_space(tier), orignd_run), Harness("format", fmt_space(tier), fmt_run)]


def bounds(tier):
    return {"same": "k, s up to %d, n up to %d and ladder" % ((12, 39) if tier == "quick" else (30, 129)),
            "huge": "sizes around 1e4, 1e6, 2^24, 2^25, 2^31, 2^32, 2^53, 2^60, 2^62",
            "original": "n, before, after, k up to %d, s up to k+2" % (7 if tier == "quick" else 11)}
