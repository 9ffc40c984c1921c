"""C06: Gaussian kernels against the closed form; Gaussian pooling axis by axis."""
import math

import numpy as np
import torch

from torchimage.pooling import GaussianPoolNd
from torchimage.pooling.gaussian import gaussian_kernel_1d

from .. import ref
from ..core import Harness
from ..util import generic, lay, ordered_subsets

ID = "C06"
ASSUMPTIONS = ["sigma ranges over a finite ladder; between ladder points the kernel is an analytic function of sigma"]
SIGMAS = (0.1, 0.3, 0.5, 0.75, 0.8, 1, 1.0, 1.5, 2, 3.7, 10, 100.0)


def kernel_space(tier):
    def space(ch):
        return {"k": ch.pick("k", list(range(1, 20 if tier == "quick" else 41)) + [51, 64, 101]),
                "sigma": ch.pick("sigma", SIGMAS if tier == "quick" else SIGMAS + tuple(
                    round(0.05 * 1.37 ** i, 4) for i in range(26))),
                "orders": 7 if tier == "quick" else 10}
    return space


def kernel_run(case, st):
    k, sigma = case["k"], case["sigma"]
    for order in range(case["orders"]):
        got = np.array(gaussian_kernel_1d(kernel_size=k, sigma=sigma, order=order), dtype=float)
        exp = ref.gaussian_kernel(k, float(sigma), order)
        scale = max(np.abs(exp).max(), 1e-300)
        what = "gaussian_kernel_1d(%d, %s, %d)" % (k, sigma, order)
        st.same(got, exp, what, rtol=1e-7, atol=1e-9 * max(scale, 1))
        st.same(np.array(gaussian_kernel_1d(k, sigma, order)), exp, what + " positional", rtol=1e-7,
                atol=1e-9 * max(scale, 1), count=False)
        # defining characteristics, independent of the closed form
        if order == 0:
            st.check(abs(got.sum() - 1) < 1e-9, "%s sums to %r" % (what, got.sum()))
            st.check((got >= 0).all(), what + " has a negative weight")
        if k % 2:
            st.same(got[::-1], (-1) ** order * got, what + " parity", atol=1e-9 * max(scale, 1), count=False)
        xs = np.arange(k) - k // 2
        if order == 1 and k > 1 and 0.3 < sigma:
            st.check((got * xs).sum() > 0, "%s responds negatively to a rising ramp" % what)
        if sigma <= k / 10 and sigma >= 0.8 and k % 2 and order in (1, 2, 3):
            resp = (got * xs.astype(float) ** order).sum()
            st.check(abs(resp - math.factorial(order)) < 0.05 * math.factorial(order),
                     "%s: response %r to x^%d" % (what, resp, order))


PS = {"k": (3, 4, 1, [3, 5], [4, 1], [5, 3, 2]), "sigma": (0.8, 1.5, [0.6, 1.4], [2.0, 0.7, 1.1]),
      "order": (0, 1, 2, 5, [0, 1], [1, 0], [4, 3], [2, 0, 1])}


def pool_space(tier):
    def space(ch):
        ndim = ch.pick("ndim", (2, 3))
        axes = ch.pick("axes", ordered_subsets(ndim))
        m = len(axes)
        c = {"ndim": ndim, "axes": list(axes)}
        for name, opts in PS.items():
            c[name] = ch.pick(name, [o for o in opts if not isinstance(o, list) or len(o) == m])
        c["stride"] = ch.pick("stride", (None, 1, 2))
        c["mode"] = ch.pick("mode", (None, "reflect", "constant"))
        return c
    return space


def at(v, i):
    return v[i] if isinstance(v, list) else v


def pool_run(case, st):
    x = generic((6, 7, 5)[:case["ndim"]])
    axes = tuple(case["axes"])
    ks = [ref.gaussian_kernel(at(case["k"], i), at(case["sigma"], i), at(case["order"], i)) for i in range(len(axes))]
    pool = GaussianPoolNd(case["k"], case["sigma"], case["order"], case["stride"], same_padder=case["mode"])
    if case["mode"] is None and any(len(k) > x.shape[a] for k, a in zip(ks, axes)):
        return
    out = pool.forward(lay(x), axes=axes)
    st.same(out, ref.pool(x, axes, ks, [case["stride"]] * len(axes), case["mode"]), "Gaussian pooling", rtol=1e-7,
            atol=1e-7)


def image_space(tier):
    def space(ch):
        return {"k": ch.pick("k", (3, 7, 8, 11, 15, 16, 21, 31)), "sigma": ch.pick("sigma", (0.5, 1.5, 4.0)),
                "order": ch.pick("order", (0, 1, 2, 3, 4, 6)), "shape": list(ch.pick("shape", ((1, 3, 32, 33), (2, 1, 65, 20)))),
                "filter": ch.pick("filter", (None, "reflect", "symmetric", "smooth"))}
    return space


def image_run(case, st):
    x = generic(case["shape"])
    if case["filter"] is None and case["k"] > min(case["shape"][2:]):
        return  # the window does not fit
    k = ref.gaussian_kernel(case["k"], case["sigma"], case["order"])
    pool = GaussianPoolNd(case["k"], case["sigma"], case["order"]).to_filter(case["filter"])
    st.same(pool.forward(lay(x)), ref.pool(x, [2, 3], [k, k], [1, 1], case["filter"]), "Gaussian filter", rtol=1e-7,
            atol=1e-7)


def harnesses(tier):
    return [Harness("kernel", kernel_space(tier), kernel_run), Harness("pool", pool_space(tier), pool_run),
            Harness("image", image_space(tier), image_run)]


def bounds(tier):
    return {"kernel": "sizes 1..%d and 51,64,101, %d sigmas, orders 0..%d" % ((19, 12, 6) if tier == "quick" else (40, 38, 9))}
