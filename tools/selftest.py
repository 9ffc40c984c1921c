"""
setup_cmd: needs nothing built; validates the reference models (mc/ref.py) against independent implementations that
are part of the toolchain (numpy.pad, pywt.pad, torch.nn.functional), and the explorer against brute force, before any
of them is used as an oracle.  Does not import torchimage, so a change of /repo cannot affect it.
"""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import pywt
import torch
import torch.nn.functional as F

from mc import core, ref

count = {}


def eq(tag, a, b, tol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (tag, a.shape, b.shape)
    assert np.allclose(a, b, rtol=tol, atol=tol), (tag, a, b)
    count[tag] = count.get(tag, 0) + 1


def padding():
    npm = {"replicate": dict(mode="edge"), "circular": dict(mode="wrap"), "symmetric": dict(mode="symmetric"),
           "reflect": dict(mode="reflect"), "odd_reflect": dict(mode="reflect", reflect_type="odd"),
           "odd_symmetric": dict(mode="symmetric", reflect_type="odd"), "zeros": dict(mode="constant"),
           "maximum": dict(mode="maximum"), "mean": dict(mode="mean"), "minimum": dict(mode="minimum")}
    pw = {"smooth": "smooth", "symmetric": "symmetric", "antisymmetric": "antisymmetric", "reflect": "reflect",
          "odd_reflect": "antireflect", "circular": "periodic", "replicate": "constant", "zeros": "zero",
          "periodize": "periodization"}
    for n in range(1, 7):
        x = np.array([3., -1., 4., 1.5, -5., 9.])[:n]
        for b, a in itertools.product(range(0, 8), repeat=2):
            for m, kw in npm.items():
                if m in ("reflect", "odd_reflect", "odd_symmetric") and n == 1:
                    continue
                eq("np:" + m, ref.pad_axis(x, 0, b, a, m), np.pad(x, (b, a), **kw))
            eq("np:constant", ref.pad_axis(x, 0, b, a, "constant", constant=(7., -2.)),
               np.pad(x, (b, a), "constant", constant_values=(7., -2.)))
            eq("np:linear_ramp", ref.pad_axis(x, 0, b, a, "linear_ramp", end=(7., -2.)),
               np.pad(x, (b, a), "linear_ramp", end_values=(7., -2.)))
            for s in (1, 2, n):
                if s <= n and (a or b):
                    for m in ("maximum", "minimum", "mean"):
                        eq("np:stat", ref.pad_axis(x, 0, b, a, m, stat=(s, n)),
                           np.pad(x, (b, a), m, stat_length=(s, n)))
                    eq("torch:median", ref.pad_axis(x, 0, b, a, "median", stat=(s, s)),
                       np.concatenate([[torch.tensor(x[:s]).median().item()] * b, x,
                                       [torch.tensor(x[n - s:]).median().item()] * a]))
            for m, p in pw.items():
                if n == 1 and m in ("reflect", "odd_reflect", "smooth"):
                    continue
                if m == "periodize" and not (a or b):
                    continue
                eq("pywt:" + m, ref.pad_axis(x, 0, b, a, m), pywt.pad(x, (b, a), p))


def windows():
    for n, k, s in itertools.product(range(1, 9), range(1, 6), range(1, 6)):
        b, a = ref.same_width(k, s, n)
        assert b - a in (0, 1)
        got = (n + b + a - k) // s + 1
        assert got >= -(-n // s)
        if k <= n:
            x, w = np.arange(n) ** 2 + 1.0, np.arange(k) * 3.0 - 1
            eq("conv1d", ref.correlate_dense(x, [0], [w], [s]),
               F.conv1d(torch.tensor(x)[None, None], torch.tensor(w)[None, None], stride=s)[0, 0])
    g = np.random.RandomState(0)
    for h, w, kh, kw, s in itertools.product((4, 5), (4, 6), (1, 2, 3), (2, 3), (1, 2)):
        x, a, b = g.randn(h, w), g.randn(kh), g.randn(kw)
        eq("conv2d", ref.correlate_dense(x, [0, 1], [a, b], [s, 1]),
           F.conv2d(torch.tensor(x)[None, None], torch.tensor(np.outer(a, b))[None, None], stride=(s, 1))[0, 0])
        eq("conv2d-axes", ref.correlate_dense(x, [1, 0], [b, a], [1, s]),
           F.conv2d(torch.tensor(x)[None, None], torch.tensor(np.outer(a, b))[None, None], stride=(s, 1))[0, 0])


def gauss():
    # the analytic derivative at every sample, by central differences of the lower order in high resolution
    for r, s, o in itertools.product((1, 2, 4), (0.7, 1.0, 2.5), (0, 1, 2, 3)):
        k = ref.gaussian_kernel(2 * r + 1, s, o)
        xs = np.arange(-r, r + 1.0)
        z = np.exp(-xs ** 2 / (2 * s * s)).sum()
        t = torch.tensor(xs, requires_grad=True)
        y = torch.exp(-t ** 2 / (2 * s * s)) / z
        for _ in range(o):
            y, = torch.autograd.grad(y.sum(), t, create_graph=True)
        eq("gauss", k[::-1], y.detach().numpy())
        e = ref.gaussian_kernel(2 * r, s, o)
        assert len(e) == 2 * r
        eq("gauss-even", e / np.abs(e).sum(), k[:2 * r] / np.abs(k[:2 * r]).sum())


def bayer():
    g = np.random.RandomState(1)
    for h, w, ci, co in itertools.product((4, 6), (4, 8), (1, 2), (1, 3)):
        x, wt = g.randn(2, ci, h, w), g.randn(co, ci, 5, 5)
        p = F.pad(torch.tensor(x), (2, 2, 2, 2), mode="reflect")
        eq("bayer", ref.centred_correlate_reflect(x, wt), F.conv2d(p, torch.tensor(wt)))
    for a in ref.ALIGNMENTS:
        m = sum(ref.site_mask(a, 4, 4, s).astype(int) for s in ("R", "B", "GR", "GB"))
        assert (m == 1).all()
        f = ref.site_filters()
        for (c, s), k in f.items():               # constant-colour images: every filter has gain one
            # taps sit on sensor sites; for a constant grey image the filter gain must be 1
            assert abs(k.sum() - 1) < 1e-12, (c, s)
    assert abs(ref.pixels_per_degree(1000 * math.hypot(2, 2 * 16 / 9), 9, 16, 1 / math.tan(math.radians(.5))) - 9) < 1e-9


def ssim():
    g = np.random.RandomState(2)
    k = ref.gaussian_kernel(5, 1.5, 0)
    a, b = g.rand(9, 9), g.rand(9, 9)
    for cov in (False, True):
        f, c = ref.ssim_maps(a, b, [0, 1], [k, k], None, .01, .03, cov)
        # direct: one window at a time
        w = np.outer(k, k)
        for i in range(5):
            for j in range(5):
                p, q = a[i:i + 5, j:j + 5], b[i:i + 5, j:j + 5]
                m1, m2 = (p * w).sum(), (q * w).sum()
                n = 25 / 24 if cov else 1
                v1, v2 = n * (w * (p - m1) ** 2).sum(), n * (w * (q - m2) ** 2).sum()
                v12 = n * (w * (p - m1) * (q - m2)).sum()
                eq("ssim", f[i, j], (2 * m1 * m2 + 1e-4) * (2 * v12 + 9e-4) /
                   ((m1 ** 2 + m2 ** 2 + 1e-4) * (v1 + v2 + 9e-4)), 1e-7)


def explorer():
    def space(ch):
        a = ch.pick("a", [0, 1, 2])
        if a == 1:
            return (a, ch.pick("b", [0, 1]))
        b, c = ch.pick("b", [0, 1, 2]), ch.pick("c", [0, 1], dev=True)
        return (a, b, c)
    got = [c for _, c in core.enumerate_space(space)]
    want = [(a, b, c) for a in (0, 2) for b in range(3) for c in range(2)] + [(1, 0), (1, 1)]
    assert sorted(map(str, got)) == sorted(map(str, want)) and len(set(got)) == len(got)
    zero = [c for _, c in core.enumerate_space(space, budget=0)]
    assert sorted(map(str, zero)) == sorted(str(w) for w in want if len(w) == 2 or w[2] == 0)
    for ch, c in core.enumerate_space(space):
        assert core.replay_choices(space, ch) == c


if __name__ == "__main__":
    for f in (padding, windows, gauss, bayer, ssim, explorer):
        f()
    print("selftest ok:", ", ".join("%s=%d" % kv for kv in sorted(count.items())))
