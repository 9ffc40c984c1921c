"""
C17: random crops under every answer of the random source; noise models as functions of the generator.

The crop harness owns the random source: torch.randint / torch.rand / torch.randperm ask the explorer, which enumerates
every answer the real function could give (for rand: a grid that includes both ends).  A second harness leaves the
source alone and drives it through the states of real generators.
"""
import itertools
import math

import numpy as np
import torch

from torchimage.random import add_gauss_noise, add_poisson_gauss_noise, random_crop

from .. import ref
from ..core import Chooser, Harness, HarnessError, enumerate_space
from ..util import DT, LAYOUTS, generic, lay, ordered_subsets, spell_axes, spellings, unit

ID = "C17"
ASSUMPTIONS = ["the statistics of torch's own normal and Poisson generators are torch's affair; the checks pin how their draws "
               "enter the result", "only enumerated answers of the random source are intercepted; other sources are covered by the "
               "generator-state harness"]


class Source:
    """stand-in for the random functions of torch, answering from a Chooser"""
    def __init__(self, ch):
        self.ch, self.calls = ch, 0

    def answer(self, n, size):
        count = int(np.prod(tuple(size), dtype=int)) if len(tuple(size)) else 1
        if n <= 0:
            raise RuntimeError("random_ expects 'from' to be less than 'to'")
        out = []
        for _ in range(count):
            self.calls += 1
            out.append(self.ch.pick("answer", range(n)))
        return out

    def randint(self, *a, **k):
        k = dict(k)
        k.pop("generator", None)
        size = k.pop("size", None)
        low, high = k.pop("low", None), k.pop("high", None)
        a = list(a)
        if size is None:
            size = a.pop()
        if high is None:
            high = a.pop()
        if low is None:
            low = a.pop() if a else 0
        v = self.answer(int(high) - int(low), size)
        return torch.tensor(v, dtype=k.get("dtype") or torch.int64).reshape(tuple(size)) + int(low)

    GRID = (0.0, 0.25, 0.5, 0.75, 1 - 2 ** -24)

    def rand(self, *size, **k):
        if len(size) == 1 and not isinstance(size[0], int):
            size = tuple(size[0])
        size = tuple(k.get("size", size))
        v = [self.GRID[i] for i in self.answer(len(self.GRID), size)]
        return torch.tensor(v, dtype=k.get("dtype") or torch.get_default_dtype()).reshape(size)

    def randperm(self, n, **k):
        rest = list(range(n))
        out = []
        while rest:
            self.calls += 1
            out.append(rest.pop(self.ch.pick("answer", range(len(rest)))))
        return torch.tensor(out, dtype=torch.int64)

    def __enter__(self):
        self.saved = torch.randint, torch.rand, torch.randperm
        torch.randint, torch.rand, torch.randperm = self.randint, self.rand, self.randperm
        return self

    def __exit__(self, *a):
        torch.randint, torch.rand, torch.randperm = self.saved


def size_options(n):
    return [None] + list(range(1, n + 1))


def crop_space(tier):
    shapes = ((3,), (2, 3), (4, 3), (3, 2, 4)) if tier == "quick" else ((5,), (2, 3), (5, 4), (3, 4, 5), (2, 3, 2, 3), (1, 6, 6))

    def space(ch):
        shape = ch.pick("shape", shapes)
        axes = ch.pick("axes", ordered_subsets(len(shape), 3))
        how = ch.pick("how", spellings(len(shape), axes))
        if ch.pick("one", (False, True)):
            lo = min(shape[a] for a in axes)
            size = ch.pick("size", size_options(lo))
            return {"shape": list(shape), "axes": list(axes), "how": how, "size": size}
        return {"shape": list(shape), "axes": list(axes), "how": how,
                "size": [ch.pick("size", size_options(shape[a])) for a in axes]}
    return space


def per_axis(case):
    s = case["size"]
    return s if isinstance(s, list) else [s] * len(case["axes"])


def offsets_of(out, x, shape, sizes, st):
    """where the block came from; checks that it is one"""
    want = tuple(shape[a] if sizes.get(a) is None else sizes[a] for a in range(len(shape)))
    st.check(tuple(out.shape) == want, "crop has shape %s, expected %s" % (tuple(out.shape), want))
    first = int(out.reshape(-1)[0])
    beg = np.unravel_index(first, shape)
    st.check(all(b + w <= n for b, w, n in zip(beg, want, shape)), "block starts at %s" % (beg,))
    exp = x[tuple(slice(b, b + w) for b, w in zip(beg, want))]
    st.check(np.array_equal(out.numpy(), exp), "not a contiguous block of the input")
    return tuple(int(b) for b in beg)


def crop_run(case, st):
    shape, axes = tuple(case["shape"]), tuple(case["axes"])
    x = np.arange(int(np.prod(shape))).reshape(shape)
    sizes = dict(zip(axes, per_axis(case)))
    for a, s in sizes.items():
        if s is None:
            continue
    seen = set()
    calls = 0
    results = {}
    layout = LAYOUTS[len(axes) % 4]
    # explore every answer of the source
    prefix = ()
    while True:
        ch = Chooser(prefix)
        with Source(ch) as src:
            t = lay(x, layout, torch.int64)
            keep = t.clone()
            size = case["size"]
            out = random_crop(t, spell_axes(len(shape), axes, case["how"]), size if not isinstance(size, list) else list(size))
        calls += src.calls
        st.states += 1 + len(ch.trace)
        st.transitions += len(ch.trace)
        st.check(torch.equal(t, keep), "the input was modified")
        beg = offsets_of(out, x, shape, sizes, st)
        seen.add(beg)
        st.outcome((shape, axes, beg, tuple(out.shape)))
        tr = ch.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            break
        prefix = tuple(c for c, _ in tr[:i]) + (tr[i][0] + 1,)
    want = set(itertools.product(*[range(n - (sizes.get(a) or n) + 1) for a, n in enumerate(shape)]))
    if calls == 0:
        st.note("crops_without_intercepted_draws")
        return
    st.check(seen == want, "offsets never reached: %s; invalid: %s" % (sorted(want - seen)[:4], sorted(seen - want)[:4]))


# ------------------------------------------------------------------------------------------------ real generators

SEEDS = 260


def real_space(tier):
    def space(ch):
        shape = ch.pick("shape", ((4,), (3, 4), (2, 3, 4)))
        axes = ch.pick("axes", ordered_subsets(len(shape), 2))
        return {"shape": list(shape), "axes": list(axes), "size": [ch.pick("size", [None] + list(range(max(1, shape[a] - 2), shape[a] + 1)))
                                                                    for a in axes]}
    return space


def real_run(case, st):
    shape, axes = tuple(case["shape"]), tuple(case["axes"])
    x = np.arange(int(np.prod(shape))).reshape(shape)
    sizes = dict(zip(axes, case["size"]))
    want = set(itertools.product(*[range(n - (sizes.get(a) or n) + 1) for a, n in enumerate(shape)]))
    seen = set()
    t = lay(x, dtype=torch.int64)
    for seed in range(SEEDS):
        torch.manual_seed(1000 - seed)
        before = torch.get_rng_state()
        outs = []
        for other in (0, 1):
            if other:
                torch.manual_seed(5 + seed)
                before = torch.get_rng_state()
            g = torch.Generator().manual_seed(seed)
            outs.append(random_crop(t, axes, list(case["size"]), generator=g))
            st.check(torch.equal(torch.get_rng_state(), before), "the global random state is touched")
        st.check(torch.equal(*outs), "the crop depends on more than the generator's state")
        seen.add(offsets_of(outs[0], x, shape, sizes, st))
        st.states += 1
        # without a generator: reproducible from the global state
        if seed < 3:
            torch.manual_seed(seed)
            a = random_crop(t, axes, list(case["size"]))
            torch.manual_seed(seed)
            st.check(torch.equal(a, random_crop(t, axes, list(case["size"]))), "not reproducible from the global state")
            offsets_of(a, x, shape, sizes, st)
        if seen == want and seed >= 6:
            break
    st.outcome((shape, axes, tuple(case["size"]), tuple(sorted(seen))))
    st.check(seen == want, "offsets never reached over %d generator states: %s" % (SEEDS, sorted(want - seen)[:5]))


def large_space(tier):
    def space(ch):
        shape = ch.pick("shape", ((65, 64), (2, 3, 40, 37), (1000,), (3, 300)))
        axes = ch.pick("axes", [a for a in ordered_subsets(len(shape), 2)])
        return {"shape": list(shape), "axes": list(axes), "size": [ch.pick("size", (None, 1, "half", "full-1", "full")) for _ in axes]}
    return space


def large_run(case, st):
    """big images: both extremes and the middle of what the source can answer, and real generator states"""
    shape, axes = tuple(case["shape"]), tuple(case["axes"])
    n = [shape[a] for a in axes]
    size = [{None: None, 1: 1, "half": v // 2, "full-1": max(v - 1, 1), "full": v}[s] for s, v in zip(case["size"], n)]
    x = np.arange(int(np.prod(shape))).reshape(shape)
    t = lay(x, dtype=torch.int64)
    sizes = dict(zip(axes, size))
    room = {a: shape[a] - (s or shape[a]) for a, s in sizes.items()}
    seen = []
    for seed in range(8):
        out = random_crop(t, axes, list(size), generator=torch.Generator().manual_seed(seed * 77))
        seen.append(offsets_of(out, x, shape, sizes, st))
        st.outcome((shape, axes, seen[-1]))
    for a, r in room.items():
        if r >= 20:
            st.check(len({s[a] for s in seen}) > 1, "eight generator states give one offset along axis %d out of %d" % (a, r + 1))

    class Extreme(Source):
        def __init__(self, which):
            self.which, self.calls = which, 0

        def answer(self, m, sz):
            self.calls += 1
            return [int(self.which * (m - 1))] * (int(np.prod(tuple(sz), dtype=int)) if len(tuple(sz)) else 1)
    for which in (0.0, 1.0, 0.5):
        with Extreme(which) as src:
            out = random_crop(t, axes, list(size))
        beg = offsets_of(out, x, shape, sizes, st)
        if src.calls and which < 1 and which != 0.5:
            st.outcome((which, beg))


# ------------------------------------------------------------------------------------------------------------ noise

def noise_space(tier):
    def space(ch):
        return {"model": ch.pick("model", ("gauss", "poisson")), "shape": list(ch.pick("shape", ((5,), (2, 3, 4), (), (0,), (1, 1)))),
                "dt": ch.pick("dt", ("f64", "f32")), "seed": ch.pick("seed", tuple(range(6 if tier == "quick" else 40))),
                "layout": ch.pick("layout", LAYOUTS[:4]), "k": ch.pick("k", (1.0, 0.01, 3.5)), "global": ch.pick("global", (False, True))}
    return space


SIGMAS = (0, 0.5, 1, 2.0, 1e-3)


def noise_run(case, st):
    shape, dt, k = tuple(case["shape"]), DT[case["dt"]], case["k"]
    x = unit(shape) * 40 + (0.5 if case["model"] == "poisson" else -20.5)
    eps = 1e-9 if case["dt"] == "f64" else 1e-4

    def draw(content, sigma, kk=k, lay_=case["layout"]):
        t = torch.tensor(content).to(dt) if len(shape) == 0 else lay(content, lay_, dt)
        keep = t.clone()
        if case["global"]:
            torch.manual_seed(case["seed"])
            kw = {}
        else:
            torch.manual_seed(int(sigma * 10) + 99)             # must not matter
            kw = {"generator": torch.Generator().manual_seed(case["seed"])}
        before = torch.get_rng_state()
        out = add_gauss_noise(t, sigma, **kw) if case["model"] == "gauss" else add_poisson_gauss_noise(t, kk, sigma, **kw)
        if not case["global"]:
            st.check(torch.equal(torch.get_rng_state(), before), "the global random state is touched")
        st.check(torch.equal(t, keep), "the input was modified")
        st.check(out.dtype == dt and out.shape == t.shape, "result is %s %s" % (out.dtype, tuple(out.shape)))
        if out.numel():
            st.check(out.data_ptr() != t.data_ptr(), "the result is the input itself")
        st.check(not bool(torch.isnan(out).any()), "NaN in the result")
        return out.numpy().astype(np.float64)

    ref0 = draw(x, 0)
    st.outcome(ref0.tobytes())
    # the same state gives the same draw, in any layout
    for l in LAYOUTS[:3]:
        st.check(np.array_equal(draw(x, 0, lay_=l), ref0), "the draw depends on the memory layout")
    if not case["global"]:
        unit0 = draw(x, 1.5)
        for l in LAYOUTS[:4]:
            st.check(np.array_equal(draw(x, 1.5, lay_=l), unit0), "the noise depends on the memory layout")
    if case["model"] == "gauss":
        base = x if case["dt"] == "f64" else x.astype(np.float32).astype(np.float64)
        st.check(np.allclose(ref0, base, rtol=1e-6, atol=0), "noise without deviation changes the input")
        st.check(np.allclose(draw(x * 0, 0), 0), "no noise on zero")
    else:
        counts = ref0 / k
        st.check(np.all(ref0 >= 0) and np.allclose(counts, np.rint(counts), rtol=1e-5, atol=1e-5),
                 "not multiples of k: %s" % counts.reshape(-1)[:4])
        st.check(np.array_equal(draw(x * 0, 0), x * 0), "Poisson noise on zero")
        # k and x only enter through x / k
        st.check(np.allclose(draw(x * 2, 0, kk=2 * k), 2 * ref0, rtol=1e-5), "the Poisson draw does not have mean x / k")
    base = draw(x, 0)
    one = draw(x, 1) - base
    for s in SIGMAS:
        d = draw(x, s) - base
        st.check(np.allclose(d, s * one, rtol=1e-3 if case["dt"] == "f32" else 1e-6, atol=1e-4 if case["dt"] == "f32" else 1e-8),
                 "noise of sigma %s is not sigma times the unit draw" % s)
    if one.size:
        st.check(np.all(np.abs(one) < 8) and np.any(one != 0), "unit noise %s" % one.reshape(-1)[:4])
    if case["model"] == "gauss":
        st.check(np.allclose(draw(x * 0 + 7, 1) - 7, one, atol=1e-4), "the draw depends on the input")


def draws_space(tier):
    def space(ch):
        return {"model": ch.pick("model", ("gauss", "poisson")),
                "shape": list(ch.pick("shape", ((1,), (15,), (16,), (17,), (255,), (257,), (300,), (1000,), (5000,), (3, 40, 37), (2, 3, 33, 65)))),
                "dt": ch.pick("dt", ("f64", "f32")), "seed": ch.pick("seed", (0, 1, 2)), "level": ch.pick("level", (0.0, 3.0, 200.0)),
                "sigma": ch.pick("sigma", (0.0, 1.0, 2.5))}
    return space


def draws_run(case, st):
    """the noise of large arrays: neither centred, scaled, sorted, repeated nor clipped

    Whatever order the samples are drawn in, one generator state fixes the unit draws; what they are added to or multiplied by
    must not change them."""
    shape, dt = tuple(case["shape"]), DT[case["dt"]]
    s, level = case["sigma"], case["level"]

    def draw(content, sigma, k=1.0):
        g = torch.Generator().manual_seed(case["seed"])
        t = lay(content, dtype=dt)
        return (add_gauss_noise(t, sigma, generator=g) if case["model"] == "gauss" else
                add_poisson_gauss_noise(t, k, sigma, generator=g)).numpy().astype(float)
    x = np.full(shape, level)
    y, z = draw(x, s), draw(x, 0.0)
    noise = (y - z).reshape(-1)
    st.outcome(y.tobytes()[:2048])
    n = noise.size
    loose = 1e-3 if case["dt"] == "f32" else 1e-8
    if case["model"] == "gauss":
        st.check(np.array_equal(z, x), "without deviation the input comes back")
    else:
        st.check(np.array_equal(z, np.rint(z)) and np.all(z >= 0), "counts")
        st.check(level == 0 or abs(z.mean() - level) < 7 * math.sqrt(level / n), "mean count %s" % z.mean())
    if not s:
        return
    one = noise / s
    st.check(n < 15 or len(np.unique(one)) > 0.9 * n, "repeated draws")
    # independent draws do not cancel: the mean of n of them is not 0 to within rounding, nor is the deviation exactly 1
    st.check(abs(one.mean()) > 1e-5 / math.sqrt(n) * (1 if case["dt"] == "f64" else 0) and abs(one.mean()) < 7 / math.sqrt(n),
             "mean %s of %d unit draws" % (one.mean(), n))
    st.check(n < 15 or abs(one.std() - 1) > 1e-7 * (case["dt"] == "f64") and abs(one.std() - 1) < 5 / math.sqrt(n), "deviation %s" % one.std())
    if n >= 1000:
        st.check(np.any(np.abs(one) > 2.5) and np.all(np.abs(one) < 8), "tails end at %s" % np.abs(one).max())
        st.check(abs((one ** 4).mean() - 3) < 1.5, "fourth moment %s" % (one ** 4).mean())
        st.check(not np.all(np.diff(one) >= 0), "sorted")
    # what is added to does not matter, sample by sample
    ramp = x + (np.arange(n).reshape(shape) % 7)
    if case["model"] == "gauss":
        other = draw(ramp, s) - ramp
    else:
        other = draw(x * 0, s)
        if level:
            z2 = draw(x, 2 * s) - z
            st.check(np.allclose(z2, 2 * noise.reshape(shape), rtol=loose, atol=loose), "the noise does not scale with sigma")
            return
    st.check(np.allclose(other.reshape(-1), noise, rtol=loose, atol=loose), "the draws depend on the input")
    # the noise is the generator's: a deviation three times as large gives three times the same
    st.check(np.allclose(draw(x, 3 * s) - z, 3 * noise.reshape(shape), rtol=loose, atol=loose * 3), "the noise does not scale with sigma")


def stat_space(tier):
    def space(ch):
        return {"model": ch.pick("model", ("gauss", "poisson")), "seed": ch.pick("seed", tuple(range(3 if tier == "quick" else 10))),
                "k": ch.pick("k", (0.5, 2.0)), "sigma": ch.pick("sigma", (0, 0.7, 3.0)), "level": ch.pick("level", (0.0, 2.0, 30.0, -3.0))}
    return space


def stat_run(case, st):
    """moments over one big tensor: far outside what any correct draw could produce means a wrong formula"""
    n = 40000
    x = torch.full((n,), case["level"], dtype=torch.float64)
    g = torch.Generator().manual_seed(case["seed"])
    k, s = case["k"], case["sigma"]
    if case["model"] == "poisson" and case["level"] < 0:
        return
    if case["model"] == "gauss":
        y = add_gauss_noise(x, s, generator=g).numpy()
        var = s * s
        kurt = 3
    else:
        y = add_poisson_gauss_noise(x, k, s, generator=g).numpy()
        var = k * case["level"] + s * s
    m, v = y.mean(), y.var()
    st.check(abs(m - case["level"]) < 7 * math.sqrt((var + 1e-12) / n) + 1e-9, "mean %s at level %s" % (m, case["level"]))
    st.check(abs(v - var) < 0.1 * var + 1e-9, "variance %s, expected %s" % (v, var))
    if case["model"] == "gauss" and s:
        z = (y - case["level"]) / s
        st.check(abs((z ** 4).mean() - 3) < 0.35 and abs((z ** 3).mean()) < 0.15, "not normal: %s %s" % ((z ** 3).mean(), (z ** 4).mean()))
        st.check(len(np.unique(z)) > n * 0.99, "repeated draws")
        st.check(abs(np.corrcoef(z[:-1], z[1:])[0, 1]) < 0.05, "correlated draws")
    st.outcome(y[:64].tobytes())


def harnesses(tier):
    return [Harness("crop", crop_space(tier), crop_run), Harness("generators", real_space(tier), real_run), Harness("large", large_space(tier), large_run),
            Harness("noise", noise_space(tier), noise_run), Harness("draws", draws_space(tier), draws_run), Harness("moments", stat_space(tier), stat_run)]


def bounds(tier):
    return {"crop": "every answer of the random source for every size 1..n (or None) on every ordered axis subset",
            "generators": "up to %d generator states" % SEEDS, "draws": "11 shapes up to 12870 samples, 3 levels, 3 deviations, 3 generator states", "noise": "sigmas %s, k 3 values" % (SIGMAS,)}
