"""
C22: two threads on independent objects (or sharing read-only ones) never disturb each other.

Stateless exploration of the real code under a controlled scheduler: threads are traced with sys.settrace and exactly one
thread runs at a time.  A scheduling point is the execution of a source line (thorough: also of a bytecode instruction) of
torchimage; of repeated executions of the same line in one thread the first `occ` count.  All schedules with at most `bound`
preemptions at these points are executed:
  bound 1   X runs n points, the other thread runs to its end, X finishes                      (n = 0, 1, ...; X either thread)
  bound 2   X runs n points, Y runs m points, X runs to its end, Y finishes                    (all n, m)
"""
import itertools
import os
import pickle
import sys
import threading

import numpy as np
import torch

from torchimage.cfa.bayer_conv import BayerConv2d, demosaic
from torchimage.contrib.edge_loss import GaussianEdgeLoss, WeightedMul, WeightedSum
from torchimage.filtering import EdgeFilter, Laplace, LaplacianOfGaussian, Sobel, UnsharpMask
from torchimage.misc import poly1d
from torchimage.metrics import MS_SSIM, MSE, PSNR, SSIM
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.shapes.conv_like import n_original_elements_nd
from torchimage.utils import NdSpec

from .. import core, ref
from ..catalog import OPS
from ..core import Harness, HarnessError, Violation
from ..util import DT, generic, lay, unit
from .c18 import PAD_KW, T, canon_of, differ, in_child, module_roots, perform, set_params
from .c19 import data

ID = "C22"
CASE_LIMIT_S = 600.0
ASSUMPTIONS = ["scheduling points are source lines (thorough: also bytecodes) of torchimage; code inside torch runs atomically",
               "two threads; a layer with an automatic same padder is never shared between them (its padder is rewritten per call)"]
PREFIX = os.path.join(os.path.realpath(core.REPO), "torchimage") + os.sep


# ---------------------------------------------------------------------------------------------------- scheduler

class Sched:
    """
    plan: a list of (thread, points).  The first thread runs for so many points, then the other one, and so on; after the last
    entry the thread that is switched to runs to its end and then the remaining one.  A thread that ends early hands over.
    """

    def __init__(self, plan, opcodes, occ):
        self.plan, self.event, self.occ = list(plan), "opcode" if opcodes else "line", occ
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.seen = [{}, {}]
        self.points = 0
        self.left = -1                 # points left in the current slice; -1: no limit
        self.used = 0                  # slices that ended in a preemption
        self.stuck = False
        self.current = None

    def begin(self, t):
        """the slice of thread t starts (called before it is released)"""
        self.current = t
        self.left = self.plan.pop(0)[1] if self.plan and self.plan[0][0] == t and not self.done[1 - t] else -1

    def preempt(self, me):
        to = 1 - me
        self.used += 1
        if self.done[to]:
            self.left = -1
            return
        self.begin(to)
        self.go[to].release()
        if not self.go[me].acquire(timeout=3.0):
            self.stuck = True          # the other thread waits for something this one holds: let both run
            self.plan.clear()
            self.left = -1

    def finish(self, me):
        self.done[me] = True
        to = 1 - me
        if not self.done[to]:
            self.begin(to)
            self.go[to].release()

    def tracer(self, me):
        ev, occ, seen = self.event, self.occ, self.seen[me]
        opcode = ev == "opcode"

        def local(frame, event, arg):
            if self.left < 0:
                return None
            if event == ev:
                key = (frame.f_code, frame.f_lasti if opcode else frame.f_lineno)
                c = seen.get(key, 0)
                if c < occ:
                    seen[key] = c + 1
                    self.points += 1
                    if self.left == 0:
                        self.preempt(me)
                    else:
                        self.left -= 1
            return local

        def glob(frame, event, arg):
            if self.left >= 0 and frame.f_code.co_filename.startswith(PREFIX):
                if opcode:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def run(self, bodies, first):
        res = [None, None]

        def body(me):
            self.go[me].acquire()
            if self.left >= 0:
                sys.settrace(self.tracer(me))
            try:
                res[me] = perform(None, bodies[me])
            finally:
                sys.settrace(None)
                self.finish(me)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.begin(first)
        self.go[first].release()
        for t in ts:
            t.join()
        return res


# ---------------------------------------------------------------------------------------------------- thread bodies

def op_bodies(name, variant):
    op = OPS[name]

    def xs(shape, salt, dt):
        return [lay(data(op, shape, salt + 2 * s), dtype=DT[dt]) for s in range(op.nin)]
    base = "f64" if "f64" in op.dts else "f32"
    if op.fixed:
        lead = (2, 3)[:op.lead[-1]]
        s = lead + tuple(op.shape)
        s2 = lead + tuple(op.shape[:-2]) + (op.shape[-1], op.shape[-2]) if variant == "shape" else s
        ax = None
        ax2 = None
    else:
        k = op.k[-1]
        c = tuple(op.sizes[:k]) if "msssim" not in name else (5, 6)
        s, ax = (2,) + c, tuple(range(1, 1 + k))
        s2, ax2 = ((2,) + c[::-1], ax[::-1]) if variant == "shape" else (s, ax)
        if variant == "shape" and k == 1:
            s2, ax2 = (2, c[0] + 1), (1,)
    dt2 = base
    if variant == "dtype":
        dt2 = [d for d in op.dts if d != base][0] if len(op.dts) > 1 else "i64" if op.ints else None
        if dt2 is None:
            return None
    if dt2 == "i64":
        b2 = [lay(generic(s2, 5 + i, lo=-9, span=19)) .to(torch.int64) for i in range(op.nin)]
    else:
        b2 = xs(s2, 5, dt2)
    a1 = xs(s, 0, base)
    if variant == "construct":
        return [lambda w: op.call(op.make(), a1, ax), lambda w: op.call(op.make(), b2, ax2)]
    oa, ob = op.make(), op.make()
    return [lambda w: op.call(oa, a1, ax), lambda w: op.call(ob, b2, ax2)]


def shared(make, call_a, call_b):
    o = make()
    return [lambda w: call_a(o), lambda w: call_b(o)]


F = lambda shape, salt, axes, dt="f64": (lambda o, t=T(shape, dt, salt): [o.forward(t, axes=axes)])
G = lambda shape, salt: (lambda o, a=T(shape, "f64", salt), b=T(shape, "f64", salt + 3): [o.forward(a, b, reduce_axes=None)])
SHARED = {}
for _m in ref.ALL_MODES:
    if _m != "empty":
        SHARED["Padder " + _m] = lambda m=_m: shared(lambda: Padder((3, 2), m, **PAD_KW.get(m, {})), F((4, 3), 0, (0, 1)), F((2, 5), 1, (1, 0)))
SHARED.update({
    "Padder list": lambda: shared(lambda: Padder([(1, 2), (3, 0)], ["reflect", "constant"], constant_values=[(0, 0), (1, 5)]), F((4, 3), 0, (0, 1)), F((5, 2), 1, (0, 1), "f32")),
    "Padder axis": lambda: shared(lambda: Padder([(1, 2), (3, 0)], ["reflect", "smooth"]), lambda o, t=T((4, 3)): [o.pad_axis(t, 0, 1)], lambda o, t=T((4, 3), salt=2): [o.pad_axis(t, 1, 1)]),
    "SeparablePoolNd": lambda: shared(lambda: SeparablePoolNd([[1.0, 3.0], [2.0]], 1), F((4, 3), 0, (0, 1)), F((5, 2), 1, (1, 0), "f32")),
    "AvgPoolNd": lambda: shared(lambda: AvgPoolNd(2, count_include_pad=False), F((4, 3), 0, (0, 1)), F((5, 4, 3), 1, None)),
    "GaussianPoolNd": lambda: shared(lambda: GaussianPoolNd(3, 1.0, 1, 1), F((4, 3), 0, (0, 1)), F((5, 4, 3), 1, None)),
    "EdgeFilter": lambda: shared(lambda: EdgeFilter((-1, 0, 1), (1, 2, 1)), lambda o, t=T((5, 6)): [o.component(t, 0, 1)], lambda o, t=T((6, 5), salt=2): [o.component(t, 1, 0)]),
    "Sobel component": lambda: shared(lambda: EdgeFilter((-1, 0, 1), (1,)), lambda o, t=T((5, 6)): [o.component(t, 0, 1)], lambda o, t=T((6, 5), salt=2): [o.component(t, 1, 0)]),
    "SSIM": lambda: shared(lambda: SSIM(AvgPoolNd(2)), lambda o, a=T((4, 5)), b=T((4, 5), salt=1): [o.forward(a, b, None, None)], lambda o, a=T((2, 5), salt=2), b=T((2, 5), salt=3): [o.forward(a, b, (1, 0), 0)]),
    "MS_SSIM": lambda: shared(lambda: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(2)), lambda o, a=T((5, 6)), b=T((5, 6), salt=1): [o.forward(a, b, None, None)], lambda o, a=T((6, 5), salt=2), b=T((6, 5), salt=3): [o.forward(a, b, None, None)]),
    "MSE": lambda: shared(MSE, G((3, 4), 0), G((4, 2), 5)), "PSNR": lambda: shared(PSNR, G((3, 4), 0), G((4, 2), 5)),
    "BayerConv2d": lambda: shared(lambda: set_params(BayerConv2d(1, 2, 3, True).double()), lambda o, t=T((1, 1, 4, 4)): [o(t, "RGGB")], lambda o, t=T((1, 1, 4, 6), salt=2): [o(t, "GBRG")]),
    "BayerConv2d unshuffle": lambda: shared(lambda: set_params(BayerConv2d(1, 2, 3, True).double()), lambda o, t=T((1, 1, 4, 4)): [o.forward_unshuffle(t, "RGGB")], lambda o, t=T((1, 1, 4, 6), salt=2): [o(t, "GBRG")]),
    "demosaic": lambda: shared(lambda: demosaic, lambda o, t=T((1, 4, 4), "f32"): [o(t, "RGGB")], lambda o, t=T((1, 6, 4), "f32", 2): [o(t, "BGGR")]),
    "NdSpec": lambda: shared(lambda: NdSpec([[1.0, 2.0], [3.0, 4.0]], item_shape=[2]), lambda o: [torch.tensor(o.map(lambda v: [x * 2 for x in v]).data)],
                             lambda o: [torch.tensor(NdSpec.zip(o, NdSpec((5.0, 6.0), item_shape=[2])).data)]),
    "counts": lambda: shared(lambda: None, lambda o: [n_original_elements_nd([5, 4], [(1, 1), (2, 0)], 3, [1, 2])], lambda o: [n_original_elements_nd([6, 3], [(0, 1), (2, 2)], [2, 4], 1)]),
})


def pair(a, call_a, b, call_b):
    """two independent objects of one class with different parameters"""
    def bodies():
        oa, ob = a(), b()
        return [lambda w: call_a(oa), lambda w: call_b(ob)]
    return bodies


W2 = lambda shape, salt, **kw: (lambda o, a=T(shape, "f64", salt), b=T(shape, "f64", salt + 3): [o.forward(a, b, **kw)])
F12, F21 = F((4, 3), 0, (0, 1)), F((5, 4), 1, (1, 0))
PAIRS = {
    "constant": pair(lambda: Padder(1, "constant", constant_values=3), F12, lambda: Padder(2, "constant", constant_values=-5), F21),
    "ramp": pair(lambda: Padder(2, "linear_ramp", end_values=3), F12, lambda: Padder(2, "linear_ramp", end_values=-5), F21),
    "stat": pair(lambda: Padder(2, "maximum", stat_length=1), F12, lambda: Padder(2, "maximum", stat_length=3), F21),
    "median": pair(lambda: Padder(2, "median", stat_length=2), F12, lambda: Padder(2, "mean", stat_length=3), F21),
    "modes": pair(lambda: Padder(2, "reflect"), F12, lambda: Padder(2, "symmetric"), F21),
    "odd": pair(lambda: Padder(2, "odd_reflect"), F12, lambda: Padder(2, "odd_symmetric"), F21),
    "callable": pair(lambda: Padder(1, lambda x, idx, dim: x.select(dim, 0).fill_(7.0)), F12, lambda: Padder(2, lambda x, idx, dim: x.select(dim, 0).fill_(9.0)), F21),
    "same": pair(lambda: SeparablePoolNd([1.0, 2.0, 4.0], same_padder="reflect"), F12, lambda: SeparablePoolNd([1.0, -1.0, 3.0, 2.0], same_padder="replicate"), F21),
    "same strides": pair(lambda: SeparablePoolNd([1.0, 2.0, 4.0], 2, same_padder="constant"), F12, lambda: SeparablePoolNd([1.0, 2.0, 4.0], 3, same_padder="constant"), F21),
    "own padder": pair(lambda: SeparablePoolNd([1.0, 2.0, 4.0], same_padder=Padder(mode="constant", constant_values=2)), F12,
                       lambda: SeparablePoolNd([1.0, 2.0, 4.0], same_padder=Padder(mode="constant", constant_values=-3)), F21),
    "valid": pair(lambda: SeparablePoolNd([1.0, 2.0, 4.0], 1), F12, lambda: SeparablePoolNd([3.0, -2.0], 2), F21),
    "avg": pair(lambda: AvgPoolNd(3, same_padder="constant", count_include_pad=False), F12, lambda: AvgPoolNd(2, same_padder="constant", count_include_pad=True), F21),
    "gauss": pair(lambda: GaussianPoolNd(3, 0.7, same_padder="reflect"), F12, lambda: GaussianPoolNd(3, 1.9, 1, same_padder="reflect"), F21),
    "edges": pair(lambda: Sobel(normalize=True), lambda o, t=T((5, 6)): [o.magnitude(t, (0, 1))], lambda: EdgeFilter((-1, 0, 1), (1, 4, 1), normalize=False), lambda o, t=T((6, 5), salt=2): [o.magnitude(t, (0, 1), epsilon=0.5, p=1)]),
    "log": pair(lambda: LaplacianOfGaussian(3, 0.7), F((5, 6), 0, (0, 1)), lambda: LaplacianOfGaussian(5, 1.7), F((6, 5), 1, (0, 1))),
    "mse": pair(lambda: MSE(reduction="sum"), W2((3, 4), 0, reduce_axes=0), lambda: MSE(reduction="mean"), W2((4, 2), 5, reduce_axes=(1,))),
    "psnr": pair(lambda: PSNR(max_value=1), W2((3, 4), 0, reduce_axes=None), lambda: PSNR(max_value=255, eps=1.0), W2((4, 2), 5, reduce_axes=(1,))),
    "ssim": pair(lambda: SSIM(AvgPoolNd(2), K1=0.1, use_sample_covariance=False), W2((4, 5), 0, content_axes=None, reduce_axes=None),
                 lambda: SSIM(GaussianPoolNd(3, 0.8), "reflect", K1=0.5, K2=0.2), W2((5, 4), 5, content_axes=(0, 1), reduce_axes=0)),
    "msssim": pair(lambda: MS_SSIM((0.5, 0.5), blur=AvgPoolNd(2), K1=0.3), W2((5, 6), 0, content_axes=None, reduce_axes=None),
                   lambda: MS_SSIM((0.2, 0.8), blur=AvgPoolNd(2), use_prod=False, K2=0.5), W2((6, 7), 5, content_axes=None, reduce_axes=None)),
    "edge losses": pair(lambda: GaussianEdgeLoss(3, 0.8, 1), lambda o, a=T((1, 2, 4, 5)), b=T((1, 2, 4, 5), salt=1): [o(a, b)],
                        lambda: WeightedMul(5, 1.2, 2), lambda o, a=T((1, 1, 6, 5), salt=2), b=T((1, 1, 6, 5), salt=3): [o(a, b)]),
    "edge loss sums": pair(lambda: WeightedSum(3, 0.8, 1), lambda o, a=T((1, 2, 4, 5)), b=T((1, 2, 4, 5), salt=1): [o(a, b)],
                           lambda: WeightedSum(5, 1.2, 2), lambda o, a=T((1, 1, 6, 5), salt=2), b=T((1, 1, 6, 5), salt=3): [o(a, b)]),
    "unsharp": pair(lambda: UnsharpMask(AvgPoolNd(3), 1.5, 0.5, padder="replicate"), F((5, 6), 0, (0, 1)), lambda: UnsharpMask(GaussianPoolNd(3, 0.8), 0.7, 0, padder="reflect"), F((6, 5), 1, (0, 1))),
    "bayer": pair(lambda: set_params(BayerConv2d(1, 2, 3, True).double()), lambda o, t=T((1, 1, 4, 4)): [o(t, "RGGB")],
                  lambda: set_params(BayerConv2d(1, 3, 1, False).double()), lambda o, t=T((1, 1, 4, 6), salt=2): [o(t, "BGGR")]),
    "demosaic": pair(lambda: demosaic, lambda o, t=T((1, 4, 4), "f32"): [o(t, "GRBG", clamp=1.0)], lambda: demosaic, lambda o, t=T((1, 6, 4), "f32", 2): [o(t, "GBRG", clamp=9.0)]),
    "poly": pair(lambda: poly1d, lambda o, t=T((3,)): [o(t, [2.0, -1.0, 0.5])], lambda: poly1d, lambda o, t=T((4,), salt=2): [o(t, [1.0, 0.0, 3.0, -1.0])]),
    "counts": pair(lambda: None, lambda o: [n_original_elements_nd([5, 4], [(1, 1), (2, 0)], 3, [1, 2])], lambda: None, lambda o: [n_original_elements_nd([6, 3], [(0, 1), (2, 2)], [2, 4], 1)]),
    "specs": pair(lambda: None, lambda o: [torch.tensor(list(NdSpec([[1.0, 2.0], [3.0, 4.0]], item_shape=[2]).map(sum)))], lambda: None, lambda o: [torch.tensor(list(NdSpec([[[1.0, 2.0]], [[3.0, 4.0]]], item_shape=[1, 2]).map(lambda v: v[0][1])))]),
}
CROSS = ("pad:reflect", "pad:constant", "pool:same:smooth", "avg:nopad", "gauss:deriv", "edge:Sobel:all", "laplace", "unsharp", "ssim:map",
         "msssim:prod", "mse:none", "edgeloss:plain", "bayer:conv", "poly1d", "safe_power", "log")


def cross_bodies(a, b):
    x, y = op_bodies(a, "same"), op_bodies(b, "same")
    return [x[0], y[1]]


def bodies_of(case):
    k = case["kind"]
    if k == "shared":
        return SHARED[case["name"]]()
    if k == "pair":
        return PAIRS[case["name"]]()
    if k == "cross":
        return cross_bodies(case["name"], case["other"])
    return op_bodies(case["name"], k)


QUICK = ("same", "construct", "shared", "pair")


def space(tier):
    def f(ch):
        kind = ch.pick("kind", QUICK if tier == "quick" else ("same", "shape", "dtype", "construct", "shared", "pair", "cross"))
        case = {"kind": kind, "name": ch.pick("name", tuple(SHARED) if kind == "shared" else tuple(PAIRS) if kind == "pair" else CROSS if kind == "cross" else tuple(OPS))}
        if kind == "cross":
            i = CROSS.index(case["name"])
            if i + 1 == len(CROSS):
                ch.prune()
            case["other"] = ch.pick("other", CROSS[i + 1:])
        if tier == "quick":
            case.update(bound=1, points="line", occ=1 if kind == "construct" else 2, first=0)
            if kind in ("shared", "pair"):
                case["first"] = ch.pick("first", (0, 1))
        else:
            b, p, o = ch.pick("bound", ((1, "line", 8), (1, "opcode", 1), (2, "line", 1)))
            if b == 2 and kind not in ("same", "shared", "pair") or p == "opcode" and kind in ("construct", "cross"):
                ch.prune()
            case.update(bound=b, points=p, occ=o, first=ch.pick("first", (0, 1)))
        return case
    return f


def run(case, st):
    def alone(i):
        b = bodies_of(case)
        return perform(None, b[i])[0] if b else None
    expected = [in_child(lambda: alone(i)) for i in (0, 1)]
    if expected[0] is None:
        st.outcome("not applicable")
        return
    for e in expected:
        st.outcome(pickle.dumps(e)[:4096])
        if e[0] != "ok":
            raise Violation("a thread alone raises " + e[1])
    X = case["first"]
    Y = 1 - X
    opcodes = case["points"] == "opcode"

    def touched():
        mods = module_roots()
        before = canon_of([mods])
        for b in bodies_of(case):
            perform(None, b)
        return canon_of([mods]) != before
    cold = in_child(touched)

    def one(plan, name):
        s = Sched(plan, opcodes, case["occ"])
        res = s.run(bodies_of(case), X)
        for i in (0, 1):
            d = differ(res[i][0], expected[i])
            if d is not None:
                raise Violation("schedule %s: thread %d: %s" % (name, i, d))
        return s.points, s.stuck, s.used

    def explore():
        n = n_sched = pts = stuck = 0
        while True:
            plan = [(X, n)]
            if case["bound"] == 1:
                p, k, used = in_child(lambda: one(plan, plan)) if cold else one(plan, plan)
                n_sched += 1
                pts += p
                stuck += k
                more = used > 0
            else:
                m = 0
                more = False
                while True:
                    plan = [(X, n), (Y, m)]
                    p, k, used = in_child(lambda: one(plan, plan)) if cold else one(plan, plan)
                    n_sched += 1
                    pts += p
                    stuck += k
                    more = more or used > 0
                    if used < 2:
                        break
                    m += 1
            if not more:
                return n_sched, pts, stuck
            n += 1
    n_sched, pts, stuck = in_child(explore)
    st.note("schedules", n_sched)
    st.note("points", pts)
    st.note("schedules_with_blocked_threads", stuck)
    st.note("cases_run_cold", int(cold))
    st.states += pts
    st.transitions += pts
    st.evaluations += n_sched
    st.comparisons += 2 * n_sched


def harnesses(tier):
    return [Harness("schedules", space(tier), run)]


def bounds(tier):
    return {"threads": 2, "preemptions": 1 if tier == "quick" else 2, "scheduling points": "source lines of torchimage, the first 2 executions of each (1 while constructing)" if tier == "quick" else
            "bound 1: 8 executions of each source line and 1 of each bytecode instruction; bound 2: 1 of each source line", "pairs": len(OPS) * 4 + len(SHARED) + len(PAIRS) + len(CROSS) * (len(CROSS) - 1) // 2}
