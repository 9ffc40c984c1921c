"""
C25: ambient state.  A state is a configuration of everything global a call could read or write; a transition is setting one
of the parts, or a call.  Every call, successful or failing, must be a self-loop in every state, with the results it has in the
initial state.
"""
import contextlib
import gc
import os
import random
import sys
import warnings

import numpy as np
import torch

from torchimage.cfa.utils import check_sensor_alignment
from torchimage.metrics.hdrvdp.pixels_per_degree import pixels_per_degree
from torchimage.misc import describe, outer, safe_power
from torchimage.padding import Padder
from torchimage.padding.utils import pad_width_format, same_padding_width
from torchimage.random import add_gauss_noise, add_poisson_gauss_noise, random_crop
from torchimage.shapes.conv_like import conv_nd, n_original_elements_nd
from torchimage.utils import NdSpec

from .. import core
from ..catalog import OPS
from ..core import Harness
from ..util import DT, generic, lay, unit
from .c19 import data

ID = "C25"
ASSUMPTIONS = ["settings that change torch's own arithmetic (autocast, flushing of denormals, reduced matmul precision) are left out",
               "results in different states are compared up to 1e-9 relative in "
               "double and 1e-4 in single precision"]

# ------------------------------------------------------------------------------------------------- the ambient state

PARTS = {
    "default dtype": ("float32", "float64", "bfloat16"),
    "default device": ("cpu", "meta"),
    "gradients": ("on", "off", "inference"),
    "deterministic": (False, True),
    "threads": (1, 3),
    "numpy errors": ("warn", "raise"),
    "anomaly": (False, True),
    "warnings": ("default", "error"),
    "fresh memory": ("nan", "zero", "large"),
    "seed": (0, 1),
}


@contextlib.contextmanager
def ambient(conf):
    """enter one state of the ambient configuration, leave it again"""
    old = (torch.get_default_dtype(), torch.are_deterministic_algorithms_enabled(), torch.get_num_threads(), np.geterr(),
           torch.is_anomaly_enabled(), core.FRESH[0], torch.is_warn_always_enabled())
    with contextlib.ExitStack() as stack:
        try:
            torch.set_default_dtype(getattr(torch, conf["default dtype"]))
            torch.use_deterministic_algorithms(conf["deterministic"])
            torch.set_num_threads(conf["threads"])
            if conf["numpy errors"] == "raise":
                np.seterr(divide="raise", invalid="raise", over="raise")
            core.FRESH[0] = conf["fresh memory"]
            if conf["warnings"] == "error":
                stack.enter_context(warnings.catch_warnings())
                warnings.simplefilter("error")
                torch.set_warn_always(True)
            torch.manual_seed(17 + conf["seed"])
            np.random.seed(5 + conf["seed"])
            random.seed(7 + conf["seed"])
            if conf["anomaly"]:
                stack.enter_context(torch.autograd.set_detect_anomaly(True, check_nan=False))
            if conf["default device"] != "cpu":
                stack.enter_context(torch.device(conf["default device"]))
            if conf["gradients"] != "on":
                stack.enter_context(torch.no_grad() if conf["gradients"] == "off" else torch.inference_mode())
            yield
        finally:
            stack.close()
            torch.set_default_dtype(old[0])
            torch.use_deterministic_algorithms(old[1])
            torch.set_num_threads(old[2])
            np.seterr(**old[3])
            torch.set_warn_always(old[6])
            core.FRESH[0] = old[5]
            torch.autograd.set_detect_anomaly(old[4])
            torch.set_grad_enabled(True)


def snapshot():
    """everything a library call has no business changing"""
    ns = np.random.get_state()
    return {"default dtype": torch.get_default_dtype(), "default device": str(torch.get_default_device()),
            "gradients": (torch.is_grad_enabled(), torch.is_inference_mode_enabled()),
            "deterministic": (torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled()),
            "threads": torch.get_num_threads(), "numpy errors": tuple(sorted(np.geterr().items())),
            "anomaly": (torch.is_anomaly_enabled(), torch.is_anomaly_check_nan_enabled()),
            "torch random state": hash(torch.get_rng_state().numpy().tobytes()),
            "numpy random state": hash((ns[1].tobytes(), ns[2], ns[3], ns[4])), "python random state": hash(random.getstate()),
            "warning filters": hash(repr(warnings.filters)), "backends": (
                torch.backends.mkldnn.enabled, torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic,
                torch.get_float32_matmul_precision()),
            "print options": repr(sorted(np.get_printoptions().items(), key=str)), "recursion limit": sys.getrecursionlimit(),
            "collector": gc.isenabled(), "directory": os.getcwd(), "environment": hash(tuple(sorted(os.environ.items()))),
            "path": hash(tuple(sys.path))}


def unchanged(st, before, what):
    after = snapshot()
    st.check(after == before, lambda: "%s changes %s" % (what, "; ".join(
        "%s: %s -> %s" % (k, before[k], after[k]) for k in before if before[k] != after[k])))


def pick_conf(ch, skip=()):
    return {p: ch.pick(p, o, dev=True) if p not in skip else o[0] for p, o in PARTS.items()}


# ------------------------------------------------------------------------------------------------- tensor operations

def setup(name, dt, content="plain"):
    op = OPS[name]
    k = len(op.shape) if op.fixed else op.k[-1]
    size = list(op.shape) if op.fixed else (list(op.sizes[:k]) if "msssim" not in op.name else [5, 6])
    m = 1 if 1 in op.lead else 0
    shape = tuple([2][:m] + size)
    axes = None if op.fixed else tuple(range(m, len(shape)))
    if dt.startswith("i"):
        return op, [generic(shape, s, lo=-9, span=19) for s in range(op.nin)], axes
    xs = [data(op, shape, s) for s in range(op.nin)]
    if content == "special":
        for j, x in enumerate(xs):
            f = x.reshape(-1)
            f[1 + j], f[-1], f[len(f) // 2] = np.inf, np.nan, 0
            f[len(f) // 3] = -np.inf if j else np.inf
    return op, xs, axes


BASE = {}
INITIAL = {p: o[0] for p, o in PARTS.items()}


def base(name, dt, content="plain"):
    if (name, dt, content) not in BASE:
        op, xs, axes = setup(name, dt, content)
        with ambient(INITIAL):
            BASE[name, dt, content] = [o.detach().clone() for o in op.call(op.make(), [lay(x, dtype=DT[dt]) for x in xs], axes)]
    return BASE[name, dt, content]


def has_parameters(name):
    o = OPS[name].make()
    return isinstance(o, torch.nn.Module) and any(True for _ in o.parameters())


PARAM = {}


def ops_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(OPS))
        op = OPS[name]
        if name not in PARAM:
            PARAM[name] = has_parameters(name)
        dt = ch.pick("dt", tuple(op.dts) + (("i64",) if op.ints else ()))
        made = ch.pick("made", ("before", "inside"), dev=True)
        layout = ch.pick("layout", ("contiguous", "transposed"), dev=True)
        content = ch.pick("content", ("plain", "special"), dev=True) if DT[dt].is_floating_point else "plain"
        conf = pick_conf(ch, ("default device", "gradients", "default dtype") if made == "inside" and PARAM[name] else ())
        return {"op": name, "dt": dt, "made": made, "layout": layout, "content": content, "state": conf}
    return space


def ops_run(case, st):
    name, dt = case["op"], case["dt"]
    op, xs, axes = setup(name, dt, case["content"])
    exp = base(name, dt, case["content"])
    T = DT[dt]
    ts = [lay(x, case["layout"], dtype=T) for x in xs]
    kept = [lay(x, dtype=T) for x in xs]
    leaves = [lay(x, dtype=T).requires_grad_(T.is_floating_point) for x in xs]
    obj = op.make() if case["made"] == "before" else None
    conf = case["state"]
    tol = 1e-9 if T != torch.float32 else 1e-4
    if name.startswith("edgeloss:div") and T == torch.float32:
        tol = 0.2
    with ambient(conf):
        if obj is None:
            before = snapshot()
            obj = op.make()
            if not PARAM.get(name):
                unchanged(st, before, "constructing the object")
        before = snapshot()
        for i in (0, 1):
            outs = op.call(obj, ts, axes)
            unchanged(st, before, "the call")
            st.check(all(torch.equal(t.nan_to_num(77), k.nan_to_num(77)) for t, k in zip(ts, kept)), "the call changes its input")
            for o, e in zip(outs, exp):
                st.check(o.device.type == "cpu", "the result is on %s" % o.device)
                st.check(o.requires_grad == (PARAM.get(name, False) and conf["gradients"] == "on"), "requires_grad is %s" % o.requires_grad)
                st.same(o, e, "result", dtype=e.dtype, rtol=tol, atol=tol * max(1.0, float(torch.nan_to_num(e.abs()).max())))
        if conf["gradients"] == "on" and T.is_floating_point:
            outs = op.call(obj, leaves, axes)
            unchanged(st, before, "a call that records gradients")
            if outs[0].requires_grad:
                sum(o.sum() for o in outs if o.requires_grad).backward()
                unchanged(st, before, "the backward pass")
                st.check(all(l.grad is None or l.grad.dtype == T and l.grad.device.type == "cpu" for l in leaves), "type of a gradient")


# --------------------------------------------------------------------------------------------------- failing calls

FAIL = ("axis too large", "axis too small", "no tensor", "0-d", "other shape", "empty", "meta", "object axis", "nan axis", "complex")


def fail_space(tier):
    def space(ch):
        return {"op": ch.pick("op", tuple(OPS)), "fail": ch.pick("fail", FAIL), "state": pick_conf(ch, ("default device",))}
    return space


def fail_run(case, st):
    """whatever a call that cannot work does, the ambient state stays as it was, and so do later results"""
    op, xs, axes = setup(case["op"], op_dt(case["op"]))
    T = DT[op_dt(case["op"])]
    how = case["fail"]
    ts = [lay(x, dtype=T) for x in xs]
    bad, ax = list(ts), axes
    if how in ("axis too large", "axis too small", "object axis", "nan axis"):
        if op.fixed:
            return
        ax = {"axis too large": (97,), "axis too small": (-97,), "object axis": (object(),), "nan axis": (float("nan"),)}[how]
    elif how == "no tensor":
        bad[-1] = "tensor"
    elif how == "0-d":
        bad[0] = torch.tensor(1.0, dtype=T)
    elif how == "other shape":
        bad[-1] = bad[-1][..., :1, :1] if bad[-1].ndim > 1 else bad[-1][:1]
    elif how == "empty":
        bad[0] = bad[0][..., :0]
    elif how == "meta":
        bad[-1] = bad[-1].to("meta")
    elif how == "complex":
        bad[0] = bad[0].to(torch.complex64)
    exp = base(case["op"], op_dt(case["op"]))
    obj = op.make()
    with ambient(case["state"]):
        before = snapshot()
        try:
            op.call(obj, bad, ax)
            st.note("accepted")
        except Exception as e:
            st.outcome((case["op"], how, type(e).__name__))
        except core.Violation:
            raise
        unchanged(st, before, "the failing call (%s)" % how)
        outs = op.call(obj, ts, axes)
    tol = 1e-9 if T == torch.float64 else 1e-4
    for o, e in zip(outs, exp):
        st.same(o, e, "the call after it", dtype=e.dtype, rtol=tol, atol=tol * max(1.0, float(torch.nan_to_num(e.abs()).max())), count=False)


def op_dt(name):
    return OPS[name].dts[0]


# ------------------------------------------------------------------------------------- functions outside the catalogue

X5 = generic((5, 6))
FUNCTIONS = {
    "describe": lambda: list(describe(lay(X5)).values()),
    "outer": lambda: outer(lay(X5[0]), lay(X5[1])).tolist(),
    "counts": lambda: n_original_elements_nd([5, 6], [(1, 2), (0, 3)], [2, 3], [1, 2], device="cpu").tolist(),
    "counts f64": lambda: n_original_elements_nd([5, 6], [(1, 2), (0, 3)], [2, 3], [1, 2], device="cpu", dtype=torch.float64).tolist(),
    "conv_nd": lambda: list(conv_nd([9, 11], 3, [1, 2], 2)),
    "same width": lambda: list(same_padding_width(5, 3, 11)),
    "width format": lambda: list(pad_width_format(((1, 2), (3, 4)))),
    "ndspec": lambda: list(NdSpec([1.5, 2.5]).map(lambda v: v * 2)),
    "ndspec apply": lambda: list(NdSpec.apply(lambda a, b: a + b, NdSpec([1, 2]), NdSpec(3))),
    "ndspec array": lambda: [list(v) for v in NdSpec(np.array([[1.0, 2.0], [3.0, 4.0]]), item_shape=[-1])],
    "alignment": lambda: [check_sensor_alignment("rggb")],
    "pixels per degree": lambda: [pixels_per_degree(609.6, 2160, 3840, 1000)],
    "safe_power exponent": lambda: safe_power(lay(X5), 1.5).tolist(),
    "safe_power integer x": lambda: safe_power(lay(X5, dtype=torch.int64), 2).tolist(),
    "safe_power scalar base": lambda: safe_power(1.7, lay(X5)).tolist(),
    "gauss noise": lambda: add_gauss_noise(lay(X5), 2.0, generator=torch.Generator().manual_seed(3)).tolist(),
    "gauss noise f32": lambda: add_gauss_noise(lay(X5, dtype=torch.float32), 2.0, generator=torch.Generator().manual_seed(3)).tolist(),
    "poisson noise": lambda: add_poisson_gauss_noise(lay(abs(X5)), 2.0, 0.5, generator=torch.Generator().manual_seed(3)).tolist(),
    "crop": lambda: random_crop(lay(X5), (0, 1), 3, generator=torch.Generator().manual_seed(3)).tolist(),
    "user padding": lambda: Padder(pad_width=2, mode=user_fill).forward(lay(X5), axes=(0, 1)).tolist(),
}


def user_fill(x, idx, dim):
    s = [slice(None)] * x.ndim
    for a, b in ((0, idx[dim].start), (idx[dim].stop, None)):
        s[dim] = slice(a, b)
        x[tuple(s)] = 4


FBASE = {}


def func_space(tier):
    def space(ch):
        f = ch.pick("f", tuple(FUNCTIONS))
        return {"f": f, "state": pick_conf(ch, ())}
    return space


def func_run(case, st):
    f = case["f"]
    if f not in FBASE:
        with ambient(INITIAL):
            FBASE[f] = FUNCTIONS[f]()
    with ambient(case["state"]):
        before = snapshot()
        got = FUNCTIONS[f]()
        unchanged(st, before, f)
    flat = lambda v: [y for x in v for y in flat(x)] if isinstance(v, (list, tuple)) else [v]
    a, e = flat(got), flat(FBASE[f])
    st.outcome(repr(a[:8]))
    st.check(len(a) == len(e) and all(x == y or isinstance(x, float) and abs(x - y) <= 1e-6 * (1 + abs(y)) for x, y in zip(a, e)),
             lambda: "%s gives %s, expected %s" % (f, a[:6], e[:6]))


def harnesses(tier):
    b = 2 if tier == "quick" else 4
    return [Harness("operations", ops_space(tier), ops_run, budget=b),
            Harness("failing", fail_space(tier), fail_run, budget=1 if tier == "quick" else 2),
            Harness("functions", func_space(tier), func_run, budget=9)]


def bounds(tier):
    return {"ambient states": {p: list(o) for p, o in PARTS.items()},
            "operations": "%d operations x states with at most %d parts away from the initial state" % (len(OPS), 2 if tier == "quick" else 4),
            "failing calls": "%d kinds x at most %d parts" % (len(FAIL), 1 if tier == "quick" else 2),
            "functions": "%d x every state" % len(FUNCTIONS)}
