"""
C29: operations run on the device of their input; results keep its device and the documented element type.

There is no second physical device here.  torch's FakeTensorMode plays one: it runs every torch operation on shapes, types and
devices only, with the device rules of real hardware (mixing devices is an error, 0-d and assigned values excepted).  What the
code reads from tensors (safe_power looks at its arguments) is taken from a run of the same case on real memory.
"""
import contextlib
import copy

import torch
from torch._subclasses.fake_tensor import (DataDependentOutputException, DynamicOutputShapeException, FakeTensor,
                                           FakeTensorMode, UnsupportedOperatorException)
from torch.utils._python_dispatch import TorchDispatchMode

from torchimage.filtering import EdgeFilter, UnsharpMask
from torchimage.misc import outer, poly1d, safe_power
from torchimage.pooling import SeparablePoolNd
from torchimage.random import add_gauss_noise, add_poisson_gauss_noise
from torchimage.shapes.conv_like import n_original_elements_nd

from ..catalog import OPS
from ..core import Harness
from ..util import DT, generic, lay
from .c20 import INT, values

ID = "C29"
ASSUMPTIONS = ["torch's FakeTensorMode propagates devices, types and shapes as the real devices do; cases in which the code asks for values that only real "
               "memory holds, and asks for others than in the run on real memory, are counted as undecided"]
DEVICES = ("cpu", "cuda:0", "cuda:1")


# -------------------------------------------------------------------------------------------------------- second device

class Undecided(Exception):
    pass


MODE = []          # one mode per process: whatever the code keeps between calls stays usable


def mode():
    if not MODE:
        MODE.append(FakeTensorMode(allow_non_fake_inputs=True))
    return MODE[0]


A = torch.ops.aten
READS = (A._local_scalar_dense.default, A.equal.default)                      # hand values to the code
SHAPES = (A.nonzero.default, A.masked_select.default, A.index.Tensor)         # results whose size depends on values
WRITES = (A.index_put.default, A.index_put_.default, A._index_put_impl_.default, A._unsafe_index_put.default)


def masked(func, args):
    return func not in (A.index.Tensor,) + WRITES or any(i is not None and i.dtype == torch.bool for i in args[1])


class Record(TorchDispatchMode):
    """what the code learns from values, on real memory"""
    def __init__(self):
        super().__init__()
        self.answers = []

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        r = func(*args, **(kwargs or {}))
        if func in READS:
            self.answers.append((func, r))
        elif func in SHAPES and masked(func, args):
            self.answers.append((func, r.shape))
        return r


class Replay(TorchDispatchMode):
    def __init__(self, answers):
        super().__init__()
        self.answers = list(answers)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        if func in READS + SHAPES + WRITES and masked(func, args):
            ts = [a for a in args if torch.is_tensor(a)]
            near = ts + [i for a in args if isinstance(a, (list, tuple)) for i in a if torch.is_tensor(i)]
            if any(isinstance(t, FakeTensor) for t in near):
                places = {t.device for t in ts if t.ndim or func not in WRITES} | {t.device for t in near if t.device.type != "cpu"}
                if len(places) > 1:
                    raise RuntimeError("Expected all tensors to be on the same device, but found %s" % sorted(map(str, places)))
                if func in WRITES:
                    return args[0] if func in WRITES[1:3] else torch.empty_like(args[0])
                if not self.answers or self.answers[0][0] is not func:
                    raise Undecided("reads more than on real memory")
                r = self.answers.pop(0)[1]
                if func in READS:
                    return r
                return torch.zeros(r, dtype=torch.int64 if func is SHAPES[0] else args[0].dtype, device=args[0].device)
        return func(*args, **(kwargs or {}))


def to_numpy(self, *a, **k):
    if isinstance(self, FakeTensor):
        if self.device.type != "cpu":
            raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first." % self.device)
        raise Undecided("numpy")
    return torch._C.TensorBase.numpy(self, *a, **k)


def to_array(self, dtype=None, **k):
    a = to_numpy(self)
    return a if dtype is None else a.astype(dtype, copy=False)


def to_list(self):
    if isinstance(self, FakeTensor):
        raise Undecided("tolist")
    return torch._C.TensorBase.tolist(self)


@contextlib.contextmanager
def elsewhere(answers=()):
    """inside: torch works on devices that do not exist"""
    keep = {n: torch.Tensor.__dict__.get(n) for n in ("numpy", "__array__", "tolist")}
    torch.Tensor.numpy, torch.Tensor.__array__, torch.Tensor.tolist = to_numpy, to_array, to_list
    try:
        with mode(), Replay(answers):
            yield
    finally:
        for n, f in keep.items():
            if f is None:
                delattr(torch.Tensor, n)
            else:
                setattr(torch.Tensor, n, f)


GIVEN_UP = (Undecided, DataDependentOutputException, DynamicOutputShapeException, UnsupportedOperatorException)


def signature(ts):
    return [(tuple(t.shape), t.dtype) if torch.is_tensor(t) else type(t) for t in ts]


def moved(m, dev):
    """what .to(dev) does to a layer (torch refuses it in fake mode)"""
    for q in m.modules():
        for n, p in list(q._parameters.items()):
            if p is not None:
                q._parameters[n] = torch.nn.Parameter(torch.zeros(p.shape, dtype=p.dtype, device=dev), requires_grad=p.requires_grad)
        for n, b in list(q._buffers.items()):
            if b is not None:
                q._buffers[n] = torch.zeros(b.shape, dtype=b.dtype, device=dev)
    return m


def layer(o):
    return isinstance(o, torch.nn.Module) and any(True for _ in o.parameters())


# ------------------------------------------------------------------------------------------------------------- moving

def histories(tier):
    if tier == "quick":
        return (("cuda:0", "cuda:1"), ("cuda:0", "cpu"), ("cpu", "cuda:0"), ("cuda:1", "cuda:0"), ("cpu", "cuda:1"))
    return tuple((a, b, c) for a in DEVICES for b in DEVICES for c in DEVICES)


def moving_space(tier):
    def space(ch):
        name = ch.pick("op", tuple(OPS))
        op = OPS[name]
        dt = ch.pick("dt", tuple(op.dts) + (INT if op.ints else ()))
        k = len(op.shape) if op.fixed else ch.pick("k", op.k)
        floating = dt in ("f64", "f32")
        full = tier != "quick"
        lead = ch.pick("lead", [q for q in op.lead if q < 3] if full else [1] if 1 in op.lead else op.lead[:1])
        order = 0 if op.fixed or k < 2 or not full else ch.pick("order", (0, 1))
        grad = ch.pick("grad", (0, 1)) if floating and op.smooth else 0
        real = 0 if grad else ch.pick("real", (0, 1))
        hist = histories(tier)
        return {"op": name, "dt": dt, "k": k, "lead": lead, "order": order, "grad": grad, "real": real,
                "devices": list(ch.pick("devices", hist if full or not (grad or real) else hist[:2]))}
    return space


def contents(op, case):
    content = list(op.shape) if op.fixed else [12, 12][:case["k"]] if "msssim" in case["op"] else list(op.sizes[:case["k"]]) if case["k"] < 3 else [3, 4, 3]
    shape = [2, 3][:case["lead"]] + content
    axes = None if op.fixed else [case["lead"] + i for i in range(len(content))][::-1 if case["order"] else 1]
    return [lay(v, dtype=DT[case["dt"]]) for v in values(op, shape, case["dt"])], axes


def moving_run(case, st):
    op = OPS[case["op"]]
    xs, axes = contents(op, case)
    with Record() as rec:
        ref = op.call(op.make(), xs, axes)
    exp = signature(ref)
    obj = op.make()
    if case["real"]:
        st.transitions += 1
        for a, b in zip(op.call(obj, xs, axes), ref):
            st.same(a, b, "first call")
    for n, dev in enumerate(case["devices"]):
        if case["grad"]:                   # torch's backward engine asks the driver of a cuda device, which is not there
            dev = {"cuda:0": "meta", "cuda:1": "lazy:0"}.get(dev, dev)
        what = "%s on %s (call %d of %s)" % (case["op"], dev, n + 1, case["devices"])
        st.transitions += 1
        d = torch.device(dev)
        try:
            o = copy.deepcopy(op.make()) if layer(obj) else obj
            with elsewhere(rec.answers):
                if layer(o):
                    moved(o, dev)
                ys = [torch.zeros(x.shape, dtype=x.dtype, device=dev).requires_grad_(bool(case["grad"])) for x in xs]
                got = op.call(o, ys, axes)
                st.check(signature(got) == exp, lambda: "%s: %s, expected %s" % (what, signature(got), exp))
                for t in got:
                    st.check(not torch.is_tensor(t) or t.device == d, lambda: "%s: the result is on %s" % (what, t.device))
                if case["grad"] and any(t.requires_grad for t in got):
                    gs = torch.autograd.grad([t.sum() for t in got if t.requires_grad], ys, allow_unused=True)
                    for g, y in zip(gs, ys):
                        st.check(g is None or (g.device, g.shape, g.dtype) == (y.device, y.shape, y.dtype),
                                 lambda: "%s: gradient %s %s on %s" % (what, tuple(g.shape), g.dtype, g.device))
                for y, x in zip(ys, xs):
                    st.check(y.device == d and y.dtype == x.dtype and y.shape == x.shape, what + ": the input changed")
            st.outcome(repr((exp, dev)))
        except GIVEN_UP as e:
            st.note("undecided")
            st.note("undecided " + case["op"])
            st.outcome("undecided")
            return


# --------------------------------------------------------------------------------------------------------- parameters

def fake(v, dev):
    return torch.zeros(v.shape, dtype=v.dtype, device=dev) if torch.is_tensor(v) else v


def T(*v, dt=torch.float64):
    return torch.tensor(v, dtype=dt, device="cpu")


IMG = (2, 6, 7)
# name -> (number of tensor parameters, call(image, parameter tensors, device of the image))
PARAM = {
    "pool:kernel": ((T(0.25, 0.5, 1.0),), lambda x, p, d: SeparablePoolNd(p[0], 2).forward(x, axes=(1, 2))),
    "pool:kernel32": ((T(0.25, 0.5, 1.0, dt=torch.float32),), lambda x, p, d: SeparablePoolNd(p[0], 2).forward(x, axes=(1, 2))),
    "pool:kernels": ((T(0.25, 0.5, 1.0), T(1.0, 2.0)), lambda x, p, d: SeparablePoolNd([p[0], p[1]], 1, same_padder="reflect").forward(x, axes=(1, 2))),
    "edge:kernels": ((T(-1.0, 0.0, 1.0), T(1.0, 2.0, 1.0)), lambda x, p, d: EdgeFilter(edge_kernel=p[0], smooth_kernel=p[1], same_padder="reflect").component(x, 1, 2)),
    "unsharp:kernel": ((T(0.25, 0.5, 0.25),), lambda x, p, d: UnsharpMask(SeparablePoolNd(p[0]), 0.5, 0.25, padder="reflect").forward(x, axes=(1, 2))),
}


def param_space(tier):
    def space(ch):
        name = ch.pick("call", tuple(PARAM))
        ts = PARAM[name][0]
        return {"call": name, "at": [ch.pick("at%d" % i, ("real",) + DEVICES) for i in range(len(ts))],
                "devices": list(ch.pick("devices", [(a, b) for a in DEVICES for b in DEVICES]))}
    return space


def param_run(case, st):
    ts, call = PARAM[case["call"]]
    x = lay(generic(IMG) / 8)
    with Record() as rec:
        ref = call(x, ts, "cpu")
    for dev in case["devices"]:
        st.transitions += 1
        try:
            with elsewhere(rec.answers):
                ps = [t if a == "real" else fake(t, a) for t, a in zip(ts, case["at"])]
                got = call(torch.zeros(IMG, dtype=torch.float64, device=dev), ps, dev)
                st.check((got.device, got.shape, got.dtype) == (torch.device(dev), ref.shape, ref.dtype),
                         lambda: "%s with parameters at %s on %s: %s %s on %s" % (case["call"], case["at"], dev, tuple(got.shape), got.dtype, got.device))
            st.outcome(repr((case["call"], dev)))
        except GIVEN_UP:
            st.note("undecided")
            st.outcome("undecided")


# ------------------------------------------------------------------------------------------------ functions without image

def plain_space(tier):
    def space(ch):
        name = ch.pick("call", tuple(PLAIN))
        return {"call": name, "device": ch.pick("device", DEVICES), "variant": ch.pick("variant", list(range(len(PLAIN[name]))))}
    return space


def sp(x, e, **k):
    """safe_power with tensors on a device: real values tell which way it goes"""
    return lambda place: safe_power(place(x), place(e), **k)


PLAIN = {
    "safe_power": [sp(T(1.5, -2.0, 0.0), T(2.0, 0.5, -1.0)), sp(T(1.5, -2.0, 0.0), 0.5), sp(2.0, T(2.0, 0.5, -1.0)), sp(-2, T(2.0, 0.5, -1.0)),
                   sp(T(1.5, -2.0), T(3, 2, dt=torch.int64)), sp(T(2, 3, dt=torch.int64), 2), sp(T(2, 3, dt=torch.int64), 0.5), sp(T(0.5, 1.5), T(2.0)[0])],
    "n_original_elements": [lambda place: n_original_elements_nd((5, 6), (1, 2), (3, 4), (2, 1), device=place(None)),
                            lambda place: n_original_elements_nd((5,), ((1, 0),), 3, 1, device=place(None), dtype=torch.float64)],
    "noise": [lambda place: add_gauss_noise(place(lay(generic((3, 4)))), 0.5), lambda place: add_gauss_noise(place(lay(generic((3, 4)), dtype=torch.float32)), 0),
              lambda place: add_poisson_gauss_noise(place(lay(generic((3, 4), lo=1))), 0.5, 2.0), lambda place: add_poisson_gauss_noise(place(lay(generic((3, 4), lo=1))), 0.5, 0)],
    "poly1d": [lambda place: poly1d(place(T(1.0, 2.0)), [3.0]), lambda place: poly1d(place(T(1.0, 2.0)), [3.0, 1.0, 2.0]), lambda place: poly1d(place(T(1.0, 2.0)), [0, 0])],
    "outer": [lambda place: outer(place(T(1.0, 2.0)), place(T(1.0, 3.0, 4.0)))],
}


def plain_run(case, st):
    call = PLAIN[case["call"]][case["variant"]]
    with Record() as rec:
        ref = call(lambda t: "cpu" if t is None else t)
    flat = lambda r: [t for q in r for t in flat(q)] if isinstance(r, (tuple, list)) or not torch.is_tensor(r) else [r]
    st.transitions += 1
    try:
        with elsewhere(rec.answers):
            got = call(lambda t: case["device"] if t is None else fake(t, case["device"]))
            a, b = flat(got), flat(ref)
            st.check(signature(a) == signature(b) and all(t.device == torch.device(case["device"]) for t in a),
                     lambda: "%s on %s: %s on %s, expected %s" % (case["call"], case["device"], signature(a), [str(t.device) for t in a], signature(b)))
        st.outcome(repr((case["call"], case["variant"], case["device"])))
    except GIVEN_UP:
        st.note("undecided")
        st.outcome("undecided")


def harnesses(tier):
    return [Harness("moving", moving_space(tier), moving_run), Harness("parameters", param_space(tier), param_run),
            Harness("plain", plain_space(tier), plain_run)]


def bounds(tier):
    return {"operations": len(OPS), "devices": DEVICES, "histories": len(histories(tier)), "leading axes": "1" if tier == "quick" else "0-2"}
