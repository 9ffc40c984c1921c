"""
C24: copied, pickled, saved and reloaded objects.

Every sequence of uses, copies (copy, deepcopy, pickle, torch.save, state_dict) and mode switches up to a depth, on every
object of the catalogue; the objects form a lineage, and in the end every member of it has to answer like a fresh object.
"""
import copy
import io
import pickle

import numpy as np
import torch

from torchimage.cfa.bayer_conv import BayerConv2d, BayerConv2dUnshuffle, demosaic
from torchimage.filtering import EdgeFilter, UnsharpMask
from torchimage.metrics import MS_SSIM, SSIM
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.utils import NdSpec

from ..catalog import OPS
from ..core import Harness
from ..util import DT, generic, lay, unit
from .c19 import data

ID = "C24"
ASSUMPTIONS = ["objects holding user functions (custom padding callables, zipped or mapped specifications) are left out of "
               "pickling: whether those pickle depends on the function", "loading happens in the same process and from the same sources"]
NAMES = tuple(n for n, op in OPS.items() if op.make() is not None)
ACTIONS = ("use", "grad", "deepcopy", "pickle", "save", "copy", "eval", "train", "state", "double", "pickle2")
COPIES = ("deepcopy", "pickle", "save", "state", "pickle2")


def setup(name):
    op = OPS[name]
    k = len(op.shape) if op.fixed else op.k[-1]
    content = list(op.shape) if op.fixed else (list(op.sizes[:k]) if "msssim" not in op.name else [5, 6])
    m = 1 if 1 in op.lead else 0
    shape = tuple([2][:m] + content)
    axes = None if op.fixed else tuple(range(m, len(shape)))
    return op, [data(op, shape, s) for s in range(op.nin)], axes, DT[op.dts[0]]


EXPECTED = {}


def expected(name):
    if name not in EXPECTED:
        op, xs, axes, T = setup(name)
        EXPECTED[name] = [o.detach().clone() for o in op.call(op.make(), [lay(x, dtype=T) for x in xs], axes)]
    return EXPECTED[name]


def make_copy(obj, how, op=None):
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "copy":
        return copy.copy(obj)
    if how == "pickle":
        return pickle.loads(pickle.dumps(obj))
    if how == "pickle2":
        return pickle.loads(pickle.dumps(obj, protocol=2))
    if how == "save":
        f = io.BytesIO()
        torch.save(obj, f)
        f.seek(0)
        return torch.load(f, weights_only=False)
    if how == "state":
        f = io.BytesIO()
        torch.save(obj.state_dict(), f)
        f.seek(0)
        new = copy.deepcopy(demosaic) if obj is demosaic or op.name == "bayer:demosaic" else op.make()
        with torch.no_grad():
            for p in new.parameters():
                p.fill_(-3)
        new.load_state_dict(torch.load(f))
        return new
    raise KeyError(how)


def use(st, name, obj, what, grad=False):
    op, xs, axes, T = setup(name)
    ts = [lay(x, dtype=T, requires_grad=grad) for x in xs]
    outs = op.call(obj, ts, axes)
    st.check(type(outs) is tuple and len(outs) == len(expected(name)), "%s: %d results" % (what, len(outs)))
    for o, e in zip(outs, expected(name)):
        if grad and o.requires_grad:
            o.sum().backward(retain_graph=True)
        tol = 1e-9 if T == torch.float64 else 1e-4
        st.same(o, e, what, dtype=e.dtype, rtol=tol, atol=tol * max(1.0, float(torch.nan_to_num(e.abs()).max())))


def lineage_space(tier):
    depth = 3 if tier == "quick" else 4

    def space(ch):
        name = ch.pick("op", NAMES)
        module = isinstance(OPS[name].make(), torch.nn.Module)
        acts = tuple(a for a in ACTIONS if module or a not in ("eval", "train", "state", "double"))
        if OPS[name].dts[0] != "f64":
            acts = tuple(a for a in acts if a != "double")
        if tier == "quick":
            acts = tuple(a for a in acts if a not in ("train", "pickle2"))
        n = ch.pick("n", tuple(range(1, depth + 1)))
        return {"op": name, "seq": [ch.pick("a", acts) for _ in range(n)]}
    return space


def lineage_run(case, st):
    name = case["op"]
    op = OPS[name]
    expected(name)
    cur = op.make()
    cur = copy.deepcopy(cur) if cur is demosaic else cur
    family = [("original", cur)]
    for i, a in enumerate(case["seq"]):
        if a in ("use", "grad"):
            use(st, name, cur, "%s in step %d" % (a, i), a == "grad")
        elif a in ("eval", "train", "double"):
            r = getattr(cur, a)()
            st.check(r is cur, "%s() returns another object" % a)
        else:
            new = make_copy(cur, a, op)
            st.check(type(new) is type(cur), "%s gives a %s" % (a, type(new)))
            st.check(new is not cur, "%s gives the same object" % a)
            cur = new
            family.append(("step %d (%s)" % (i, a), cur))
    for what, o in family[::-1] + family[:1]:
        use(st, name, o, "result of the object from " + what)
    st.outcome((name, len(family)))


# ------------------------------------------------------------------------------------------- independence of copies

X = generic((5, 6))
INDEPENDENT = {
    "avg.to_filter": (lambda: AvgPoolNd(3, 2), lambda o: o.to_filter("constant"), lambda o: o.forward(lay(X), axes=(0, 1))),
    "gauss.to_filter": (lambda: GaussianPoolNd(3, 0.8, stride=2), lambda o: o.to_filter("reflect"), lambda o: o.forward(lay(X), axes=(0, 1))),
    "sep.to_filter": (lambda: SeparablePoolNd([[1.0, 2.0], [1.0, 0.5, 2.0]], [2, 1], same_padder=Padder(mode="circular")),
                      lambda o: o.to_filter("constant"), lambda o: o.forward(lay(X), axes=(0, 1))),
    "sep.padder": (lambda: SeparablePoolNd([1.0, 2.0, 3.0], 2, same_padder="reflect"), lambda o: setattr(o, "same_padder", Padder(mode="zeros")),
                   lambda o: o.forward(lay(X), axes=(0, 1))),
    "ssim.blur": (lambda: SSIM(AvgPoolNd(3), "reflect", crop_border=False), lambda o: o.blur.to_filter("constant"),
                  lambda o: o.forward(lay(unit((5, 6))), lay(unit((5, 6), 3)), content_axes=(0, 1), reduce_axes=(0, 1))),
    "msssim.weights": (lambda: MS_SSIM([0.5, 0.5], use_prod=False, blur=AvgPoolNd(2)), lambda o: setattr(o, "weights", (1.0, 0.0)),
                       lambda o: o.forward(lay(unit((1, 1, 5, 6))), lay(unit((1, 1, 5, 6), 3)))),
    "bayer.weights": (lambda: OPS["bayer:conv"].make(), lambda o: [p.data.zero_() for p in o.parameters()],
                      lambda o: o(lay(generic((2, 4, 4))), "GRBG")),
    "bayer.training": (lambda: OPS["bayer:unshuffle"].make(), lambda o: train_step(o), lambda o: o(lay(generic((1, 4, 6))), "BGGR")),
}


def train_step(layer):
    opt = torch.optim.SGD(layer.parameters(), lr=0.1)
    layer(lay(generic((1, 4, 6))), "RGGB").pow(2).mean().backward()
    opt.step()


def indep_space(tier):
    def space(ch):
        return {"name": ch.pick("name", tuple(INDEPENDENT)), "first": ch.pick("first", (False, True)),
                "how": [ch.pick("how", ("deepcopy", "pickle", "save", "pickle2")) for _ in range(ch.pick("n", (1, 2)))],
                "change": ch.pick("change", ("copy", "original"))}
    return space


def indep_run(case, st):
    """changing a copy leaves the original alone, and the other way round"""
    make, change, go = INDEPENDENT[case["name"]]
    exp = go(make()).detach().clone()
    changed = make()
    change(changed)
    other = go(changed).detach().clone()
    if exp.shape == other.shape and torch.allclose(exp, other):  # an attribute the object does not read again
        st.note("changes without effect")
    a = make()
    if case["first"]:
        go(a)
    b = a
    for how in case["how"]:
        b = make_copy(b, how)
    target, rest = (b, a) if case["change"] == "copy" else (a, b)
    change(target)
    st.same(go(rest), exp, "the object left alone", rtol=1e-9, atol=1e-9)
    if case["name"] not in ("sep.padder", "msssim.weights"):  # plain attributes: when they are read is not promised
        st.same(go(target), other, "the changed object", rtol=1e-9, atol=1e-9)
    st.same(go(rest), exp, "the object left alone, again", rtol=1e-9, atol=1e-9)


# -------------------------------------------------------------------------------------- checkpoints of trainable layers

def ckpt_space(tier):
    def space(ch):
        c = {"cls": ch.pick("cls", ("BayerConv2d", "BayerConv2dUnshuffle")), "ci": ch.pick("ci", (1, 2)), "co": ch.pick("co", (1, 3)),
             "k": ch.pick("k", (1, 3, 5)), "bias": ch.pick("bias", (False, True)), "wrap": ch.pick("wrap", ("none", "sequential", "dict")),
             "al": ch.pick("al", ("RGGB", "GRBG")), "steps": ch.pick("steps", (0, 1, 2))}
        return c
    return space


def wrap(layer, how):
    if how == "sequential":
        return torch.nn.Sequential(layer)
    if how == "dict":
        return torch.nn.ModuleDict({"a": torch.nn.ModuleList([layer])})
    return layer


def inner(m, how):
    return m[0] if how == "sequential" else m["a"][0] if how == "dict" else m


def ckpt_run(case, st):
    """train, save the state, load it into another instance: the instances agree, all parameters travel"""
    cls = {"BayerConv2d": BayerConv2d, "BayerConv2dUnshuffle": BayerConv2dUnshuffle}[case["cls"]]
    x = lay(unit((2, case["ci"], 6, 8)), dtype=torch.float32)

    def build(seed):
        torch.manual_seed(seed)
        return cls(case["ci"], case["co"], case["k"], case["bias"])
    a, b = build(1), build(2)
    opt = torch.optim.SGD(a.parameters(), lr=0.05)
    for i in range(case["steps"]):
        opt.zero_grad()
        before = [p.detach().clone() for p in a.parameters()]
        a(x, case["al"]).pow(2).mean().backward()
        for p in a.parameters():
            st.check(p.grad is not None and bool((p.grad != 0).any()), "a parameter gets no gradient")
        opt.step()
        st.check(all(not torch.equal(p, q) for p, q in zip(a.parameters(), before)), "a parameter is not trained")
    wa, wb = wrap(a, case["wrap"]), wrap(b, case["wrap"])
    ya = a(x, case["al"]).detach()
    st.check(not torch.allclose(ya, b(x, case["al"])), "two initialisations agree")
    state = wa.state_dict()
    missing = set(dict(wa.named_parameters())) - set(state)
    st.check(not missing, "parameters not saved: %s" % sorted(missing))
    f = io.BytesIO()
    torch.save(state, f)
    f.seek(0)
    wb.load_state_dict(torch.load(f))
    st.check(torch.equal(inner(wb, case["wrap"])(x, case["al"]), ya), "the reloaded layer gives another result")
    st.check(torch.equal(a(x, case["al"]), ya), "saving changed the layer")
    c = copy.deepcopy(wa)
    st.check(torch.equal(inner(c, case["wrap"])(x, case["al"]), ya), "the copied layer gives another result")
    d = inner(c, case["wrap"]).double()(x.double(), case["al"])
    st.same(d, ya.double(), "in double precision", rtol=1e-4, atol=1e-4)
    with torch.no_grad():
        for p in b.parameters():
            p.zero_()
    st.check(torch.equal(a(x, case["al"]), ya), "the instances share parameters")
    st.outcome(ya.numpy().tobytes()[:2048])


WEIGHT_ACTIONS = ("replace", "data", "copy_", "scale", "load", "assign", "deepcopy", "pickle", "step", "apply", "halves", "eval")


def weights_space(tier):
    def space(ch):
        n = ch.pick("n", (1, 2) if tier == "quick" else (1, 2, 3))
        return {"cls": ch.pick("cls", ("BayerConv2d", "BayerConv2dUnshuffle")), "bias": ch.pick("bias", (False, True)),
                "seq": [ch.pick("a", WEIGHT_ACTIONS) for _ in range(n)], "mode": ch.pick("mode", ("grad", "no_grad", "inference")),
                "between": ch.pick("between", (True, False)), "k": ch.pick("k", (1, 3)), "dt": ch.pick("dt", ("f64", "f32"))}
    return space


def weights_run(case, st):
    """every way of giving a layer other parameters: the outputs follow the parameters state_dict shows"""
    cls = {"BayerConv2d": BayerConv2d, "BayerConv2dUnshuffle": BayerConv2dUnshuffle}[case["cls"]]
    torch.manual_seed(3)
    x = lay(unit((2, 1, 6, 8)), dtype=DT[case["dt"]])
    tol = {"rtol": 1e-9, "atol": 1e-9} if case["dt"] == "f64" else {"rtol": 1e-4, "atol": 1e-4}

    def build():
        layer = cls(1, 2, case["k"], case["bias"])
        return layer.double() if case["dt"] == "f64" else layer
    ctx = {"grad": torch.enable_grad, "no_grad": torch.no_grad, "inference": torch.inference_mode}[case["mode"]]

    def answer(layer, al):
        with ctx():
            return layer(x, al).detach().clone()
    layer = build()
    shown = [answer(layer, "RGGB")]

    def own(m):
        for sub in m.modules():
            for n, p in list(sub._parameters.items()):
                if p is not None:
                    yield sub, n, p
    for i, a in enumerate(case["seq"]):
        salt = i + 1
        if a == "replace":
            for j, (sub, n, p) in enumerate(list(own(layer))):
                setattr(sub, n, torch.nn.Parameter(p.detach() * 2 + 0.1 * (j + salt)))
        elif a == "data":
            for j, p in enumerate(layer.parameters()):
                p.data = p.data * -1.5 + 0.05 * (j + salt)
        elif a == "copy_":
            with torch.no_grad():
                for j, p in enumerate(layer.parameters()):
                    p.copy_(torch.full_like(p, 0.3 * (j + salt)).cumsum(-1))
        elif a == "scale":
            with torch.no_grad():
                for p in layer.parameters():
                    p.mul_(1.7).add_(0.01)
        elif a in ("load", "assign"):
            state = {k: v.detach() * 0.5 + 0.2 * salt for k, v in build().state_dict().items()}
            layer.load_state_dict(state, assign=a == "assign")
        elif a in ("deepcopy", "pickle"):
            layer = make_copy(layer, a)
        elif a == "step":
            opt = torch.optim.SGD(layer.parameters(), lr=0.5)
            layer(x, "GBRG").pow(2).mean().backward()
            opt.step()
        elif a == "apply":
            layer.apply(lambda m: torch.nn.init.constant_(m.weight, 0.25 * salt) if hasattr(m, "weight") and m.weight is not None else None)
        elif a == "halves":
            layer.half().to(DT[case["dt"]])
        elif a == "eval":
            layer.eval()
        if case["between"]:
            answer(layer, "BGGR")
    fresh = build()
    fresh.load_state_dict(layer.state_dict())
    for (n1, p), (n2, q) in zip(sorted(layer.named_parameters()), sorted(fresh.named_parameters())):
        st.check(n1 == n2 and torch.equal(p, q), "parameter %s is not what state_dict shows" % n1)
    for al in ("RGGB", "GBRG"):
        got = answer(layer, al)
        st.same(got, answer(fresh, al), "outputs in %s mode after %s" % (case["mode"], case["seq"]), **tol)
        with torch.enable_grad():
            st.same(layer(x, al).detach(), got, "outputs with gradients", **tol)
    st.outcome(got.numpy().tobytes()[:2048])


# ------------------------------------------------------------------------------------------------- specifications

ND = {"scalar": lambda: NdSpec(3), "list": lambda: NdSpec([1, 2, 3]), "pairs": lambda: NdSpec([(1, 2), (3, 4)], item_shape=[2]),
      "item": lambda: NdSpec([1, 2], item_shape=[-1]), "strings": lambda: NdSpec(["reflect", "constant"]), "empty": lambda: NdSpec([]),
      "none": lambda: NdSpec(None), "ragged": lambda: NdSpec([[1.0, 2.0], [3.0]], item_shape=[-1]),
      "index": lambda: NdSpec([[1, 2], [3, 4]], index_shape=[2, 2])}


def answers(s):
    out = [("len", len(s)), ("list", repr(list(s)))]
    for i in (-3, -2, -1, 0, 1, 2, 5):
        try:
            out.append((i, repr(s[i])))
        except Exception as e:
            out.append((i, type(e).__name__))
    return out


def nd_space(tier):
    def space(ch):
        return {"name": ch.pick("name", tuple(ND)),
                "how": [ch.pick("how", ("deepcopy", "pickle", "copy", "pickle2", "save")) for _ in range(ch.pick("n", (1, 2, 3)))],
                "first": ch.pick("first", (False, True))}
    return space


def nd_run(case, st):
    exp = answers(ND[case["name"]]())
    s = ND[case["name"]]()
    if case["first"]:
        answers(s)
    family = [s]
    for how in case["how"]:
        family.append(make_copy(family[-1], how))
    for f in family + family[:1]:
        st.check(answers(f) == exp, lambda: "answers %s, expected %s" % (answers(f), exp))
    st.outcome(repr(exp))


def harnesses(tier):
    return [Harness("lineage", lineage_space(tier), lineage_run), Harness("independence", indep_space(tier), indep_run),
            Harness("checkpoints", ckpt_space(tier), ckpt_run), Harness("weights", weights_space(tier), weights_run),
            Harness("specifications", nd_space(tier), nd_run)]


def bounds(tier):
    return {"objects": len(NAMES), "sequences": "every sequence of at most %d of %d actions" % ((3, 9) if tier == "quick" else (4, 11)),
            "weights": "every sequence of at most %d of %d ways to change parameters x 3 gradient modes" % (
                2 if tier == "quick" else 3, len(WEIGHT_ACTIONS)), "independence": "%d kinds of changes, 1-2 copies" % len(INDEPENDENT)}
