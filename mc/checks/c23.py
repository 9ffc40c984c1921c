"""C23: Gaussian edge losses."""
import numpy as np
import torch

from torchimage.contrib.edge_loss import GaussianEdgeLoss, WeightedDiv, WeightedMul, WeightedSum

from .. import ref
from ..core import Harness
from ..util import DT, LAYOUTS, lay, unit

ID = "C23"
ASSUMPTIONS = ["the dividing variant is compared where no reference edge is zero"]
CLASSES = {"plain": GaussianEdgeLoss, "mul": WeightedMul, "div": WeightedDiv, "sum": WeightedSum}


def edges(y, k, sigma, order):
    e = ref.gaussian_kernel(k, sigma, order)
    s = ref.gaussian_kernel(k, sigma, 0)
    return np.concatenate([ref.edge_component(y, a, (2, 3), list(e), list(s), True, "reflect") for a in (2, 3)], axis=1)


def loss(kind, ep, et):
    d = np.abs(et - ep)
    if kind == "plain":
        return d.mean()
    if kind == "mul":
        return (d * et).mean()
    if kind == "div":
        return (d / et).mean()
    return np.abs(np.abs(et).mean(axis=(2, 3)) - np.abs(ep).mean(axis=(2, 3))).mean()


def space_(tier):
    def space(ch):
        return {"kind": ch.pick("kind", tuple(CLASSES)), "k": ch.pick("k", (3, 5, 4, 7) if tier != "quick" else (3, 5, 4)),
                "sigma": ch.pick("sigma", (1.5, 0.6, 3.0)), "order": ch.pick("order", (1, 0, 2, 3)),
                "shape": list(ch.pick("shape", ((1, 1, 5, 5), (2, 3, 6, 5), (1, 2, 8, 4), (3, 1, 5, 9), (1, 4, 6, 5), (2, 5, 4, 4)))),
                "dt": ch.pick("dt", ("f64", "f32")), "layout": ch.pick("layout", LAYOUTS[:3])}
    return space


def run(case, st):
    k, sigma, order, shape = case["k"], case["sigma"], case["order"], case["shape"]
    a, b = unit(shape), unit(shape, 5)
    t = {"rtol": 1e-7, "atol": 1e-9} if case["dt"] == "f64" else {"rtol": 2e-3, "atol": 1e-4}
    layer = CLASSES[case["kind"]](k, sigma, order) if k % 2 else CLASSES[case["kind"]](kernel_size=k, sigma=sigma, order=order)
    for name, (x, y) in {"generic": (a, b), "swapped": (b, a), "scaled": (0.5 * a, a), "shifted": (a + 1, a)}.items():
        ep, et = edges(x, k, sigma, order), edges(y, k, sigma, order)
        # conditioning of the dividing variant
        if case["kind"] == "div" and np.abs(et).min() < (1e-6 if case["dt"] == "f64" else 0.05):
            continue
        tx, ty = lay(x, case["layout"], DT[case["dt"]]), lay(y, case["layout"], DT[case["dt"]])
        kx, ky = tx.clone(), ty.clone()
        got = layer(tx, ty)
        st.same(got, loss(case["kind"], ep, et), name, dtype=DT[case["dt"]], **t)
        st.same(layer.forward(y_pred=tx, y_true=ty), loss(case["kind"], ep, et), name + " keywords", count=False, **t)
        st.check(torch.equal(tx, kx) and torch.equal(ty, ky), "an input was modified")
    et = edges(a, k, sigma, order)
    if case["kind"] != "div" or np.abs(et).min() > 1e-6:
        ta = lay(a, dtype=DT[case["dt"]])
        for tb in (ta.clone(), ta):
            z = layer(ta, tb)
            st.check(z.shape == () and float(z) == 0, "identical images give %s" % z)


def ladder_space(tier):
    def space(ch):
        return {"kind": ch.pick("kind", tuple(CLASSES)), "k": ch.pick("k", (7, 9, 11, 15, 16, 21, 31)), "sigma": ch.pick("sigma", (1.5, 5.0)),
                "order": ch.pick("order", (1, 2)), "shape": list(ch.pick("shape", ((2, 3, 40, 37), (1, 8, 17, 64)))), "dt": "f64",
                "layout": "contiguous"}
    return space


def harnesses(tier):
    return [Harness("loss", space_(tier), run), Harness("ladder", ladder_space(tier), run)]


def bounds(tier):
    return {"kernel sizes": (3, 4, 5) if tier == "quick" else (3, 4, 5, 7), "orders": "0..3", "sigmas": 3, "shapes": 6, "channels": "1..5"}
