"""
C28: omitted arguments mean their documented defaults; position and keyword are two spellings of the same argument.

The tables below state, per public callable, the order of its arguments and the documented defaults.  In every context every
admissible way of writing the same call (which default-valued arguments are left out, how many leading arguments are given by
position) has to give the result of the call that writes everything by keyword.
"""
import itertools
import types

import numpy as np
import torch

from torchimage.cfa.bayer_conv import BayerConv2d, BayerConv2dUnshuffle, demosaic, last_step_demosaic
from torchimage.cfa.utils import (bayer_1c_to_4c, bayer_4c_to_1c, downsample_1c_bayer_to_rgb, downsample_4c_bayer_to_rgb,
                                  rgb_to_1c_bayer, rgb_to_4c_bayer)
from torchimage.contrib.edge_loss import GaussianEdgeLoss, WeightedDiv, WeightedMul, WeightedSum
from torchimage.filtering import (EdgeFilter, Farid, GaussianGrad, Laplace, LaplacianOfGaussian, Prewitt, Scharr, Sobel,
                                  UnsharpMask)
from torchimage.metrics import MS_SSIM, MSE, PSNR, SSIM
from torchimage.metrics.hdrvdp.pixels_per_degree import pixels_per_degree
from torchimage.misc import describe, outer, poly1d, safe_power
from torchimage.padding import Padder
from torchimage.padding.utils import pad_width_format, same_padding_width
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.pooling.gaussian import gaussian_kernel_1d
from torchimage.pooling.operator import any_conv_1d
from torchimage.random import add_gauss_noise, add_poisson_gauss_noise, random_crop
from torchimage.shapes.conv_like import conv_1d, conv_nd, n_original_elements_1d, n_original_elements_nd
from torchimage.utils import NdSpec
from torchimage.utils.ragged import expand_ragged_ndarray, get_ragged_ndarray
from torchimage.utils.validation import check_axes, check_pad_width, check_stride

from ..core import Harness, Violation
from ..util import generic, lay, unit

ID = "C28"
ASSUMPTIONS = ["arguments marked keyword-only are never given by position; required arguments are never omitted"]

E = {}
KEYWORD = object()


def entry(name, fn, req=(), opt=(), kwonly=(), contexts=({},), noeffect=()):
    """req: [(name, value)], opt: [(name, default, alternative)]; functions as values are factories"""
    E[name] = dict(fn=fn, req=list(req), opt=list(opt), kwonly=set(kwonly), contexts=list(contexts), noeffect=set(noeffect))


def val(v):
    return v() if isinstance(v, types.FunctionType) else v


def img(*shape, salt=1):
    return lambda: lay(generic(shape, salt) / 8)


def uni(*shape, salt=1):
    return lambda: lay(unit(shape, salt))


def see(out):
    """anything a callable returns -> comparable nest"""
    if torch.is_tensor(out):
        return ("tensor", str(out.dtype), tuple(out.shape), out.detach().to(torch.float64).numpy())
    if isinstance(out, np.ndarray):
        return ("array", tuple(out.shape), out.tolist())
    if isinstance(out, NdSpec):
        return ("spec", repr(out.data), tuple(out.item_shape), tuple(out.index_shape))
    if isinstance(out, (tuple, list)):
        return (type(out).__name__,) + tuple(see(o) for o in out)
    if isinstance(out, dict):
        return ("dict",) + tuple((k, see(out[k])) for k in sorted(out))
    return (type(out).__name__, repr(out))


def equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
    return a == b


IMG, PAIR = (2, 2, 7, 6), (3, 4, 8, 9)
POOLAX = slice(2, None)


def run_layer(layer, x=IMG, **kw):
    return layer.forward(lay(generic(x, 1) / 8), **kw)


# padding
entry("Padder", lambda *a, **k: run_layer(Padder(*a, **k), axes=(2, 3)), [],
      [("pad_width", 0, (1, 2)), ("mode", "constant", "reflect"), ("constant_values", 0, (3, -2)), ("end_values", 0.0, (2.0, -1.0)), ("stat_length", None, 2)],
      contexts=({}, {"pad_width": (1, 2)}, {"pad_width": 2, "mode": "linear_ramp"}, {"pad_width": 2, "mode": "mean"}))
entry("Padder.forward", lambda *a, **k: Padder((1, 2), "symmetric").forward(*a, **k), [("x", img(*IMG))], [("axes", slice(2, None), (0, 1))])
entry("Padder.to_same", lambda *a, **k: see(Padder(mode="circular").to_same(*a, **k).pad_width), [("kernel_size", 4)],
      [("stride", 1, 3), ("in_shape", None, (7, 8))], contexts=({}, {"stride": 3, "in_shape": (7, 8)}), noeffect={"stride", "in_shape"})
entry("Padder.pad_axis", lambda *a, **k: Padder([(1, 2), (3, 0)], "reflect").pad_axis(*a, **k), [("x", img(*IMG)), ("i", 0), ("axis", 2)])
entry("same_padding_width", same_padding_width, [("kernel_size", 5)], [("stride", 1, 2), ("in_size", None, 7)],
      contexts=({}, {"stride": 2, "in_size": 8}), noeffect={"stride", "in_size"})
for _n in ("Padder.to_same", "same_padding_width"):
    E[_n]["may_reject"] = True                # a stride above 1 needs the input size
entry("pad_width_format", pad_width_format, [("padding", ((1, 2), (3, 4)))], [("source", "numpy", "numpy"), ("target", "torch", "numpy"), ("ndim", None, 2)], noeffect={"source", "ndim"})

# pooling
entry("SeparablePoolNd", lambda *a, **k: run_layer(SeparablePoolNd(*a, **k), axes=(2, 3)), [],
      [("kernel", (), (1.0, -2.0, 0.5)), ("stride", None, 1), ("same_padder", None, "reflect")], {"same_padder"}, ({}, {"kernel": (1.0, 2.0, 3.0, 5.0)}))
entry("SeparablePoolNd.forward", lambda *a, **k: SeparablePoolNd((1.0, -2.0)).forward(*a, **k), [("x", img(*IMG))], [("axes", slice(2, None), (0, 2))])
entry("AvgPoolNd", lambda *a, **k: run_layer(AvgPoolNd(*a, **k), axes=(2, 3)), [("kernel_size", 3)],
      [("stride", None, 1), ("count_include_pad", True, False), ("same_padder", None, "zeros")], {"count_include_pad", "same_padder"},
      ({}, {"same_padder": "zeros"}, {"same_padder": "zeros", "stride": 2}))
entry("AvgPoolNd.forward", lambda *a, **k: AvgPoolNd(2).forward(*a, **k), [("x", img(*IMG))], [("axes", slice(2, None), (0, 2))])
entry("AvgPoolNd.forward:uncounted", lambda *a, **k: AvgPoolNd(3, 1, count_include_pad=False, same_padder="zeros").forward(*a, **k), [("x", img(*IMG))],
      [("axes", slice(2, None), (0, 2))])
entry("GaussianPoolNd", lambda *a, **k: run_layer(GaussianPoolNd(*a, **k), axes=(2, 3)), [("kernel_size", 3), ("sigma", 0.8)],
      [("order", 0, 1), ("stride", None, 1), ("same_padder", None, "reflect")], {"same_padder"})
entry("GaussianPoolNd.forward", lambda *a, **k: GaussianPoolNd(2, 0.8).forward(*a, **k), [("x", img(*IMG))], [("axes", slice(2, None), (0, 2))])
entry("AvgPoolNd.to_filter", lambda *a, **k: run_layer(AvgPoolNd(3, 2, same_padder="circular").to_filter(*a, **k), axes=(2, 3)), [], [("padder", None, "reflect")])
entry("gaussian_kernel_1d", gaussian_kernel_1d, [("kernel_size", 4), ("sigma", 0.9), ("order", 1)])
entry("any_conv_1d", any_conv_1d, [("x", img(*IMG)), ("w", lambda: torch.tensor([1.0, 2.0], dtype=torch.float64)), ("dim", 2), ("stride", 2), ("dilation", 3)],
      kwonly={"dim", "stride", "dilation"})

# filters
for _c in (Sobel, Prewitt, Scharr, Farid):
    entry(_c.__name__, lambda *a, c=_c, **k: c(*a, **k).component(lay(generic(IMG, 1) / 8), 3, (2,)), [],
          [("normalize", False, True), ("same_padder", "reflect", "zeros")], {"normalize", "same_padder"}, noeffect={"normalize"} if _c is Farid else ())
    entry(_c.__name__ + ".magnitude", lambda *a, c=_c, **k: c().magnitude(*a, **k), [("x", img(2, 5, 6))],
          [("axes", None, (1, 2)), ("epsilon", 0.0, 0.5), ("p", 2, 4)], {"epsilon", "p"})
    entry(_c.__name__ + ".all_components", lambda *a, c=_c, **k: c().all_components(*a, **k), [("x", img(2, 5, 6))], [("axes", None, (1, 2))])
    entry(_c.__name__ + ".component", lambda *a, c=_c, **k: c().component(*a, **k), [("x", img(2, 5, 6)), ("edge_axis", 1), ("smooth_axes", (2, 0))])
    entry(_c.__name__ + ".horizontal", lambda *a, c=_c, **k: c().horizontal(*a, **k), [("x", img(2, 5, 6))])
    entry(_c.__name__ + ".vertical", lambda *a, c=_c, **k: c().vertical(*a, **k), [("x", img(2, 5, 6))])
entry("EdgeFilter", lambda *a, **k: EdgeFilter(*a, **k).component(lay(generic(IMG, 1) / 8), 3, (2,)), [("edge_kernel", (-1, 0.5, 2)), ("smooth_kernel", (1, 3, 1))],
      [("normalize", False, True), ("same_padder", None, "reflect")], {"normalize", "same_padder"})
entry("GaussianGrad", lambda *a, **k: GaussianGrad(*a, **k).component(lay(generic(IMG, 1) / 8), 3, (2,)), [("kernel_size", 3), ("sigma", 0.8)],
      [("edge_kernel_size", None, 5), ("edge_sigma", None, 1.3), ("normalize", True, False), ("edge_order", 1, 2), ("same_padder", "reflect", "zeros")],
      noeffect={"normalize"})
entry("Laplace", lambda *a, **k: Laplace(*a, **k).forward(lay(generic(IMG, 1) / 8), (2, 3)), [], [("same_padder", "reflect", "zeros")], {"same_padder"})
entry("Laplace.forward", lambda *a, **k: Laplace().forward(*a, **k), [("x", img(*IMG)), ("axes", (2, 3))])
entry("LaplacianOfGaussian", lambda *a, **k: LaplacianOfGaussian(*a, **k).forward(lay(generic(IMG, 1) / 8), (2, 3)), [("kernel_size", 5), ("sigma", 0.9)],
      [("same_padder", "reflect", "zeros")], {"same_padder"})
entry("LaplacianOfGaussian.forward", lambda *a, **k: LaplacianOfGaussian(3, 0.9).forward(*a, **k), [("x", img(2, 5, 6))], [("axes", None, (1, 2))])
entry("UnsharpMask", lambda *a, **k: UnsharpMask(*a, **k).forward(lay(generic(IMG, 1) / 8), (2, 3)), [("blur", lambda: AvgPoolNd(3, same_padder="reflect"))],
      [("amount", 0.5, 1.5), ("threshold", 0, 4.0), ("padder", None, "zeros")], {"padder"})
entry("UnsharpMask.forward", lambda *a, **k: UnsharpMask(AvgPoolNd(3), padder="reflect").forward(*a, **k), [("x", img(*IMG))], [("axes", slice(2, None), (0, 2))])

# metrics
entry("MSE", lambda *a, **k: MSE(*a, **k).forward(lay(unit(PAIR, 1)), lay(unit(PAIR, 2)), (1, 2)), [], [("reduction", "mean", "sum")], {"reduction"})
entry("MSE.forward", lambda *a, **k: MSE().forward(*a, **k), [("y_pred", uni(*PAIR)), ("y_true", uni(*PAIR, salt=2))], [("reduce_axes", None, (1, 2))])
entry("PSNR", lambda *a, **k: PSNR(*a, **k).forward(lay(unit(PAIR, 1)), lay(unit(PAIR, 2)), (1, 2)), [],
      [("max_value", 1, 3.0), ("eps", 0.0, 0.25), ("reduction", "mean", "sum")], {"reduction"})
entry("PSNR.equal", lambda *a, **k: PSNR(*a, **k).forward(lay(unit(PAIR, 1)), lay(unit(PAIR, 1))), [],
      [("max_value", 1, 3.0), ("eps", 0.0, 0.25), ("reduction", "mean", "sum")], {"reduction"}, noeffect={"max_value", "reduction"})
entry("PSNR.forward", lambda *a, **k: PSNR().forward(*a, **k), [("y_pred", uni(*PAIR)), ("y_true", uni(*PAIR, salt=2))], [("reduce_axes", None, (1, 2))])
BIG = (1, 1, 13, 12)


def blur():
    return AvgPoolNd(3)


entry("SSIM", lambda *a, **k: SSIM(*a, **k).forward(lay(unit(BIG, 1)), lay(unit(BIG, 2))), [],
      [("blur", "gaussian", "mean"), ("padder", None, "zeros"), ("K1", 0.01, 0.4), ("K2", 0.03, 0.2), ("use_sample_covariance", True, False), ("crop_border", True, False)],
      contexts=({}, {"blur": blur, "padder": "reflect"}, {"blur": "mean", "crop_border": False}))
entry("SSIM.forward", lambda *a, **k: SSIM(AvgPoolNd(3)).forward(*a, **k), [("y_pred", uni(*PAIR)), ("y_true", uni(*PAIR, salt=2))],
      [("content_axes", slice(2, None), (1, 2)), ("reduce_axes", slice(1, None), (2, 3)), ("full", False, True)], {"full"},
      ({}, {"content_axes": (2, 3), "reduce_axes": (2, 3)}))
LARGE = (1, 1, 178, 177)
entry("MS_SSIM", lambda *a, **k: MS_SSIM(*a, **k).forward(lay(unit(LARGE, 1)), lay(1 - unit(LARGE, 1))), [],
      [("weights", None, (0.3, 0.7)), ("use_prod", True, False), ("blur", "gaussian", blur), ("padder", None, "reflect"), ("K1", 0.01, 0.4),
       ("K2", 0.03, 0.4), ("eps", 1e-8, 0.5), ("use_sample_covariance", True, False), ("crop_border", True, False)],
      contexts=({}, {"use_prod": False, "padder": "zeros"}, {"crop_border": False}))
entry("MS_SSIM.table", lambda *a, **k: MS_SSIM(*a, **k).forward(lay(unit(LARGE, 1)), lay(unit(LARGE, 2))), [], [("weights", (0.0448, 0.2856, 0.3001, 0.2363, 0.1333), (0.2, 0.2))],
      contexts=({},))
SMALL = (2, 2, 13, 14)
entry("MS_SSIM.small", lambda *a, **k: MS_SSIM(*a, **k).forward(lay(unit(SMALL, 1)), lay(1 - unit(SMALL, 1) ** 2)), [("weights", (0.3, 0.7))],
      [("use_prod", True, False), ("blur", blur, lambda: GaussianPoolNd(3, 0.8)), ("padder", None, "reflect"), ("K1", 0.01, 0.4),
       ("K2", 0.03, 0.4), ("eps", 1e-8, 0.5), ("use_sample_covariance", True, False), ("crop_border", True, False)],
      contexts=({"blur": blur}, {"blur": blur, "padder": "reflect", "use_prod": False}, {"blur": blur, "crop_border": False, "use_prod": False}), noeffect={"blur"})
E["MS_SSIM.small"]["never_omit"] = {"blur"}
entry("MS_SSIM.forward", lambda *a, **k: MS_SSIM((0.3, 0.7), blur=AvgPoolNd(2)).forward(*a, **k), [("y_pred", uni(*SMALL)), ("y_true", lambda: lay(0.7 * unit(SMALL, 1) + 0.3 * unit(SMALL, 2)))],
      [("content_axes", slice(2, None), (3, 2)), ("reduce_axes", slice(1, None), (2, 3)), ("full", False, False)], noeffect={"content_axes", "full"})
for _c in (GaussianEdgeLoss, WeightedMul, WeightedDiv, WeightedSum):
    entry(_c.__name__, lambda *a, c=_c, **k: c(*a, **k).double()(lay(unit((2, 3, 6, 7), 1)), lay(unit((2, 3, 6, 7), 2))), [("kernel_size", 3), ("sigma", 0.8), ("order", 1)])
    entry(_c.__name__ + ".forward", lambda *a, c=_c, **k: c(3, 0.8, 1).forward(*a, **k), [("y_pred", uni(2, 3, 6, 7)), ("y_true", uni(2, 3, 6, 7, salt=2))])

# small functions
entry("safe_power", safe_power, [("x", lambda: torch.tensor([-2.0, 0.0, 3.0], dtype=torch.float64)), ("exponent", 0.5)], [("epsilon", 1e-6, 0.25)], {"epsilon"})
entry("poly1d", poly1d, [("x", img(3, 2)), ("p", [1.0, -2.0, 0.5])])
entry("outer", outer, [("u", img(3)), ("v", img(2, salt=2))])
entry("describe", describe, [("x", img(3, 2))])
entry("pixels_per_degree", pixels_per_degree, [("display_diagonal_mm", 500.0), ("height_pix", 1080), ("width_pix", 1920), ("viewing_distance_m", 0.7)])
entry("random_crop", random_crop, [("x", img(4, 5, 6)), ("axes", (1, 2)), ("size", (2, 3)), ("generator", lambda: torch.Generator().manual_seed(3))], kwonly={"generator"})
entry("add_gauss_noise", add_gauss_noise, [("x", uni(3, 4)), ("sigma", 0.3), ("generator", lambda: torch.Generator().manual_seed(3))], kwonly={"generator"})
entry("add_poisson_gauss_noise", add_poisson_gauss_noise, [("x", uni(3, 4)), ("k", 20.0), ("sigma", 0.3), ("generator", lambda: torch.Generator().manual_seed(3))],
      kwonly={"generator"})
entry("conv_1d", conv_1d, [("in_size", 17), ("kernel_size", 3), ("stride", 2), ("dilation", 4)])
entry("conv_nd", conv_nd, [("in_size", (17, 23)), ("kernel_size", 3), ("stride", 2), ("dilation", 4)])
entry("n_original_elements_1d", n_original_elements_1d, [("in_size", 7), ("pad_width", (2, 1)), ("kernel_size", 3), ("stride", 2)])
entry("n_original_elements_nd", n_original_elements_nd, [("in_size", (7, 6)), ("pad_width", (2, 1)), ("kernel_size", 3), ("stride", 2)],
      [("device", None, None), ("dtype", torch.int32, torch.float64)], {"device", "dtype"}, noeffect={"device"})
entry("NdSpec", lambda *a, **k: NdSpec(*a, **k), [("data", [(1, 2), (3, 4)])], [("item_shape", (), (2,)), ("index_shape", None, None)], {"item_shape", "index_shape"},
      noeffect={"index_shape"})
entry("get_ragged_ndarray", get_ragged_ndarray, [("data", [[1, 2], [3, 4]])], [("strict", True, False)], noeffect={"strict"})
entry("expand_ragged_ndarray", expand_ragged_ndarray, [("data", [1, 2]), ("old_shape", (2,)), ("new_shape", (3, 2))])
entry("check_axes", check_axes, [("x", img(2, 3, 4)), ("axes", (-1, 0))])
entry("check_stride", check_stride, [("stride", 3)])
entry("check_pad_width", check_pad_width, [("pad_before", 2), ("pad_after", 3)])

# colour filter arrays


def layer(cls, a, k):
    torch.manual_seed(5)
    return cls(*a, **k)


for _c in (BayerConv2d, BayerConv2dUnshuffle):
    entry(_c.__name__, lambda *a, c=_c, **k: layer(c, a, k)(torch.ones(2, 2, 4, 6), "GRBG"), [("in_channels", 2), ("out_channels", 3), ("kernel_size", 3), ("bias", True)])
    entry(_c.__name__ + ".forward", lambda *a, c=_c, **k: layer(c, (2, 1, 3, False), {}).forward(*a, **k),
          [("x", lambda: lay(unit((1, 2, 4, 6), 1), dtype=torch.float32)), ("sensor_alignment", "GBRG")])
entry("demosaic", demosaic, [("x", lambda: lay(unit((1, 1, 6, 6), 1) * 1.6 - 0.2, dtype=torch.float32)), ("sensor_alignment", "GBRG")], [("clamp", 1.0, 0.5)])
entry("last_step_demosaic", last_step_demosaic, [("x", uni(1, 4, 4)), ("y", uni(2, 4, 4, salt=2)), ("sensor_alignment", "BGGR")])
for _f, _s in ((bayer_1c_to_4c, (1, 4, 6)), (bayer_4c_to_1c, (4, 2, 3))):
    entry(_f.__name__, _f, [("x", uni(*_s))])
for _f, _s in ((downsample_1c_bayer_to_rgb, (1, 4, 6)), (downsample_4c_bayer_to_rgb, (4, 2, 3)), (rgb_to_1c_bayer, (3, 4, 6)), (rgb_to_4c_bayer, (3, 4, 6))):
    entry(_f.__name__, _f, [("x", uni(*_s)), ("sensor_alignment", "GRBG")])


# --------------------------------------------------------------------------------------------------------------- checks

def values(e, context, alt=None):
    """the call as [(name, value)] in the order of the signature"""
    out = list(e["req"])
    for n, d, a in e["opt"]:
        out.append((n, a if n == alt else context.get(n, d)))
    return out


def invoke(e, pairs, positional, omit):
    args, kw = [], {}
    for i, (n, v) in enumerate(pairs):
        if n in omit:
            continue
        if i < positional:
            args.append(val(v))
        else:
            kw[n] = val(v)
    try:
        return see(e["fn"](*args, **kw))
    except ValueError as err:
        if not e.get("may_reject"):
            raise
        return ("rejected", type(err).__name__)


def omittable(e, context):
    no = e.get("never_omit", ())
    return [n for n, d, a in e["opt"] if n not in no and (n not in context or context[n] is d)]


def spell_space(tier):
    def space(ch):
        name = ch.pick("callable", tuple(E))
        e = E[name]
        c = ch.pick("context", list(range(len(e["contexts"]))))
        alts = [n for n, d, a in e["opt"]]
        alt = ch.pick("alternative", [None] + alts)
        free = [n for n in omittable(e, e["contexts"][c]) if n != alt]
        small = len(free) <= (5 if tier == "quick" else 7)
        subsets = [s for r in range(len(free) + 1) for s in itertools.combinations(free, r) if small or r in (0, 1, len(free) - 1, len(free)) or tier != "quick" and r <= 3]
        if alt is not None and tier == "quick" and len(free) > 3:
            subsets = [s for s in subsets if len(s) in (0, 1, len(free))]
        omit = ch.pick("omit", subsets)
        order = [n for n, _ in values(e, e["contexts"][c])]
        top = 0
        for n in order:                        # the positional prefix ends at the first omitted or keyword-only argument
            if n in omit or n in e["kwonly"]:
                break
            top += 1
        return {"callable": name, "context": c, "alternative": alt, "omit": list(omit), "positional": ch.pick("positional", list(range(top + 1)))}
    return space


REF = {}


def spell_run(case, st):
    e = E[case["callable"]]
    context = e["contexts"][case["context"]]
    pairs = values(e, context, case["alternative"])
    key = (case["callable"], case["context"], case["alternative"])
    if key not in REF:
        REF[key] = invoke(e, pairs, 0, ())
    got = invoke(e, pairs, case["positional"], case["omit"])
    st.transitions += 1
    st.comparisons += 1
    st.outcome(repr(key).encode() + repr(got).encode()[:512])
    if not equal(got, REF[key]):
        raise Violation("%s with %s: leaving out %s and giving %d arguments by position changes the result" % (
            case["callable"], ", ".join("%s=%s" % (n, v if not isinstance(v, types.FunctionType) else "...") for n, v in pairs), case["omit"], case["positional"]))


def effect_space(tier):
    def space(ch):
        name = ch.pick("callable", tuple(n for n in E if any(o[0] not in E[n]["noeffect"] for o in E[n]["opt"])))
        return {"callable": name, "argument": ch.pick("argument", [o[0] for o in E[name]["opt"] if o[0] not in E[name]["noeffect"]])}
    return space


def effect_run(case, st):
    e = E[case["callable"]]
    hit = False
    for context in e["contexts"]:
        a = invoke(e, values(e, context), 0, ())
        b = invoke(e, values(e, context, case["argument"]), 0, ())
        st.transitions += 2
        st.outcome(repr(b).encode()[:512])
        hit = hit or not equal(a, b)
    st.check(hit, "%s ignores its argument %s" % (case["callable"], case["argument"]))


def harnesses(tier):
    return [Harness("spellings", spell_space(tier), spell_run), Harness("effect", effect_space(tier), effect_run)]


def bounds(tier):
    return {"callables": len(E), "omissions": "every subset of default-valued arguments (long lists: 0, 1, all but one, all%s)" % ("" if tier == "quick" else ", up to 3"),
            "positions": "every admissible number of positional arguments", "alternatives": "each argument at another value, one at a time"}
