"""
Catalogue of the public tensor operations, shared by the gradient, purity/layout and thread checks.

Op.call(obj, xs, axes) runs the operation on tensors xs (content along `axes`) and returns a tuple of tensors.
  k        numbers of content axes it is exercised with
  fixed    the content axes are always the last ones (no axes argument); lead gives the allowed numbers of leading axes
  out      "map": result has the axes of the input; "reduced": content axes are gone; "scalar"
  linear   exactly linear (affine, if affine) in xs[0]
  ints     meaningful for integer tensors (kept exactly)
"""
import itertools

import numpy as np
import torch

from torchimage.cfa.bayer_conv import BayerConv2d, BayerConv2dUnshuffle, demosaic, last_step_demosaic
from torchimage.cfa.utils import (bayer_1c_to_4c, bayer_4c_to_1c, downsample_1c_bayer_to_rgb,
                                  downsample_4c_bayer_to_rgb, rgb_to_1c_bayer, rgb_to_4c_bayer)
from torchimage.contrib.edge_loss import GaussianEdgeLoss, WeightedDiv, WeightedMul, WeightedSum
from torchimage.filtering import (EdgeFilter, Farid, GaussianGrad, Laplace, LaplacianOfGaussian, Prewitt, Scharr, Sobel,
                                  UnsharpMask)
from torchimage.metrics import MS_SSIM, MSE, PSNR, SSIM
from torchimage.misc import outer, poly1d, safe_power
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.pooling.operator import any_conv_1d
from torchimage.random import add_gauss_noise, add_poisson_gauss_noise, random_crop

from . import ref

OPS = {}


class Op:
    def __init__(self, name, make, call, k=(2,), nin=1, out="map", linear=False, affine=False, ints=False, fixed=False,
                 shape=None, lead=(0, 1, 2), sizes=(5, 6, 4), smooth=True, dts=("f64", "f32"), positive=False, group=""):
        self.name, self.make, self._call, self.k, self.nin, self.out = name, make, call, k, nin, out
        self.linear, self.affine, self.ints, self.fixed, self.shape, self.lead = linear, affine, ints, fixed, shape, lead
        self.sizes, self.smooth, self.dts, self.positive = sizes, smooth, dts, positive
        OPS[name] = self

    def call(self, obj, xs, axes):
        r = self._call(obj, xs, tuple(axes) if axes is not None else None)
        return tuple(r) if isinstance(r, (tuple, list)) else (r,)


def simple(obj, xs, axes):
    return obj.forward(xs[0], axes=axes)


def ssim_call(o, xs, ax):
    s, f = o.forward(xs[0], xs[1], content_axes=ax, reduce_axes=ax, full=True)
    return (f,)


# padding --------------------------------------------------------------------------------------------------------

for _m in ref.ALL_MODES:
    if _m == "empty":
        continue
    _kw = {"constant": {"constant_values": [(3, -2)]}, "linear_ramp": {"end_values": [(2.0, -1.0)]},
           "maximum": {"stat_length": 3}, "minimum": {"stat_length": (2, 3)}, "median": {"stat_length": 3}}.get(_m, {})
    Op("pad:" + _m, (lambda m=_m, kw=_kw: Padder(pad_width=(3, 2), mode=m, **kw)), simple, k=(1, 2),
       linear=_m in ref.LINEAR_MODES + ("zeros", "mean"), affine=_m in ("constant", "linear_ramp"),
       ints=_m in ref.COPY_MODES + ("zeros", "constant", "maximum", "minimum", "antisymmetric", "odd_reflect", "odd_symmetric"),
       sizes=(4, 3, 5))
Op("pad:mixed", lambda: Padder(pad_width=[(1, 2), (3, 0)], mode=["reflect", "constant"], constant_values=[(0, 0), (1, 5)]), simple,
   k=(2,), affine=True, ints=True)
Op("pad_axis", lambda: Padder(pad_width=[(1, 2), (3, 0)], mode=["smooth", "symmetric"]),
   lambda o, xs, ax: o.pad_axis(xs[0], -1, ax[0]), k=(1,), linear=True, ints=True)

# pooling --------------------------------------------------------------------------------------------------------

Op("pool:valid", lambda: SeparablePoolNd([1.0, 2.0, -0.5], 2), simple, k=(1, 2), linear=True)
Op("pool:peraxis", lambda: SeparablePoolNd([[1.0, 3.0], [0.5, -1.0, 2.0]], [2, 1], same_padder="reflect"), simple, k=(2,), linear=True)
Op("pool:skip", lambda: SeparablePoolNd([[], [0.5, -1.0, 2.0]], 1, same_padder="circular"), simple, k=(2,), linear=True)
for _m in ("reflect", "smooth", "constant", "odd_symmetric"):
    Op("pool:same:" + _m, (lambda m=_m: SeparablePoolNd([0.25, 0.5, 0.75, 1.0], 3, same_padder=m)), simple, k=(1, 2), linear=True)
Op("avg:valid", lambda: AvgPoolNd(2), simple, k=(1, 2, 3), linear=True)
Op("avg:pad", lambda: AvgPoolNd(3, 2, same_padder="zeros"), simple, k=(1, 2), linear=True)
Op("avg:nopad", lambda: AvgPoolNd([3, 2], [1, 2], count_include_pad=False, same_padder="zeros"), simple, k=(2,), linear=True)
Op("avg:filter", lambda: AvgPoolNd(3).to_filter("symmetric"), simple, k=(1, 2, 3), linear=True)
Op("gauss", lambda: GaussianPoolNd(3, 0.8).to_filter("reflect"), simple, k=(1, 2, 3), linear=True)
Op("gauss:deriv", lambda: GaussianPoolNd([3, 4], [0.8, 1.2], [1, 0], 1, same_padder=Padder(mode="replicate")), simple, k=(2,), linear=True)
Op("any_conv_1d", lambda: None, lambda o, xs, ax: any_conv_1d(xs[0], torch.tensor([1.0, -2.0, 0.5], dtype=xs[0].dtype, device=xs[0].device), dim=ax[0],
                                                              stride=2, dilation=1), k=(1,), linear=True)
Op("any_conv_1d:dilated", lambda: None,
   lambda o, xs, ax: any_conv_1d(xs[0], torch.tensor([1.0, -2.0], dtype=xs[0].dtype, device=xs[0].device), dim=ax[0], stride=1, dilation=3), k=(1,),
   linear=True)

# filters --------------------------------------------------------------------------------------------------------

for _c in (Sobel, Prewitt, Scharr, Farid):
    Op("edge:%s:component" % _c.__name__, (lambda c=_c: c(same_padder="symmetric")),
       lambda o, xs, ax: o.component(xs[0], edge_axis=ax[0], smooth_axes=ax), k=(1, 2), linear=True)
    Op("edge:%s:all" % _c.__name__, (lambda c=_c: c(normalize=True)), lambda o, xs, ax: o.all_components(xs[0], axes=ax), k=(2,),
       linear=True)
    Op("edge:%s:magnitude" % _c.__name__, (lambda c=_c: c()), lambda o, xs, ax: o.magnitude(xs[0], axes=ax, epsilon=0.1), k=(2,))
Op("edge:Sobel:fine", lambda: Sobel(normalize=True), lambda o, xs, ax: o.magnitude(xs[0], axes=ax, epsilon=1e-9), k=(2,))
Op("edge:Sobel:l1", lambda: Sobel(), lambda o, xs, ax: o.magnitude(xs[0], axes=ax, epsilon=0, p=1), k=(2,), linear=True)
Op("edge:Sobel:hv", lambda: Sobel(), lambda o, xs, ax: (o.horizontal(xs[0]), o.vertical(xs[0])), fixed=True, shape=(5, 6), linear=True)
Op("edge:custom", lambda: EdgeFilter([-1.5, 0.25, 1.0], [1.0, 2.0], normalize=True, same_padder="replicate"),
   lambda o, xs, ax: o.component(xs[0], edge_axis=ax[0], smooth_axes=ax[1:]), k=(1, 2), linear=True)
Op("edge:discrete", lambda: EdgeFilter([1, -2, 1], [1, 2, 1], same_padder="reflect"),
   lambda o, xs, ax: o.component(xs[0], edge_axis=ax[0], smooth_axes=ax[1:]), k=(1, 2), linear=True)
Op("laplace", lambda: Laplace(), simple, k=(2,), linear=True)
Op("log", lambda: LaplacianOfGaussian(5, 0.9), simple, k=(2,), linear=True)
Op("gaussgrad", lambda: GaussianGrad(3, 0.8, edge_kernel_size=5, edge_sigma=0.7, edge_order=1),
   lambda o, xs, ax: o.magnitude(xs[0], axes=ax, epsilon=0.05), k=(2,))
Op("gaussgrad:all", lambda: GaussianGrad(3, 0.8, edge_order=2), lambda o, xs, ax: o.all_components(xs[0], axes=ax), k=(2,), linear=True)
Op("unsharp", lambda: UnsharpMask(GaussianPoolNd(3, 0.8), 0.7, 0, padder="reflect"), simple, k=(1, 2), linear=True)
Op("unsharp:threshold", lambda: UnsharpMask(AvgPoolNd(3), 1.5, 4.0, padder="replicate"), simple, k=(1, 2))

# operations that may hand their input through unchanged: nothing they do afterwards may write into it
Op("pad:none", lambda: Padder(pad_width=0, mode="reflect"), simple, k=(1, 2), linear=True, ints=True)
Op("pool:none", lambda: SeparablePoolNd([], same_padder="reflect"), simple, k=(1, 2), linear=True, ints=True)
Op("edge:none:l1", lambda: EdgeFilter((), (), same_padder="reflect"),
   lambda o, xs, ax: o.magnitude(xs[0], axes=ax, epsilon=0.5, p=1), k=(2, 3), affine=True)
Op("unsharp:none", lambda: UnsharpMask(SeparablePoolNd([]), 0.7, 0.5, padder="reflect"), simple, k=(1, 2), linear=True)
Op("ssim:none", lambda: SSIM(SeparablePoolNd([]), None, K1=0.2, K2=0.3, use_sample_covariance=False), ssim_call, k=(1, 2), nin=2)

# metrics --------------------------------------------------------------------------------------------------------


Op("ssim:map", lambda: SSIM(GaussianPoolNd(3, 0.8), "reflect"), ssim_call, k=(1, 2), nin=2)
Op("ssim:score", lambda: SSIM(AvgPoolNd(3), "constant"),
   lambda o, xs, ax: o.forward(xs[0], xs[1], content_axes=ax, reduce_axes=ax), k=(1, 2), nin=2, out="reduced")
Op("ssim:valid", lambda: SSIM(AvgPoolNd([2, 3]), None, K1=0.2, K2=0.3, use_sample_covariance=False),
   lambda o, xs, ax: o.forward(xs[0], xs[1], content_axes=ax, reduce_axes=ax), k=(2,), nin=2, out="reduced")
Op("msssim:prod", lambda: MS_SSIM((0.4, 0.6), blur=AvgPoolNd(2), padder="reflect", K1=0.1, K2=0.3),
   lambda o, xs, ax: o.forward(xs[0], xs[1], content_axes=ax, reduce_axes=ax), k=(2,), nin=2, out="reduced")
Op("msssim:sum", lambda: MS_SSIM((0.3, 0.7), use_prod=False, blur=AvgPoolNd(2), use_sample_covariance=False, K1=0.1, K2=0.3),
   lambda o, xs, ax: o.forward(xs[0], xs[1], content_axes=ax, reduce_axes=ax), k=(2,), nin=2, out="reduced")
Op("mse", lambda: MSE(), lambda o, xs, ax: o.forward(xs[0], xs[1], reduce_axes=ax), k=(1, 2), nin=2, out="reduced")
Op("mse:sum", lambda: MSE(reduction="sum"), lambda o, xs, ax: o.forward(xs[0], xs[1], reduce_axes=ax), k=(1, 2), nin=2, out="reduced")
Op("mse:none", lambda: MSE(reduction="none"), lambda o, xs, ax: o.forward(xs[0], xs[1], reduce_axes=ax), k=(1, 2), nin=2)
Op("psnr", lambda: PSNR(max_value=3, eps=1e-3), lambda o, xs, ax: o.forward(xs[0], xs[1], reduce_axes=ax), k=(1, 2), nin=2, out="reduced")
Op("psnr:fine", lambda: PSNR(eps=1e-9), lambda o, xs, ax: o.forward(xs[0], xs[1], reduce_axes=ax), k=(1, 2), nin=2, out="reduced")
for _n, _c in (("plain", GaussianEdgeLoss), ("mul", WeightedMul), ("div", WeightedDiv), ("sum", WeightedSum)):
    Op("edgeloss:" + _n, (lambda c=_c, k=3 + (_n == "div"): c(k, 0.8, 1)), lambda o, xs, ax: o(xs[0], xs[1]), fixed=True, shape=(2, 4, 5), lead=(1,), nin=2,
       out="scalar")

# colour filter arrays ---------------------------------------------------------------------------------------------


def bayer_layer(cls, ci, co, k, bias):
    def make():
        layer = cls(ci, co, k, bias).double()
        with torch.no_grad():
            for i, p in enumerate(layer.parameters()):
                p.copy_(((torch.arange(p.numel(), dtype=torch.float64, device="cpu") * (3 + i)) % 7 - 3).reshape(p.shape) / 2)
        return layer
    return make


Op("bayer:1c4c", lambda: None, lambda o, xs, ax: bayer_1c_to_4c(xs[0]), fixed=True, shape=(1, 4, 6), linear=True, ints=True)
Op("bayer:4c1c", lambda: None, lambda o, xs, ax: bayer_4c_to_1c(xs[0]), fixed=True, shape=(4, 2, 3), linear=True, ints=True)
Op("bayer:rgb1c", lambda: None, lambda o, xs, ax: rgb_to_1c_bayer(xs[0], "GBRG"), fixed=True, shape=(3, 4, 2), linear=True, ints=True)
Op("bayer:rgb4c", lambda: None, lambda o, xs, ax: rgb_to_4c_bayer(xs[0], "bggr"), fixed=True, shape=(3, 4, 2), linear=True, ints=True)
Op("bayer:down1", lambda: None, lambda o, xs, ax: downsample_1c_bayer_to_rgb(xs[0], "RGGB"), fixed=True, shape=(1, 4, 2), linear=True)
Op("bayer:down4", lambda: None, lambda o, xs, ax: downsample_4c_bayer_to_rgb(xs[0], "GRBG"), fixed=True, shape=(4, 2, 3), linear=True)
Op("bayer:conv", bayer_layer(BayerConv2d, 2, 3, 3, True), lambda o, xs, ax: o(xs[0], "GRBG"), fixed=True, shape=(2, 4, 4), lead=(0, 1),
   affine=True, dts=("f64",))
Op("bayer:unshuffle", bayer_layer(BayerConv2dUnshuffle, 1, 2, 3, False), lambda o, xs, ax: o(xs[0], "BGGR"), fixed=True,
   shape=(1, 4, 6), lead=(0, 1), linear=True, dts=("f64",))
Op("bayer:demosaic", lambda: demosaic, lambda o, xs, ax: o(xs[0], "RGGB", clamp=1000.0), fixed=True, shape=(1, 6, 6), lead=(0, 1),
   dts=("f32",))
Op("bayer:last", lambda: None, lambda o, xs, ax: last_step_demosaic(xs[0], torch.cat([xs[0] * 2, xs[0] * 3], dim=-3), "GBRG"),
   fixed=True, shape=(1, 4, 4), linear=True, ints=True)

# pointwise ----------------------------------------------------------------------------------------------------------

Op("poly1d", lambda: None, lambda o, xs, ax: poly1d(xs[0] / 10, [2.0, -1.0, 0.5, 3.0]), k=(1,))
Op("poly1d:line", lambda: None, lambda o, xs, ax: poly1d(xs[0], [2.0, -1.0]), k=(1,), affine=True)
Op("poly1d:monic", lambda: None, lambda o, xs, ax: poly1d(xs[0], [1.0, -1.0]), k=(1,), affine=True)
Op("poly1d:zero", lambda: None, lambda o, xs, ax: poly1d(xs[0], [0.0, 1.0, 0.0]), k=(1,), affine=True)
Op("poly1d:const", lambda: None, lambda o, xs, ax: poly1d(xs[0], [2.0]), k=(1,), affine=True)
Op("safe_power", lambda: None, lambda o, xs, ax: safe_power(xs[0] / 7, 1.5), k=(1,))
Op("safe_power:direct", lambda: None, lambda o, xs, ax: safe_power(xs[0], 1.5), k=(1,))
Op("safe_power:neg", lambda: None, lambda o, xs, ax: safe_power(xs[0] / 7 + 0.03, -0.5), k=(1,))
Op("safe_power:tensor", lambda: None,
   lambda o, xs, ax: safe_power(xs[0] / 7 + 0.03, torch.tensor([0.5], dtype=xs[0].dtype, device=xs[0].device)), k=(1,))
Op("safe_power:raw", lambda: None, lambda o, xs, ax: safe_power(xs[0], 2.5), k=(1, 2))
Op("safe_power:eps", lambda: None, lambda o, xs, ax: safe_power(xs[0], 0.5, epsilon=0.25), k=(1, 2))
Op("poly1d:raw", lambda: None, lambda o, xs, ax: poly1d(xs[0], [0.5, -1.0, 0.0, 2.0]), k=(1, 2))
