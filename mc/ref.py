"""
Reference models, written in plain numpy from the documentation and the published definitions; nothing here imports
torchimage.  They are deliberately boring: explicit index formulas, explicit window loops.
"""
import math
from functools import reduce

import numpy as np

COPY_MODES = ("replicate", "circular", "periodize", "symmetric", "reflect")          # out = copies of samples
LINEAR_MODES = COPY_MODES + ("antisymmetric", "odd_reflect", "odd_symmetric", "smooth")
STAT_MODES = ("maximum", "mean", "median", "minimum")
PARAM_MODES = ("zeros", "constant", "linear_ramp")
ALL_MODES = ("empty",) + PARAM_MODES + LINEAR_MODES + STAT_MODES


# ------------------------------------------------------------------------------------------------------- padding 1-d

def _coef(mode, n, j, memo):
    """Row of coefficients of the extended signal at integer position j (0..n-1 are the samples themselves)."""
    key = (mode, n, j)
    if key in memo:
        return memo[key]
    row = np.zeros(n)
    if 0 <= j < n:
        row[j] = 1
    elif mode == "replicate" or (n == 1 and mode in ("reflect", "odd_reflect", "smooth")):
        row[0 if j < 0 else n - 1] = 1
    elif mode == "circular":
        row[j % n] = 1
    elif mode == "periodize":
        m = n + n % 2
        row[min(j % m, n - 1)] = 1
    elif mode in ("symmetric", "antisymmetric"):
        k = j % (2 * n)
        if k < n:
            row[k] = 1
        else:
            row[2 * n - 1 - k] = -1 if mode == "antisymmetric" else 1
    elif mode == "reflect":
        k = j % (2 * n - 2)
        row[k if k < n else 2 * n - 2 - k] = 1
    elif mode == "odd_reflect":
        if j < 0:
            row[0] += 2
            row = row - _coef(mode, n, -j, memo)
        else:
            row[n - 1] += 2
            row = row - _coef(mode, n, 2 * (n - 1) - j, memo)
    elif mode == "odd_symmetric":
        if j < 0:
            row[0] += 2
            row = row - _coef(mode, n, -1 - j, memo)
        else:
            row[n - 1] += 2
            row = row - _coef(mode, n, 2 * n - 1 - j, memo)
    elif mode == "smooth":
        if j < 0:
            row[0] += 1 - j
            row[1] += j
        else:
            t = j - (n - 1)
            row[n - 1] += 1 + t
            row[n - 2] -= t
    else:
        raise KeyError(mode)
    memo[key] = row
    return row


_memo = {}
_mats = {}


def extension_matrix(mode, n, before, after):
    """(out, n) matrix of the linear modes; periodize adds the documented extra sample for odd n."""
    key = (mode, n, before, after)
    if key not in _mats:
        if len(_mats) > 20000:
            _mats.clear()
            _memo.clear()
        extra = n % 2 if mode == "periodize" else 0
        _mats[key] = np.stack([_coef(mode, n, j, _memo) for j in range(-before, n + extra + after)])
    return _mats[key]


def _lin(x, mat, axis):
    if mat.shape[1] != x.shape[axis]:
        raise ValueError("bad matrix")
    if np.issubdtype(x.dtype, np.integer) or x.dtype == bool:
        m = np.rint(mat).astype(np.int64)
        y = np.tensordot(np.moveaxis(x, axis, -1).astype(np.int64), m, axes=([-1], [1]))
    else:
        y = np.tensordot(np.moveaxis(x, axis, -1), mat.astype(x.dtype), axes=([-1], [1]))
    return np.moveaxis(y, -1, axis)


def _seg(x, a, b, axis):
    idx = [slice(None)] * x.ndim
    idx[axis] = slice(a, b)
    return x[tuple(idx)]


def lower_median(x, axis):
    s = np.sort(x, axis=axis)
    k = (x.shape[axis] - 1) // 2
    return _seg(s, k, k + 1, axis)


def pad_axis(x, axis, before, after, mode, constant=(0, 0), end=(0.0, 0.0), stat=(None, None), empty=np.nan):
    """Reference for padding one axis; x is a numpy array. Zero widths on both sides leave x alone."""
    if before == 0 and after == 0:
        return x
    n = x.shape[axis]
    if mode in LINEAR_MODES:
        return _lin(x, extension_matrix(mode, n, before, after), axis)

    def full(k, v):
        s = list(x.shape)
        s[axis] = k
        return np.full(s, v, dtype=np.result_type(x.dtype, np.float64) if mode == "empty" else x.dtype)

    if mode == "empty":
        return np.concatenate([full(before, empty), x, full(after, empty)], axis=axis)
    if mode == "zeros":
        return np.concatenate([full(before, 0), x, full(after, 0)], axis=axis)
    if mode == "constant":
        return np.concatenate([full(before, constant[0]), x, full(after, constant[1])], axis=axis)
    if mode == "linear_ramp":
        a, d = _seg(x, 0, 1, axis), _seg(x, n - 1, n, axis)
        shp = [1] * x.ndim
        shp[axis] = -1
        parts = []
        if before:
            t = (np.arange(before, 0, -1) / before).reshape(shp)     # 1 at the outer end
            parts.append(a + (end[0] - a) * t)
        parts.append(x)
        if after:
            t = (np.arange(1, after + 1) / after).reshape(shp)
            parts.append(d + (end[1] - d) * t)
        return np.concatenate(parts, axis=axis)
    if mode in STAT_MODES:
        f = {"maximum": lambda v: v.max(axis=axis, keepdims=True), "minimum": lambda v: v.min(axis=axis, keepdims=True),
             "mean": lambda v: v.mean(axis=axis, keepdims=True), "median": lambda v: lower_median(v, axis)}[mode]

        def clip(s):
            return n if s is None else max(1, min(n, s))
        lo = f(_seg(x, 0, clip(stat[0]), axis))
        hi = f(_seg(x, n - clip(stat[1]), n, axis))
        return np.concatenate([np.repeat(lo, before, axis), x, np.repeat(hi, after, axis)], axis=axis)
    raise KeyError(mode)


def pair(v):
    return tuple(v) if isinstance(v, (tuple, list)) else (v, v)


def pad_nd(x, axes, widths, modes, constants=None, ends=None, stats=None, empty=np.nan):
    """Sequential padding over parallel lists (already aligned), in the order of axes."""
    for i, a in enumerate(axes):
        b, c = pair(widths[i])
        x = pad_axis(x, a, b, c, modes[i],
                     constant=pair(constants[i]) if constants else (0, 0),
                     end=pair(ends[i]) if ends else (0.0, 0.0),
                     stat=pair(stats[i]) if stats else (None, None), empty=empty)
    return x


def resolve_axes(ndim, axes):
    """Meaning of every documented spelling of an axes argument."""
    if axes is None:
        return tuple(range(ndim))
    if isinstance(axes, slice):
        return tuple(range(ndim)[axes])
    if isinstance(axes, int):
        axes = (axes,)
    out = []
    for a in axes:
        if not -ndim <= a < ndim:
            raise ValueError(a)
        out.append(a % ndim)
    return tuple(out)


# ---------------------------------------------------------------------------------------------- windows, correlation

def same_width(k, s=1, n=None):
    """Smallest total >= 0 for which ceil(n/s) windows of size k exist (k-1 for stride 1), surplus in front."""
    if s is None:
        s = k
    if s == 1:
        total = max(k - 1, 0)
    else:
        want = -(-n // s)
        total = 0
        while (n + total - k) // s + 1 < want:
            total += 1
    return total - total // 2, total // 2


def windows(x, axis, k, s):
    """windows on a new last axis"""
    n = x.shape[axis]
    count = (n - k) // s + 1
    if count < 1:
        raise ValueError("no window")
    x = np.moveaxis(x, axis, -1)
    w = np.stack([x[..., i * s:i * s + k] for i in range(count)], axis=-2)
    # w: (..., count, k) ; put count back to axis
    return np.moveaxis(w, -2, axis)


def correlate_axis(x, kernel, axis, stride=1):
    w = windows(x, axis, len(kernel), stride)
    return (w * np.asarray(kernel, dtype=x.dtype)).sum(-1)


def correlate_dense(x, axes, kernels, strides):
    """Dense correlation with the outer product of the kernels on distinct axes."""
    act = [(a, np.asarray(k, dtype=x.dtype), s) for a, k, s in zip(axes, kernels, strides) if len(k)]
    if not act:
        return x
    for a, k, s in act:
        if x.shape[a] < len(k):
            raise ValueError("no window")
    w = x
    for a, k, s in act:                        # each appends one window axis at the end
        w = windows(w, a, len(k), s)
    ker = reduce(np.multiply.outer, [k for _, k, _ in act])
    return np.tensordot(w, ker, axes=(list(range(x.ndim, w.ndim)), list(range(ker.ndim))))


def pool(x, axes, kernels, strides, mode=None, **kw):
    """Separable pooling with optional same padding in one mode."""
    n = len(axes)
    strides = [len(k) if s is None else s for k, s in zip(kernels, strides)]
    strides = [s if s else 1 for s in strides]
    if mode is not None:
        widths = [same_width(len(k), s, x.shape[a]) if len(k) else (0, 0) for a, k, s in zip(axes, kernels, strides)]
        x = pad_nd(x, axes, widths, [mode] * n, **{p: [v] * n for p, v in kw.items()})
    return correlate_dense(x, axes, kernels, strides)


# ------------------------------------------------------------------------------------------------------------ kernels

def gaussian_kernel(size, sigma, order):
    """Correlation kernel: kernel[i] multiplies the sample at offset i - size//2 (before cropping even sizes)."""
    r = size // 2
    xs = np.arange(-r, r + 1, dtype=np.float64)
    g = np.exp(-xs * xs / (2.0 * sigma * sigma))
    g = g / g.sum()
    # d^m/dx^m exp(-x^2/2s^2) = (-1/s)^m He_m(x/s) exp(..), He the probabilists' Hermite polynomials
    def he(m, t):
        if m == 0:
            return np.ones_like(t)
        if m == 1:
            return t
        return t * he(m - 1, t) - (m - 1) * he(m - 2, t)
    d = (-1.0 / sigma) ** order * he(order, xs / sigma) * g
    k = d[::-1]                      # convolution written as correlation
    if len(k) != size:
        k = k[:size]
        if order == 0:
            k = k / k.sum()
    return k


EDGE_KERNELS = {
    "Sobel": ([-1, 0, 1], [1, 2, 1]),
    "Prewitt": ([-1, 0, 1], [1, 1, 1]),
    "Scharr": ([-1, 0, 1], [3, 10, 3]),
    "Farid": ([-0.109603762960254, -0.276690988455557, 0, 0.276690988455557, 0.109603762960254],
              [0.0376593171958126, 0.249153396177344, 0.426374573253687, 0.249153396177344, 0.0376593171958126]),
}


def edge_component(x, edge_axis, smooth_axes, edge, smooth, normalize, mode):
    """edge: 1 kernel; smooth: list of kernels aligned with the smoothing axes, or one kernel for all"""
    smooth_axes = [a for a in smooth_axes if a != edge_axis]
    y = pool(x, [edge_axis], [edge], [1], mode)
    if len(smooth) and not np.isscalar(smooth[0]):
        ks = [np.asarray(k, dtype=np.float64) for k in smooth]
    else:
        ks = [np.asarray(smooth, dtype=np.float64)] * len(smooth_axes)
    if normalize:
        ks = [k / k.sum() for k in ks]
    return pool(y, smooth_axes, ks, [1] * len(smooth_axes), mode)


# ------------------------------------------------------------------------------------------------------------ metrics

def ssim_maps(y1, y2, axes, kernels, mode, k1, k2, sample_cov):
    def blur(t):
        return pool(t, axes, kernels, [1] * len(axes), mode)
    m1, m2 = blur(y1), blur(y2)
    v1 = blur(y1 * y1) - m1 * m1
    v2 = blur(y2 * y2) - m2 * m2
    v12 = blur(y1 * y2) - m1 * m2
    if sample_cov:
        npix = 1
        for k in kernels:
            npix *= max(len(k), 1)            # an axis with an empty kernel is left alone
        f = npix / (npix - 1)
        v1, v2, v12 = v1 * f, v2 * f, v12 * f
    c1, c2 = k1 ** 2, k2 ** 2
    cs = (2 * v12 + c2) / (v1 + v2 + c2)
    lum = (2 * m1 * m2 + c1) / (m1 * m1 + m2 * m2 + c1)
    return lum * cs, cs


def crop(full, axes, kernels):
    for a, k in zip(axes, kernels):
        b, c = same_width(len(k))
        full = _seg(full, b, full.shape[a] - c, a)
    return full


# -------------------------------------------------------------------------------------------------------------- bayer

ALIGNMENTS = ("GBRG", "GRBG", "BGGR", "RGGB")


def site_filters():
    """Malvar-He-Cutler filters as (target colour, site) -> 5x5; sites R, B, GR (green in red row), GB."""
    g = np.array([[0, 0, -1, 0, 0], [0, 0, 2, 0, 0], [-1, 2, 4, 2, -1], [0, 0, 2, 0, 0], [0, 0, -1, 0, 0]]) / 8.0
    row = np.array([[0, 0, .5, 0, 0], [0, -1, 0, -1, 0], [-1, 4, 5, 4, -1], [0, -1, 0, -1, 0], [0, 0, .5, 0, 0]]) / 8.0
    opp = np.array([[0, 0, -1.5, 0, 0], [0, 2, 0, 2, 0], [-1.5, 0, 6, 0, -1.5], [0, 2, 0, 2, 0],
                    [0, 0, -1.5, 0, 0]]) / 8.0
    return {("G", "R"): g, ("G", "B"): g, ("R", "GR"): row, ("B", "GB"): row, ("R", "GB"): row.T, ("B", "GR"): row.T,
            ("B", "R"): opp, ("R", "B"): opp}


def site_of(alignment, r, c):
    """colour site at absolute pixel (r, c)"""
    a = alignment.upper()
    col = a[(r % 2) * 2 + c % 2]
    if col != "G":
        return col
    row = a[(r % 2) * 2:(r % 2) * 2 + 2]
    return "GR" if "R" in row else "GB"


def site_mask(alignment, h, w, site):
    return np.array([[site_of(alignment, r, c) == site for c in range(w)] for r in range(h)])


def centred_correlate_reflect(x, weight):
    """x (..., ci, h, w), weight (co, ci, k, k) odd k -> (..., co, h, w) centred, reflected borders"""
    k = weight.shape[-1]
    o = k // 2
    h, w = x.shape[-2:]
    x = pad_axis(x, x.ndim - 2, o, o, "reflect")
    x = pad_axis(x, x.ndim - 1, o, o, "reflect")
    y = np.zeros(x.shape[:-3] + (weight.shape[0], h, w), dtype=x.dtype)
    for i in range(k):
        for j in range(k):
            y += np.einsum("...chw,oc->...ohw", x[..., i:i + h, j:j + w], weight[:, :, i, j])
    return y


def pixels_per_degree(diag_mm, h, w, dist_m):
    pitch = diag_mm / math.hypot(h, w)            # mm per pixel, square pixels
    half = math.atan((pitch * h / 2) / (dist_m * 1000.0))
    return h / math.degrees(2 * half)
