"""C01: one padded axis, every mode, every (length, before, after) up to a bound."""
import numpy as np
import torch

from torchimage.padding import Padder

from .. import ref
from ..core import Harness
from ..util import DT, generic, lay, tol, weak_orders

ID = "C01"
ASSUMPTIONS = ["the padder treats the other axes of the tensor as independent rows (decided separately by C02/C20)",
               "linear modes are decided on the complete one-hot basis, so agreement extends to every signal by linearity "
               "up to floating-point rounding; order statistics are decided on every weak ordering of the samples"]
PLACES = ("last", "first", "mid", "only")


def place(rows, where):
    """rows (m, n) -> tensor with n on the padded axis, the axis index, and the inverse view (always (m, n'))"""
    m = rows.shape[0]
    if where == "last":
        return rows, 1, lambda y: y
    if where == "first":
        return np.ascontiguousarray(rows.T), 0, lambda y: y.T
    if where == "mid":
        return rows.reshape(1, m, rows.shape[1], 1).transpose(3, 0, 2, 1), 2, lambda y: y[0, 0].T
    raise KeyError(where)


def basis(n):
    return np.concatenate([np.eye(n), generic((3, n))])


def run_padder(padder, rows, where, dt="f64"):
    """padded rows as numpy (m, n')"""
    if where == "only":                     # 1-d tensors, row by row
        return np.stack([padder.forward(lay(r, dtype=DT[dt]), axes=0).detach().cpu().double().numpy() for r in rows])
    x, axis, back = place(rows, where)
    y = padder.forward(lay(x, dtype=DT[dt]), axes=axis)
    if y.dtype != DT[dt]:
        raise AssertionError("type changed to %s" % y.dtype)
    return back(y.detach().cpu().double().numpy())


# ------------------------------------------------------------------------------------------------- linear extensions

def widths_for(n, tier):
    top = 2 * n + 3 if tier == "quick" else 3 * n + 4
    return list(range(0, top + 1))


def linear_space(tier):
    nmax = 5 if tier == "quick" else 9

    def space(ch):
        mode = ch.pick("mode", ref.LINEAR_MODES)
        n = ch.pick("n", list(range(1, nmax + 1)))
        where = ch.pick("where", PLACES if n <= 3 or tier != "quick" else PLACES[:2])
        b = ch.pick("before", widths_for(n, tier))
        return {"mode": mode, "n": n, "where": where, "before": b, "wmax": widths_for(n, tier)[-1]}
    return space


def linear_run(case, st):
    n, mode, b = case["n"], case["mode"], case["before"]
    rows = basis(n)
    for a in range(case["wmax"] + 1):
        if a == b == 0:
            continue
        out = run_padder(Padder(pad_width=(b, a), mode=mode), rows, case["where"])
        st.same(out, ref.pad_axis(rows, 1, b, a, mode), "mode %s n=%d widths (%d,%d)" % (mode, n, b, a))


def ladder_space(tier):
    ns = (6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257)
    if tier != "quick":
        ns += (10, 11, 12, 13, 14, 18, 19, 20, 24, 25, 48, 49, 50, 99, 101, 200, 300, 511, 512, 513)

    def space(ch):
        mode = ch.pick("mode", ref.LINEAR_MODES)
        n = ch.pick("n", ns)
        return {"mode": mode, "n": n}
    return space


def ladder_run(case, st):
    n, mode = case["n"], case["mode"]
    rows = generic((2, n), salt=3)
    ws = sorted({0, 1, 2, 3, n // 2, n - 2, n - 1, n, n + 1, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n + 1})
    full = ref.extension_matrix(mode, n, ws[-1], ws[-1])
    big = ref._lin(rows, full, 1)
    extra = n % 2 if mode == "periodize" else 0
    for b in ws:
        for a in ws:
            if a == b == 0:
                continue
            out = run_padder(Padder(pad_width=(b, a), mode=mode), rows, "last")
            st.same(out, big[:, ws[-1] - b: ws[-1] + n + extra + a], "mode %s n=%d widths (%d,%d)" % (mode, n, b, a))


def repeat_space(tier):
    """widths of many signal lengths: every period of the extension is crossed several times"""
    ns = (1, 2, 3, 4, 5, 6, 7) if tier == "quick" else tuple(range(1, 14)) + (16, 17, 31)

    def space(ch):
        return {"mode": ch.pick("mode", ref.LINEAR_MODES), "n": ch.pick("n", ns),
                "dt": ch.pick("dt", ("f64", "f32")), "where": ch.pick("where", ("last", "first")), "tier": tier}
    return space


def repeat_run(case, st):
    n, mode, dt = case["n"], case["mode"], case["dt"]
    rows = generic((2, n), salt=8)
    top = 16 * n + 5 if case["tier"] == "quick" else 40 * n + 5
    full = ref._lin(rows, ref.extension_matrix(mode, n, top, top), 1)
    extra = n % 2 if mode == "periodize" else 0
    t = tol(dt)
    t = dict(t, atol=t["atol"] * 100)
    for w in list(range(1, top)) + [top]:
        for b, a in ((w, 0), (0, w), (w, w), (w, 1), (2, w)):
            if max(a, b) > top:
                continue
            out = run_padder(Padder(pad_width=(b, a), mode=mode), rows, case["where"], dt)
            st.same(out, full[:, top - b: top + n + extra + a], "mode %s type %s n=%d widths (%d,%d)" % (
                mode, dt, n, b, a), **t)


def special_space(tier):
    def space(ch):
        return {"mode": ch.pick("mode", ref.COPY_MODES), "n": ch.pick("n", tuple(range(1, 8)) + (33,)),
                "dt": ch.pick("dt", ("f64", "f32", "f16"))}
    return space


def special_run(case, st):
    """copying modes copy infinities, NaN and the largest numbers too, and spread them nowhere else"""
    n, mode, dt = case["n"], case["mode"], case["dt"]
    sp = np.array([np.inf, -np.inf, np.nan, 6e4, -6e4, 0.0])
    rows = generic((6, n))
    for i in range(6):
        rows[i, (i * 2) % n] = sp[i]
    rows = np.concatenate([rows, np.tile(sp, n)[:n][None]])
    for b in range(0, 2 * n + 2, max(1, n // 7)):
        for a in range(0, 2 * n + 2, max(1, n // 7)):
            if a == b == 0:
                continue
            out = run_padder(Padder(pad_width=(b, a), mode=mode), rows, "last", dt)
            exp = rows[:, ref.extension_matrix(mode, n, b, a).argmax(1)]
            st.same(out, exp, "mode %s n=%d widths (%d,%d) with infinities and NaN" % (mode, n, b, a), rtol=1e-3)


# ------------------------------------------------------------------------------------------------------- statistics

def stat_space(tier):
    nmax = 4 if tier == "quick" else 5

    def space(ch):
        mode = ch.pick("mode", ref.STAT_MODES)
        n = ch.pick("n", list(range(1, nmax + 1)))
        sb = ch.pick("sb", [None] + list(range(0, n + 2)))
        sa = ch.pick("sa", [None] + list(range(0, n + 2)) + [100])
        where = ch.pick("where", PLACES[:3])
        return {"mode": mode, "n": n, "stat": [sb, sa], "where": where}
    return space


def stat_run(case, st):
    n, mode = case["n"], case["mode"]
    rows = np.concatenate([np.array(weak_orders(n), dtype=float) * 2 - 3, np.eye(n) * 5, generic((2, n))])
    stat = tuple(case["stat"])
    for b in (0, 1, 2, 5):
        for a in (0, 1, 3, 7):
            if a == b == 0:
                continue
            out = run_padder(Padder(pad_width=(b, a), mode=mode, stat_length=stat), rows, case["where"])
            st.same(out, ref.pad_axis(rows, 1, b, a, mode, stat=stat), "mode %s n=%d stat %s widths (%d,%d)" % (
                mode, n, stat, b, a))


def statladder_space(tier):
    def space(ch):
        mode = ch.pick("mode", ref.STAT_MODES)
        n = ch.pick("n", (5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257) if tier == "quick" else
                    tuple(range(5, 80)) + (100, 127, 128, 129, 255, 256, 257, 512, 1000, 1025))
        return {"mode": mode, "n": n}
    return space


def statladder_run(case, st):
    n, mode = case["n"], case["mode"]
    rows = np.concatenate([generic((2, n), salt=5), np.sort(generic((1, n), 1), 1), -np.sort(generic((1, n), 2), 1)])
    for sb in (None, 1, 2, 3, n // 2, n - 1, n, n + 5):
        for sa in (None, 1, 2, 4, n // 2, n - 1, n, 10 * n):
            for b, a in ((2, 3), (0, 1), (1, 0)):
                out = run_padder(Padder(pad_width=(b, a), mode=mode, stat_length=(sb, sa)), rows, "last")
                st.same(out, ref.pad_axis(rows, 1, b, a, mode, stat=(sb, sa)), "mode %s n=%d stat (%s,%s)" % (
                    mode, n, sb, sa))


# ----------------------------------------------------------------------------------------- values: constants and ramps

VALS = (0, 1, -2, 0.5, -7.25, 1e6)


def value_space(tier):
    def space(ch):
        mode = ch.pick("mode", ("zeros", "constant", "linear_ramp", "empty"))
        n = ch.pick("n", (1, 2, 3, 5, 17, 64) if tier == "quick" else tuple(range(1, 20)) + (31, 64, 65, 257))
        where = ch.pick("where", PLACES)
        if mode in ("constant", "linear_ramp"):
            v0 = ch.pick("v0", VALS)
            v1 = ch.pick("v1", VALS)
        else:
            v0 = v1 = 0
        return {"mode": mode, "n": n, "where": where, "v": [v0, v1]}
    return space


def value_run(case, st):
    n, mode, v = case["n"], case["mode"], tuple(case["v"])
    rows = generic((3, n))
    for b in (0, 1, 2, 3, 6, 19):
        for a in (0, 1, 2, 4, 7, 33):
            if a == b == 0:
                continue
            # the parameter of the other mode is present and must not interfere
            kw = {"constant_values": v, "end_values": (5, -5)} if mode != "linear_ramp" else \
                {"end_values": v, "constant_values": (9, -9)}
            out = run_padder(Padder(pad_width=(b, a), mode=mode, **kw), rows, case["where"])
            exp = ref.pad_axis(rows, 1, b, a, mode, constant=v, end=v)
            if mode == "empty":
                st.check(out.shape == exp.shape, "mode empty: shape %s" % (out.shape,))
                st.same(out[:, b:b + n], rows, "mode empty: original samples")
            else:
                st.same(out, exp, "mode %s n=%d widths (%d,%d) values %s" % (mode, n, b, a, v))


# ------------------------------------------------------------------------------------------------------ element types

INT = ("i64", "i32", "i16")
MODE_TYPES = {}
for _m in ref.COPY_MODES + ("zeros", "constant", "empty"):
    MODE_TYPES[_m] = ("f64", "f32", "f16", "bf16", "i64", "i32", "i16", "u8", "bool")
for _m in ("antisymmetric", "odd_reflect", "odd_symmetric", "smooth"):
    MODE_TYPES[_m] = ("f64", "f32", "f16", "bf16") + INT
for _m in ("maximum", "median", "minimum"):
    MODE_TYPES[_m] = ("f64", "f32", "f16", "bf16", "u8") + INT
MODE_TYPES["mean"] = MODE_TYPES["linear_ramp"] = ("f64", "f32", "f16", "bf16")


def dtype_space(tier):
    def space(ch):
        mode = ch.pick("mode", tuple(MODE_TYPES))
        dt = ch.pick("dt", MODE_TYPES[mode])
        n = ch.pick("n", (1, 2, 3, 4, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 9, 17, 33))
        return {"mode": mode, "dt": dt, "n": n}
    return space


def dtype_run(case, st):
    mode, dt, n = case["mode"], case["dt"], case["n"]
    rows = np.abs(generic((3, n), lo=-9, span=19)) if dt == "u8" else generic((3, n), lo=-9, span=19)
    if dt == "bool":
        rows = (rows > 0).astype(float)
    cv = (1, 0) if dt in ("u8", "bool") else (3, -2)
    for b, a in ((0, 1), (1, 0), (1, 1), (2, 3), (n, n + 1), (2 * n + 1, n), (4, 9)):
        p = Padder(pad_width=(b, a), mode=mode, constant_values=cv, end_values=(2, -1), stat_length=(2, None))
        out = run_padder(p, rows, "last", dt)
        exp = ref.pad_axis(rows, 1, b, a, mode, constant=cv, end=(2, -1), stat=(2, None))
        what = "mode %s type %s n=%d widths (%d,%d)" % (mode, dt, n, b, a)
        if mode == "empty":
            st.same(out[:, b:b + n], rows, what)
        else:
            t = tol(dt)
            if mode in ("smooth", "odd_reflect", "odd_symmetric", "linear_ramp", "mean"):
                t = dict(t, atol=t["atol"] * 60)
            else:
                t = {"rtol": 0, "atol": 0}
            st.same(out, exp, what, **t)


def harnesses(tier):
    return [Harness("linear", linear_space(tier), linear_run),
            Harness("linear_ladder", ladder_space(tier), ladder_run),
            Harness("repeat", repeat_space(tier), repeat_run),
            Harness("special", special_space(tier), special_run),
            Harness("stat", stat_space(tier), stat_run),
            Harness("stat_ladder", statladder_space(tier), statladder_run),
            Harness("value", value_space(tier), value_run),
            Harness("dtype", dtype_space(tier), dtype_run)]


def bounds(tier):
    return {"linear": "every mode, length 1..%d, every pair of widths up to %s, one-hot basis + generic rows, 4 axis placements"
                      % ((5, "2n+3") if tier == "quick" else (9, "3n+4")),
            "ladder": "lengths to %d with 14x14 width pairs around 0, n/2, n, 2n, 3n" % (257 if tier == "quick" else 513),
            "repeat": "lengths 1..7 (thorough 1..13,16,17,31), every width to %d times the length on one side, the other and both"
                      % (16 if tier == "quick" else 40),
            "stat": "every weak ordering of up to %d samples, every statistic length None,0..n+1" % (4 if tier == "quick" else 5),
            "value": "6x6 constants/ramp ends, 36 width pairs", "dtype": "9 element types"}
