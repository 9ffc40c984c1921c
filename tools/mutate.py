"""
Development tool (no check uses it): systematic small mutations of every torchimage source file, judged by the quick checks.

  tools/mutate.py FILE[,FILE...] OUT.jsonl [workers [checks]]     FILE relative to torchimage/, e.g. padding/pad_1d.py

One mutant at a time in a scratch copy; the checks of MAP are run in order until one reports. Survivors (of these checks; the slow ones C18-C20, C22, C24, C25
are left out, see the second stage in DESIGN.md) are written with their diff: each is either equivalent, outside every property, or a gap in a check.
"""
import ast
import copy
import json
import os
import shutil
import signal
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/torchimage"
MAP = {
    "padding/pad_1d.py": "C01 C02 C03",
    "padding/generic_pad.py": "C02 C03 C01 C21 C05",
    "padding/utils.py": "C04 C21 C01 C05",
    "pooling/base.py": "C05 C07 C21 C03 C08",
    "pooling/operator.py": "C05 C21",
    "pooling/gaussian.py": "C06 C08 C21 C03",
    "pooling/uniform.py": "C07 C05 C21",
    "filtering/edges.py": "C08 C21 C23",
    "filtering/sharpen.py": "C09",
    "metrics/base.py": "C12 C21",
    "metrics/mse.py": "C12",
    "metrics/psnr.py": "C12",
    "metrics/ssim.py": "C11 C21 C10",
    "metrics/hdrvdp/pixels_per_degree.py": "C16",
    "misc/power.py": "C15",
    "misc/polynomial.py": "C16",
    "misc/outer.py": "C16",
    "misc/stats.py": "C16",
    "shapes/conv_like.py": "C04 C07 C21",
    "utils/ndspec.py": "C03 C21 C02 C05",
    "utils/ragged.py": "C03 C21",
    "utils/validation.py": "C21 C02 C05",
    "random.py": "C17 C21",
    "contrib/edge_loss.py": "C23",
    "cfa/utils/bayer_1c_4c.py": "C13 C21",
    "cfa/utils/bayer_to_rgb.py": "C13 C21",
    "cfa/utils/rgb_to_bayer.py": "C13 C21",
    "cfa/utils/validation.py": "C13 C21 C14",
    "cfa/bayer_conv/bayer_conv_2d.py": "C14 C21",
    "cfa/bayer_conv/gradient_corrected.py": "C14",
}
CMP = {ast.Lt: (ast.LtE, ast.GtE), ast.LtE: (ast.Lt, ast.Gt), ast.Gt: (ast.GtE, ast.LtE), ast.GtE: (ast.Gt, ast.Lt), ast.Eq: (ast.NotEq,),
       ast.NotEq: (ast.Eq,), ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,), ast.In: (ast.NotIn,), ast.NotIn: (ast.In,)}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
NAMES = {"head": "tail", "tail": "head", "before": "after", "after": "before", "r": "c", "c": "r", "y1": "y2", "h": "w", "w": "h", "min": "max",
         "max": "min", "mu1": "mu2", "sigma1_sq": "sigma2_sq", "all": "any", "any": "all", "content_axes": "reduce_axes",
         "reduce_axes": "content_axes", "edge_axis": "smooth_axes", "kernel_size": "stride", "stride": "kernel_size", "sum": "max"}
ATTRS = {"index": "rindex", "rindex": "index", "start": "stop", "stop": "start", "stride": "kernel_size", "kernel_size": "stride", "all": "any",
         "any": "all", "mean": "sum", "sum": "mean", "min": "max", "max": "min", "K1": "K2", "K2": "K1", "edge_filter": "smooth_filter",
         "constant_values": "end_values", "end_values": "constant_values", "item_shape": "index_shape", "index_shape": "item_shape"}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
            out.add(id(n.body[0]))
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n.exc if isinstance(n, ast.Raise) and n.exc else n.msg if isinstance(n, ast.Assert) and n.msg else ast.Pass()):
                out.add(id(m))
    return out


def mutants(src):
    """(line, description, new source) for every mutation of every node"""
    base = ast.parse(src)
    skip = docstrings(base)
    nodes = [n for n in ast.walk(base)]
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        for what, change in changes(n):
            t = copy.deepcopy(base)
            m = [x for x in ast.walk(t)][i]
            change(m)
            try:
                new = ast.unparse(ast.fix_missing_locations(t))
            except Exception:
                continue
            yield getattr(n, "lineno", 0), what, new


def changes(n):
    def setter(**kw):
        def f(m):
            for k, v in kw.items():
                setattr(m, k, v() if callable(v) else v)
        return f
    if isinstance(n, ast.Compare):
        for j, o in enumerate(n.ops):
            for new in CMP[type(o)]:
                yield "%s -> %s" % (type(o).__name__, new.__name__), lambda m, j=j, new=new: m.ops.__setitem__(j, new())
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        yield "%s -> %s" % (type(n.op).__name__, BIN[type(n.op)].__name__), setter(op=BIN[type(n.op)])
    if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
        yield "aug %s -> %s" % (type(n.op).__name__, BIN[type(n.op)].__name__), setter(op=BIN[type(n.op)])
    if isinstance(n, ast.BoolOp):
        yield "and/or", setter(op=ast.And if isinstance(n.op, ast.Or) else ast.Or)
        for j in range(len(n.values)):
            yield "drop operand %d" % j, lambda m, j=j: m.values.pop(j) if len(m.values) > 2 else m.values.__setitem__(j, m.values[1 - j])
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        yield "drop minus", setter(op=ast.UAdd)
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield "flip", setter(value=not n.value)
        elif isinstance(n.value, int):
            yield "+1", setter(value=n.value + 1)
            yield "-1", setter(value=n.value - 1)
        elif isinstance(n.value, float):
            yield "float", setter(value=n.value * 1.01 + 1e-3)
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
        if not isinstance(n, ast.While):
            yield "condition True", setter(test=lambda: ast.Constant(True))
        yield "condition False", setter(test=lambda: ast.Constant(False))
    for field in ("body", "orelse"):
        b = getattr(n, field, None)
        if isinstance(b, list) and not isinstance(n, ast.Module):
            for j, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert, ast.Continue, ast.Return)) and not (
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    yield "delete: " + ast.unparse(s)[:60], lambda m, j=j, field=field: getattr(m, field).__setitem__(j, ast.Pass())
    if isinstance(n, ast.Call):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            yield "swap arguments", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1])
        for j in range(len(n.keywords)):
            yield "drop keyword %s" % n.keywords[j].arg, lambda m, j=j: m.keywords.pop(j)
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
        yield "name %s -> %s" % (n.id, NAMES[n.id]), setter(id=NAMES[n.id])
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ATTRS:
        yield "attr %s -> %s" % (n.attr, ATTRS[n.attr]), setter(attr=ATTRS[n.attr])
    if isinstance(n, ast.Slice):
        for f in ("lower", "upper", "step"):
            if getattr(n, f) is not None:
                yield "slice without " + f, setter(**{f: None})


def forked(c, env, limit):
    """one quick check in a forked process that has torch loaded already: its exit status, or None when out of time"""
    pid = os.fork()
    if pid == 0:
        os.setsid()
        os.environ.update(env)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        rc = 2
        try:
            import importlib
            rc = importlib.import_module("mc.run").main([c, "quick"])
        finally:
            os._exit(rc)
    end = time.time() + limit
    while time.time() < end:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(status)
        time.sleep(0.05)
    os.killpg(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None


def judge(k, rel, new, checks, limit):
    t = "/tmp/mut/%s" % k
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(SRC, t + "/torchimage", ignore=shutil.ignore_patterns("__pycache__"))
    with open(t + "/torchimage/" + rel, "w") as f:
        f.write(new)
    try:
        for c in checks:
            rc = forked(c, {"TI_REPO": t, "TI_OUT": t + ".out", "TI_JOBS": "1"}, limit)
            if rc != 0:
                return c + ("" if rc == 1 else "(time)" if rc is None else "(rc %d)" % rc)
        return None
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(t + ".out", ignore_errors=True)


def main():
    rels, out, workers = sys.argv[1].split(","), sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 4
    only = sys.argv[4].split(",") if len(sys.argv) > 4 else None
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["n"]) for d in map(json.loads, open(out))}
    jobs = []
    for rel in rels:
        src = open(os.path.join(SRC, rel)).read()
        clean = ast.unparse(ast.parse(src))
        seen = {clean}
        for n, (line, what, new) in enumerate(mutants(src)):
            if new in seen:
                continue
            seen.add(new)
            try:
                compile(new, rel, "exec")
            except SyntaxError:
                continue
            if (rel, n) not in done:
                jobs.append((rel, n, line, what, clean, new))
    print(len(jobs), "mutants", flush=True)
    t0 = time.time()
    sys.path.insert(0, ROOT)
    import numpy, pywt, torch  # noqa: loaded once, inherited by every check
    torch.set_num_threads(1)
    running = 0
    for job in jobs:
        if running >= workers:
            os.wait()
            running -= 1
        if os.fork() == 0:
            try:
                rel, n, line, what, clean, new = job
                res = judge(rel.replace("/", "_") + str(n), rel, new, only or MAP[rel].split(), 900)
                a, b = clean.splitlines(), new.splitlines()
                diff = [x for x in b if x not in a][:2] + ["WAS"] + [x for x in a if x not in b][:2]
                with open(out, "a") as f:
                    f.write(json.dumps({"file": rel, "n": n, "line": line, "what": what, "killed": res, "diff": diff if not res else []}) + "\n")
                if not res:
                    print("SURVIVES %s:%d %s | %s (%d s)" % (rel, line, what, " / ".join(x.strip() for x in diff), time.time() - t0), flush=True)
            finally:
                os._exit(0)
        running += 1
    while running:
        os.wait()
        running -= 1


for _v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
main()
