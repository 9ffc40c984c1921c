"""
Explorer for bounded exhaustive exploration of the real torchimage code.

A *harness* is a pair of functions

    space(ch)        makes every decision of one execution by calling ch.pick(name, options) and returns a
                     JSON-able "case"; it runs no code under test
    run(case, st)    drives the real code for that case and compares it with a reference model, calling
                     st.same(...) / st.check(...); it raises Violation when they disagree

`enumerate_space` walks the whole decision tree depth first (options are ordered simplest first), so that every
execution of the harness within the bounds is visited exactly once.  Picks marked dev=True are *deviations*: their
first option is the default, and only paths with at most `budget` non-default deviations are explored (everything
with 0 deviations, with 1, ...).

Nothing is random: VERIF_SEED is recorded in the evidence and used for nothing else.
"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TI_REPO", "/repo")
OUT = os.environ.get("TI_OUT", VERIF)          # where evidence/ and replays/ go (scratch runs use another place)


class Violation(Exception):
    pass


class HarnessError(Exception):
    """The machinery itself is wrong (never reported as a violation)."""


class Prune(Exception):
    pass


class _Hang(BaseException):
    pass


# ---------------------------------------------------------------------------------------------------- choice tree

class Chooser:
    __slots__ = ("prefix", "trace", "names", "budget", "used")

    def __init__(self, prefix=(), budget=None):
        self.prefix = prefix
        self.trace = []
        self.names = []
        self.budget = budget
        self.used = 0

    def pick(self, name, options, dev=False):
        n = len(options)
        if n == 0:
            raise HarnessError("no options for " + name)
        if dev and self.budget is not None and self.used >= self.budget:
            n = 1
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise HarnessError("replay diverged at %s: choice %d of %d" % (name, c, n))
        if dev and c > 0:
            self.used += 1
        self.trace.append((c, n))
        self.names.append(name)
        return options[c]

    def prune(self):
        raise Prune()

    @property
    def choices(self):
        return tuple(c for c, _ in self.trace)


def enumerate_space(space, budget=None, counters=None):
    """Yield (choices, case) for every leaf; counters gets 'nodes' (tree nodes) and 'edges' added up."""
    prefix = ()
    fresh = 0          # depth from which the nodes of the next path are new
    nodes = 1
    edges = 0
    pruned = 0
    while True:
        ch = Chooser(prefix, budget)
        try:
            case = space(ch)
            ok = True
        except Prune:
            ok = False
            pruned += 1
        tr = ch.trace
        nodes += len(tr) - fresh
        edges += len(tr) - fresh
        if ok:
            yield ch.choices, case
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            break
        prefix = tuple(c for c, _ in tr[:i]) + (tr[i][0] + 1,)
        fresh = i
    if counters is not None:
        counters["nodes"] = counters.get("nodes", 0) + nodes
        counters["edges"] = counters.get("edges", 0) + edges
        counters["pruned"] = counters.get("pruned", 0) + pruned


def replay_choices(space, choices, budget=None):
    ch = Chooser(choices, budget)
    case = space(ch)
    if ch.choices != tuple(choices):
        raise HarnessError("replaying a choice vector gave another path")
    return case


class Harness:
    def __init__(self, name, space, run, budget=None, about=""):
        self.name, self.space, self.run, self.budget, self.about = name, space, run, budget, about


# ------------------------------------------------------------------------------------------------------- comparing

def _np(t):
    import torch
    if torch.is_tensor(t):
        t = t.detach()
        if t.dtype == torch.bfloat16:
            t = t.to(torch.float32)
        return t.cpu().numpy()
    return np.asarray(t)


def brief(a, n=24):
    a = _np(a)
    s = np.array2string(a.reshape(-1)[:n], precision=6, separator=",", threshold=n + 1).replace("\n", "")
    return "shape=%s %s%s" % (tuple(a.shape), s, "..." if a.size > n else "")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.comparisons = 0
        self.states = 0          # states found by explorers nested inside run() (histories, schedules, RNG answers)
        self.transitions = 0
        self.outcomes = set()
        self.samples = []
        self.case = None
        self.extra = {}

    def note(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def outcome(self, data):
        self.evaluations += 1
        if len(self.outcomes) < 300000:
            if not isinstance(data, (bytes, bytearray)):
                data = repr(data).encode()
            self.outcomes.add(zlib.crc32(data))

    def check(self, cond, msg):
        self.comparisons += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def same(self, actual, expected, what="", rtol=1e-9, atol=1e-9, dtype=None, count=True):
        """actual (tensor) agrees with expected (array) in shape and value; NaN only where expected is NaN."""
        self.comparisons += 1
        import torch
        if dtype is not None and torch.is_tensor(actual) and actual.dtype != dtype:
            raise Violation("%s: element type %s, expected %s" % (what, actual.dtype, dtype))
        a = _np(actual)
        e = _np(expected)
        if a.shape != e.shape:
            raise Violation("%s: shape %s, expected %s" % (what, tuple(a.shape), tuple(e.shape)))
        if a.dtype == bool or e.dtype == bool:
            ok = np.array_equal(a, e)
        else:
            ok = a.size == 0 or np.allclose(a, e, rtol=rtol, atol=atol, equal_nan=True)
        if count:
            self.outcome(a.tobytes()[:4096] + repr(a.shape).encode())
        if not ok:
            raise Violation("%s: got %s, expected %s" % (what, brief(a), brief(e)))


# --------------------------------------------------------------------------------------------- uninitialised memory

FRESH = ["nan"]          # content of fresh memory; C25 varies it


def install_poison():
    """Own the content of fresh memory: everything torch.empty & co. return is NaN / a conspicuous value."""
    import torch

    def poison(t):
        if not torch.is_tensor(t):
            return t
        how = FRESH[0]
        with torch.no_grad():
            if t.is_floating_point() or t.is_complex():
                t.fill_({"nan": float("nan"), "zero": 0.0, "large": 6e4}[how])
            elif t.dtype == torch.bool:
                t.fill_(how != "zero")
            else:
                t.fill_({"nan": 0x5B, "zero": 0, "large": 0x7F}[how])
        return t

    def wrap(f):
        def g(*a, **k):
            return poison(f(*a, **k))
        g.__name__ = getattr(f, "__name__", "empty")
        return g

    for name in ("empty", "empty_like", "empty_strided"):
        setattr(torch, name, wrap(getattr(torch, name)))
    for name in ("new_empty", "new_empty_strided"):
        setattr(torch.Tensor, name, wrap(getattr(torch.Tensor, name)))


LINES = set()


def watch_lines():
    """development aid (TI_COV=directory): record which lines of torchimage the executions reach"""
    m = sys.monitoring
    prefix = os.path.join(os.path.realpath(REPO), "torchimage") + os.sep

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            LINES.add((code.co_filename[len(prefix):], line))
        return m.DISABLE
    m.use_tool_id(m.COVERAGE_ID, "lines")
    m.register_callback(m.COVERAGE_ID, m.events.LINE, on_line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def import_target():
    import warnings
    warnings.filterwarnings("ignore")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import torch
    torch.set_num_threads(1)
    install_poison()
    if os.environ.get("TI_COV"):
        watch_lines()
    import torchimage
    f = os.path.realpath(torchimage.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("torchimage imported from " + f)


# ----------------------------------------------------------------------------------------------------------- runner

def _alarm(sig, frm):
    raise _Hang()


MAX_PER_WORKER = 3
CASE_LIMIT_S = 60.0


def _worker(w, nw, leaves, harnesses, cur, deadline, pipe, case_limit):
    signal.signal(signal.SIGALRM, _alarm)
    st = Stats()
    viol = []
    done = 0
    capped = False
    err = None
    try:
        for k in range(w, len(leaves), nw):
            if time.time() > deadline:
                capped = True
                break
            hi, vec = leaves[k]
            h = harnesses[hi]
            case = replay_choices(h.space, vec, h.budget)
            st.case = case
            cur[w] = k
            ev0 = st.evaluations
            msg = None
            signal.setitimer(signal.ITIMER_REAL, case_limit)
            try:
                try:
                    h.run(case, st)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Violation as v:
                msg = str(v)
            except HarnessError:
                raise
            except _Hang:
                msg = "did not finish within %g s" % case_limit
            except (KeyboardInterrupt, SystemExit):
                raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-4:])
                msg = "raised %s: %s (%s)" % (type(e).__name__, str(e)[:300], where)
            if st.evaluations == ev0:
                st.outcome(b"ok" if msg is None else b"bad")
            done += 1
            if len(st.samples) < 3 and (k // nw) in (0, len(leaves) // (3 * nw), 2 * len(leaves) // (3 * nw)):
                st.samples.append({"harness": h.name, "case": case})
            if msg is not None:
                viol.append((k, hi, case, msg))
                if len(viol) >= MAX_PER_WORKER or "did not finish" in msg:
                    break
    except BaseException:
        err = traceback.format_exc()
    cur[w] = -1
    if LINES:
        with open(os.path.join(os.environ["TI_COV"], "%d.txt" % os.getpid()), "w") as fh:
            fh.writelines("%s:%d\n" % x for x in sorted(LINES))
    pipe.send({"done": done, "viol": viol, "capped": capped, "err": err,
               "evaluations": st.evaluations, "comparisons": st.comparisons, "states": st.states,
               "transitions": st.transitions, "outcomes": st.outcomes, "samples": st.samples, "extra": st.extra})
    pipe.close()
    os._exit(0)


def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                d = json.loads(line[len("known: "):])
                if d["property"] == prop:
                    known.append(d)
    return known


def run_check(mod, tier, seed):
    t0 = time.time()
    prop = mod.ID
    budget_s = 780 if tier == "quick" else 4 * 3600
    harnesses = mod.harnesses(tier)
    counters = {}
    leaves = []
    per = {}
    for hi, h in enumerate(harnesses):
        n0 = len(leaves)
        for vec, _ in enumerate_space(h.space, h.budget, counters):
            leaves.append((hi, vec))
        per[h.name] = len(leaves) - n0
        if per[h.name] == 0:
            raise HarnessError("harness %s has no case" % h.name)
    t_enum = time.time() - t0
    nw = max(1, min(int(os.environ.get("TI_JOBS", os.cpu_count() or 1)), len(leaves)))
    # interleave the harnesses evenly over workers, long ones first
    leaves_w = leaves
    cur = mp.Array("l", [-1] * nw, lock=False)
    case_limit = getattr(mod, "CASE_LIMIT_S", CASE_LIMIT_S) * (1 if tier == "quick" else 10)
    deadline = t0 + budget_s
    procs = []
    for w in range(nw):
        a, b = mp.Pipe(duplex=False)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                _worker(w, nw, leaves_w, harnesses, cur, deadline, b, case_limit)
            finally:
                os._exit(3)
        b.close()
        procs.append((w, pid, a))
    done = evals = comps = st_states = st_trans = 0
    outcomes = set()
    samples = []
    viol = []
    extra = {}
    capped = False
    errors = []
    for w, pid, a in procs:
        res = None
        try:
            res = a.recv()
        except EOFError:
            pass
        _, status = os.waitpid(pid, 0)
        if res is None:
            sig = status & 0x7F
            k = cur[w]
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and k >= 0:
                hi, vec = leaves[k]
                viol.append((k, hi, replay_choices(harnesses[hi].space, vec, harnesses[hi].budget),
                             "the interpreter died with signal %d" % sig))
            else:
                errors.append("worker %d ended with status %d at leaf %d" % (w, status, k))
            continue
        if res["err"]:
            errors.append(res["err"])
        done += res["done"]
        evals += res["evaluations"]
        comps += res["comparisons"]
        st_states += res["states"]
        st_trans += res["transitions"]
        outcomes |= res["outcomes"]
        samples += res["samples"]
        viol += res["viol"]
        capped = capped or res["capped"]
        for k, v in res["extra"].items():
            extra[k] = extra.get(k, 0) + v
    viol.sort(key=lambda v: v[0])

    known = load_known(prop)
    listed, fresh = [], []
    for v in viol:
        key = json.dumps({"harness": harnesses[v[1]].name, "case": v[2]}, sort_keys=True)
        hit = next((d for d in known if d["key"] == key), None)
        (listed if hit else fresh).append((v, hit))
    for v, hit in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))

    exhaustive = not capped and not errors and not viol and done == len(leaves)
    cov = {
        "states": counters.get("nodes", 0) + st_states,
        "transitions": counters.get("edges", 0) + st_trans,
        "traces_validated_against_impl": done,
        "evaluations": evals,
        "distinct_nontrivial": len(outcomes),
        "comparisons": comps,
        "executions_planned": len(leaves),
        "executions_per_harness": per,
        "pruned_paths": counters.get("pruned", 0),
        "states_of_nested_explorers": st_states,
        "transitions_of_nested_explorers": st_trans,
        "exhaustive": exhaustive,
        "capped_by_time": capped,
        "rule": "every leaf of the decision tree of each harness is executed once against the real code and compared "
                "with the reference model; a case is distinct and non-trivial when its observed outcome (values and "
                "shape) differs from every other one",
        "bounds": mod.bounds(tier),
        "samples": [s for s in samples[:12:2]],
        "enumeration_s": round(t_enum, 2),
    }
    cov.update({"nested_" + k: v for k, v in sorted(extra.items())})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    tmp = os.path.join(OUT, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(OUT, "evidence", prop + ".json"))

    for e in errors:
        print("HARNESS-ERROR " + e, file=sys.stderr)
    print("%s %s: %d executions of %d, %d evaluations, %d distinct outcomes, %d states, %d transitions, %.1f s%s" % (
        prop, tier, done, len(leaves), evals, len(outcomes), cov["states"], cov["transitions"], ev["wall_s"],
        " (CAPPED)" if capped else ""))
    if fresh:
        d = os.path.join(OUT, "replays", prop)
        os.makedirs(d, exist_ok=True)
        for (k, hi, case, msg), _ in fresh[:5]:
            body = {"property": prop, "tier": tier, "harness": harnesses[hi].name, "case": case, "message": msg}
            name = "%08x" % zlib.crc32(json.dumps([prop, harnesses[hi].name, case], sort_keys=True).encode())
            path = os.path.join(d, name + ".json")
            with open(path, "w") as f:
                json.dump(body, f, indent=1)
            print("  %s %s: %s" % (harnesses[hi].name, json.dumps(case), msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        return 2
    return 0


def replay_file(mod, path):
    d = json.load(open(path))
    for tier in ("quick", "thorough"):
        for h in mod.harnesses(tier):
            if h.name == d["harness"]:
                st = Stats()
                st.case = d["case"]
                try:
                    h.run(d["case"], st)
                except HarnessError:
                    raise
                except Violation as v:
                    print("still fails:", v)
                    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
                    return 1
                except Exception as e:
                    traceback.print_exc()
                    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
                    return 1
                print("the case passes")
                return 0
    print("no such harness", d["harness"])
    return 2
