"""writes MANIFEST.json from properties.jsonl and the table below"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = ("explicit bounded exhaustive enumeration of %s on the real code (decision-tree explorer), each execution "
       "compared with a reference model")
T = {
    "C01": SEQ % "mode x length x widths x parameters x element type x layout",
    "C02": SEQ % "axis orders, spellings, per-axis parameter lists and modes",
    "C03": SEQ % "nested data shapes, item shapes, containers and index expressions",
    "C04": SEQ % "kernel, stride, dilation, padding and size tuples",
    "C05": SEQ % "axes orders, kernels, strides, padding modes and sizes over a complete (one-hot/generic) input basis",
    "C06": SEQ % "sizes, standard deviations, orders and axis combinations",
    "C07": SEQ % "kernel, stride, axes order, counting option and padding",
    "C08": SEQ % "detectors, custom kernels, axes, options and entry points over a generic input basis",
    "C09": SEQ % "blur layers, axes, amounts, thresholds",
    "C10": SEQ % "options, windows, axes and reduce axes",
    "C11": SEQ % "levels, weights, blurs, padders and axes",
    "C12": SEQ % "axis spellings, reductions, shapes",
    "C13": SEQ % "layouts, alignments, leading shapes, element types and malformed shapes",
    "C14": SEQ % "alignments, filters, sizes over a complete one-hot input basis",
    "C15": SEQ % "bases, exponents, shapes, element types and epsilons from a closed value alphabet",
    "C16": SEQ % "coefficient lists, shapes, element types, display geometries",
    "C17": "exhaustive enumeration of every answer of the (substituted) random source on the real code, plus every "
           "history of generator use up to a bound, against a reference model",
    "C18": "explicit-state search over call histories on the real objects: all sequences up to a depth plus breadth-"
           "first search with deep state canonicalisation, against fresh-object results",
    "C19": SEQ % "operations x entries x directions of the full Jacobian (against a finite-difference or linear oracle)",
    "C20": SEQ % "operations x layouts x batch ranks x axis permutations",
    "C21": SEQ % "invalid requests and their valid neighbours (with a hang watchdog)",
    "C22": "stateless model checking of real threads under a controlled scheduler (sys.settrace): all schedules up to a "
           "preemption bound, against the sequential results",
    "C23": SEQ % "losses, sizes, sigmas, orders and image shapes",
    "C24": "explicit bounded exhaustive enumeration of object histories (every sequence of uses, copies, serialisations and mode "
           "switches up to a depth on the real objects), every object of the lineage compared with a fresh one",
    "C25": "explicit enumeration of the states of the ambient configuration (all combinations within a distance of the initial "
           "one) with every operation on the real code: each call must be a self-loop with the results of the initial state",
    "C29": SEQ % "operations x histories of devices of one object x places of tensor parameters, devices simulated by torch's FakeTensorMode",
    "C28": SEQ % "spellings of a call: omitted default arguments, positional prefixes, one argument at another value",
    "C27": SEQ % "operations and modes over degenerate shapes (empty batches, no axes, one-pixel axes)",
    "C26": SEQ % "operations x single special entries, exponents of scale, extremes of the integer types",
}
NOTE = {
    "C17": "All answers of the random source within the bounds are enumerated by substituting torch's generator-facing "
           "functions; trusts that torch's own samplers have the distributions they document.",
    "C18": "Complete for the listed worlds up to the depth bound, and beyond it wherever the state search reaches a "
           "fixpoint; trusts that Python-visible state of objects and modules is all the state there is.",
    "C29": "Complete for the listed operations and histories; the devices are torch's fake ones, so shapes, types and device rules are "
           "exact while values on the second device are not computed; trusts torch's fake kernels and device rules.",
    "C22": "Complete for the listed pairs of operations up to the stated preemption bound with scheduling points at "
           "(a bounded number of executions of) every torchimage source line; switches inside torch C++ calls are not "
           "explored.",
}
DEFAULT = ("Every case within the bounds printed in the evidence is executed once on the code in /repo and compared with "
           "an independent reference model (itself validated against numpy, pywt and torch by tools/selftest.py); "
           "says nothing beyond the bounds; trusts torch and numpy arithmetic up to the stated tolerance.")
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "model_checking",
                   "level_note": NOTE.get(i, DEFAULT)})
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": [],
       "notes": "Nothing is built and no hooks are needed: the checks import torchimage from /repo's working tree "
                "(python, no byte code written). ./check --replay <file> re-executes one recorded violation."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
