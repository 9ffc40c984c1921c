"""python -m mc.run C01 [quick|thorough] | python -m mc.run --replay FILE"""
import importlib
import json
import os
import sys


def main(argv):
    from . import core
    if argv[:1] == ["--replay"]:
        prop = json.load(open(argv[1]))["property"]
        core.import_target()
        mod = importlib.import_module("mc.checks." + prop.lower())
        return core.replay_file(mod, argv[1])
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    core.import_target()
    mod = importlib.import_module("mc.checks." + prop.lower())
    return core.run_check(mod, tier, seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
