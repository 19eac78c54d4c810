#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib
import json
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core  # noqa

MODULES = ["checks_mpi", "checks_h5", "checks_util", "checks_bin", "checks_fmt", "checks_names", "checks_tree", "checks_fw", "checks_swift", "checks_hash", "checks_presence"]


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = seed = rep = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            rep = args.pop(0)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))       # takes its processes along
    mods = [importlib.import_module("vf." + m) for m in MODULES]
    for m in mods:
        if prop in m.CHECKS:
            check = core.Check(prop, tier, seed)
            try:
                if rep:
                    with open(rep) as f:
                        r = json.load(f)
                    code = m.replay(check, r["payload"])
                else:
                    code = m.CHECKS[prop](check)
            except core.MachineryError as e:
                print("MACHINERY ERROR: " + str(e))
                code = check.finish() if check.violations else 2
            except Exception:
                traceback.print_exc()
                code = check.finish() if check.violations else 2
            finally:
                for p in check._procs:
                    if p.poll() is None:
                        core.kill_group(p)
                if not os.environ.get("VERIF_KEEP"):
                    import shutil
                    shutil.rmtree(check.scratch, ignore_errors=True)
            sys.exit(code)
    print("unknown property " + prop)
    sys.exit(2)


if __name__ == "__main__":
    main()
