"""
Runs a script as one rank of a job: hash_run.py SCRIPT PLAN.json ARGS...
Opening a file below the plan's directory takes as long as the plan says for this
rank, and ends the rank with SIGKILL if it is the one the plan says.
"""
import json
import os
import random
import runpy
import signal
import sys
import time

script, plan = sys.argv[1], json.load(open(sys.argv[2]))
rank = int(os.environ.get("OMPI_COMM_WORLD_RANK", "0"))
rng = random.Random(plan["seed"] * 100 + rank)
top = os.path.realpath(plan["top"])
state = {"n": 0, "busy": False}
delay = plan["delay"][rank % len(plan["delay"])] if plan["delay"] else 0


def hook(event, args):
    if event != "open" or state["busy"] or not isinstance(args[0], str):
        return
    mode = args[1]
    if mode is not None and not str(mode).startswith("r"):
        return
    state["busy"] = True
    try:
        if os.path.abspath(args[0]).startswith(top + "/"):
            state["n"] += 1
            if plan["kill"] and plan["kill"][0] == rank and plan["kill"][1] == state["n"]:
                open(plan["mark"], "w").close()
                os.kill(os.getpid(), signal.SIGKILL)
            if delay:
                time.sleep(rng.random() * delay)
    finally:
        state["busy"] = False


sys.addaudithook(hook)
sys.argv = [script] + sys.argv[3:]
runpy.run_path(script, run_name="__main__")
