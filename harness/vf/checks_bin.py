"""Checks of the binary file layer: C16 (decoding) and C17 (cache, exports)."""
import json
import os

from . import core
from .gen_bin import BinGen


def run_programs(check, progs, driver="bin_driver.py", module="BinTrace", shards=6, procs=6, timeout=500, slim=None):
    """Each program is a list of steps beginning with "begin"."""
    n = max(1, min(procs, len(progs)))
    jobs = []
    for i in range(n):
        part = progs[i::n]
        pf, out, log = check.path("p%d.json" % i), check.path("trace%d.ndjson" % i), check.path("log%d.txt" % i)
        with open(pf, "w") as f:
            json.dump(part, f)
        e = core.base_env()
        cwd = os.path.dirname(check.path("work%d" % i, "x"))
        e["TMPDIR"] = cwd
        p = check.spawn([core.PY, os.path.join(core.HARNESS, "vf", driver), pf, out], env=e, cwd=cwd, log=log)
        jobs.append((p, part, out, log))
    events, origin = [], []
    for p, part, out, log in jobs:
        rc = check.wait(p, timeout)
        evs = core.read_ndjson(out)
        complete = bool(evs) and evs[-1]["op"] == "end"
        if complete:
            evs = evs[:-1]
        k = -1
        for e in evs:
            if e["op"] == "begin":
                k += 1
            origin.append(part[k])
        events += evs
        if rc != 0 or not complete:
            if "ModuleNotFoundError: No module named 'vf'" in core.tail(log):
                raise core.MachineryError(core.tail(log, 1500))
            check.violation("crash", "the run ended in the middle of a program (exit code %s): %s" %
                            (rc, core.tail(log, 1500)),
                            {"programs": [part[max(k, 0)]], "driver": driver, "module": module})
    for e in events[1:4]:
        check.sample(e)
    for b in check.validate(module, events, shards=shards) if events else []:
        e = b["event"]
        i = next(j for j, x in enumerate(events) if x is e)
        check.violation("%s:%s" % (e["op"], ",".join(b["clauses"])),
                        "%s violates %s: %s" % (e["op"], b["clauses"], json.dumps(e)[:900]),
                        {"programs": [origin[i]], "driver": driver, "module": module})
    return events


def c16(check):
    g = BinGen(check.rng)
    progs = [g.decode() for _ in range(check.pick(700, 12000))]
    for n, o, a in ((65535, "big", True), (65536, "big", True), (65536, "big", False)):
        progs.append(g.longrecord(n, o, a))
    if not check.quick:
        for n, o, a in ((65536, "little", True), (65535, "little", True), (70000, "little", False)):
            progs.append(g.longrecord(n, o, a))
    run_programs(check, progs)
    check.assumptions = ["files are not empty and are not truncated while open",
                         "the byte order is not changed inside a record; an object is not used after a failed record check"]
    return check.finish()


def c17(check):
    g = BinGen(check.rng)
    m = check.model("BinCache", cfg="SPECIFICATION Spec\nCONSTANTS\n Files = {\"f\", \"g\", \"h\"}\n Blocks = {%s}\n Limit = 2\n"
                    " MaxMaps = %d\nINVARIANTS Bounded OneMapPerFile OwnFile\n" %
                    check.pick(("1, 2, 3", 4), ("1, 2, 3, 4", 5)), workers=2, timeout=800)
    hists = check.tlc_generate("GenBin", cfg="SPECIFICATION Spec\nCONSTANTS\n Objs = {0, 1, 2, 3}\n L = %d\n" % check.pick(3, 4))
    check.notes["histories_enumerated_by_tlc"] = len(hists)
    progs = [g.history(h, 3, check.rng.choice([1, 2])) for h in hists]
    progs += [g.export() for _ in range(check.pick(400, 5000))]
    progs += [g.swapped() for _ in range(check.pick(150, 1500))]
    for i in range(check.pick(12, 120)):
        progs.append(g.longhistory(6, check.pick(150, 300), 3, chdir=i % 3 == 0))
    for i in range(check.pick(4, 30)):
        progs.append(g.longhistory(45, check.pick(500, 1500), 32, chdir=i % 4 == 3))
    run_programs(check, progs, procs=8, shards=8)
    m.done()
    check.assumptions = ["a file is replaced only when no open object has it mapped; it is rewritten in place at any time"]
    return check.finish()


CHECKS = {"C16": c16, "C17": c17}


def replay(check, payload):
    run_programs(check, payload["programs"], payload["driver"], payload["module"])
    return check.finish()
