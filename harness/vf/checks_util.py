"""Checks of the serial utilities: C14 (matching, ranges) and C15 (Peano-Hilbert)."""
import json
import os

from . import core


def slim(e, drop=()):
    return {k: v for k, v in e.items() if k not in drop and v is not None and v is not False}


def serial(check, driver, calls, module, shards=4, drop=(), timeout=300, procs=4, key=None, env=None, slimmed=True):
    """Run calls in `procs` driver processes, validate the events with `module`."""
    n = max(1, min(procs, len(calls)))
    jobs = []
    for i in range(n):
        part = calls[i::n]
        pf, out = check.path("calls%d.json" % i), check.path("trace%d.ndjson" % i)
        with open(pf, "w") as f:
            json.dump(part, f)
        e = core.base_env()
        e["VF_SCRATCH"] = os.path.dirname(check.path("work%d" % i, "x"))
        e["TMPDIR"] = e["VF_SCRATCH"]
        e.update(env or {})
        p = check.spawn([core.PY, os.path.join(core.HARNESS, "vf", driver), pf, out], env=e,
                        cwd=e["VF_SCRATCH"], log=check.path("log%d.txt" % i))
        jobs.append((p, part, out, check.path("log%d.txt" % i)))
    events, origin = [], []
    for p, part, out, log in jobs:
        rc = check.wait(p, timeout)
        evs = core.read_ndjson(out) if os.path.exists(out) else []
        complete = bool(evs) and evs[-1]["op"] == "end"
        if complete:
            evs = evs[:-1]
        events += [slim(e, drop) for e in evs] if slimmed else evs
        origin += part[:len(evs)]
        if rc != 0 or not complete:
            if not evs and "ModuleNotFoundError: No module named 'vf'" in core.tail(log, 3000):
                raise core.MachineryError(core.tail(log, 1500))
            stuck = part[len(evs)] if len(evs) < len(part) else None
            check.violation("crash:%s" % (stuck["op"] if stuck else "?"),
                            "the call %s did not return (exit code %s): %s" %
                            (json.dumps(stuck)[:500], rc, core.tail(log, 1200)), {"calls": [stuck], "driver": driver})
    if check.samples == []:
        for e in events[:3]:
            check.sample(e)
    if events:
        for b in check.validate(module, events, shards=shards, each=True):
            e = b["event"]
            src = origin[next(i for i, x in enumerate(events) if x is e)]
            check.violation((key(e) if key else e["op"]) + ":" + ",".join(b["clauses"]),
                            "%s violates %s: %s" % (e["op"], b["clauses"], json.dumps(e)[:700]),
                            {"calls": [src], "driver": driver, "module": module})
    return events


def vals(rng, n):
    m = rng.choice(["few", "wide", "distinct"])
    if m == "few":
        return [rng.randint(0, 4) for _ in range(n)]
    if m == "wide":
        return [rng.randint(-50, 50) for _ in range(n)]
    return rng.sample(range(-200, 200), n)


def gen_match(rng, codecs=("i8", "i8b", "i4", "f8", "f4", "i2", "raw", "i8n", "u8h", "u4h")):
    c = rng.choice(codecs)
    a, b = vals(rng, rng.choice([0, 1, 2, 5, 20, 60])), vals(rng, rng.choice([0, 1, 2, 5, 20, 60]))
    if c[0] == "u":
        a, b = [abs(x) for x in a], [abs(x) for x in b]
    d = {"op": "match", "a": a, "b": b, "codec": c}
    z = rng.random()
    if z < 0.25:
        d["b"] = sorted(b)
        d["sorted"] = True
    elif z < 0.5:
        d["index"] = rng.choice(["quicksort", "mergesort", "heapsort"])
    if rng.random() < 0.2:
        d["ordera"] = rng.choice("<>")
        d["orderb"] = rng.choice("<>")
    return d


def gen_layout(rng):
    n = rng.choice([0, 1, 3, 10, 40])
    k = rng.choice([0, 1, 2, 3, 8])
    cuts = sorted(rng.randint(0, n) for _ in range(2 * k))
    if rng.random() < 0.4:   # adjacent
        for i in range(1, k):
            cuts[2 * i] = cuts[2 * i - 1]
    off = [cuts[2 * i] for i in range(k)]
    ln = [cuts[2 * i + 1] - cuts[2 * i] for i in range(k)]
    return n, off, ln


def assign_call(rng, n, off, ln):
    k = len(off)
    dt = rng.choice(["i4", "i8", "f8", "f4", "u2"])
    c = {"op": "assign", "arr0": [rng.randint(1, 20) for _ in range(n)], "off": off, "len": ln,
         "val": [30 + i for i in range(k)], "rs": rng.choice([[], [], [3], [2, 2]]), "dtype": dt,
         "vdtype": rng.choice([dt, "i4"]), "itype": rng.choice(["i4", "i8", "u4", "u8"])}
    if rng.random() < 0.2:
        c["lists"] = True
    return c


def sum_call(rng, n, off, ln):
    rs = rng.choice([[], [], [2], [2, 2]])
    nc = 1
    for x in rs:
        nc *= x
    dt = rng.choice(["i4", "i8", "f8", "f4", "u4"])
    lo = 0 if dt[0] == "u" else -30
    c = {"op": "sum", "arr": [[rng.randint(lo, 30) for _ in range(nc)] for _ in range(n)], "off": off, "len": ln,
         "ncol": nc, "rs": rs, "dtype": dt, "itype": rng.choice(["i4", "i8", "u4", "u8"])}
    if rng.random() < 0.5:
        c["weight"] = [rng.randint(1, 9) for _ in range(n)]
        c["wdtype"] = rng.choice(["i4", "f8", "i8"])
    if rng.random() < 0.4:
        c["as"] = rng.choice(["f8", "i8", "f8"])
        if dt[0] == "f" and c["as"] == "i8":
            c["as"] = "f8"
    if rng.random() < 0.5:
        c["norm"] = True
        if (c.get("as") or dt)[0] in "iu":
            c["intres"] = True
        elif (c.get("as") or dt) == "f4":
            c["as"] = "f8"
    return c


def c14(check):
    layouts = check.tlc_generate("GenRanges", cfg="SPECIFICATION Spec\nCONSTANTS\n N = %d\n K = %d\n" %
                                 check.pick((4, 2), (5, 3)))
    rng = check.rng
    calls = []
    for lay in layouts:
        off, ln = list(lay["off"] or []), list(lay["len"] or [])
        calls.append(assign_call(rng, lay["n"], off, ln))
        if all(off[i] + ln[i] <= off[i + 1] for i in range(len(off) - 1)):
            calls.append(sum_call(rng, lay["n"], off, ln))
    check.notes["layouts_enumerated_by_tlc"] = len(layouts)
    for _ in range(check.pick(600, 8000)):
        calls.append(gen_match(rng))
    for _ in range(check.pick(500, 6000)):
        calls.append(sum_call(rng, *gen_layout(rng)))
        calls.append(assign_call(rng, *gen_layout(rng)))
    serial(check, "util_driver.py", calls, "UtilTrace",
           drop=("codec", "dtype", "vdtype", "itype", "wdtype", "arr0", "sorted", "index", "ordera", "orderb", "rs", "as"))
    check.assumptions = ["both arrays of a match have the same element type (numpy compares other pairs as floats)",
                         "sums are compared as exact fractions (float64 results, small integers)"]
    return check.finish()


def c15(check):
    rng = check.rng
    m = check.model("PeanoModel", cfg="SPECIFICATION Spec\nCONSTANT Bits = %d\nINVARIANTS Proved Holds\n" %
                    check.pick(2, 3), workers=1, timeout=800)
    calls = [{"op": "level", "bits": b} for b in range(1, check.pick(4, 5) + 1)]
    for _ in range(check.pick(400, 4000)):
        bits = rng.choice([21, rng.randint(1, 21), rng.randint(1, 21)])
        n = rng.choice([0, 1, 2, 3, 17, 40])
        top = 2 ** bits - 1
        pick = lambda: rng.choice([0, top, top // 2, top // 2 + 1, rng.randint(0, top), rng.randint(0, top)])
        z = rng.random()
        if z < 0.35:
            how = rng.choice(["full", "block", "scalar", "list"])
            it = rng.choice(["i4", "i8", "u4", "u8"])
            calls.append({"op": "keys", "bits": bits, "cells": [[pick(), pick(), pick()] for _ in range(n)],
                          "how": how if n or how in ("full", "block") else "full", "itype": it})
        elif z < 0.7:
            # a run of consecutive keys from a random place
            tot = 8 ** bits
            k0 = rng.choice([0, tot - 1, tot // 2, rng.randrange(tot), rng.randrange(tot)])
            ks = [(k0 + i) % tot for i in range(n)]
            calls.append({"op": "inverse", "bits": bits, "how": rng.choice(["full", "block", "scalar"]),
                          "keys": [[(k >> (3 * i)) & 7 for i in range(bits - 1, -1, -1)] for k in ks]})
        else:
            box = rng.choice([1, 2, 25, 100.0, 62.5, 500, 3])
            dt = rng.choice(["f8", "f8", "f4"]) if bits <= 6 and box in (1, 2, 25, 100.0, 62.5, 500, 3) else "f8"
            hi = 4 * (top + 1) - 1
            q = lambda: rng.choice([0, hi, 4 * rng.randint(0, top), rng.randint(0, hi), max(0, 4 * rng.randint(0, top) - 1)])
            calls.append({"op": "coords", "bits": bits, "box": box, "dtype": dt, "m": [[q(), q(), q()] for _ in range(n)]})
    # lengths around the block size of 10000
    for n in check.pick((10000, 10001), (9999, 10000, 10001, 20000, 20001, 30017)):
        b = rng.choice([2, 3])
        t = 2 ** b - 1
        calls.append({"op": "keys", "bits": b, "how": "full", "itype": "i4",
                      "cells": [[rng.randint(0, t) for _ in range(3)] for _ in range(n)]})
        calls.append({"op": "coords", "bits": b, "box": 100.0, "dtype": "f8",
                      "m": [[rng.randint(0, 4 * t + 3) for _ in range(3)] for _ in range(n)]})
        calls.append({"op": "inverse", "bits": b, "how": "full",
                      "keys": [[rng.randint(0, 7) for _ in range(b)] for _ in range(n)]})
    serial(check, "util_driver.py", calls, "UtilTrace", shards=check.pick(6, 8), drop=("how", "itype", "box", "dtype"))
    m.done()
    check.assumptions = ["coordinates are multiples of a quarter of a cell which floating point represents exactly",
                         "the curve tables are those published with Gadget"]
    return check.finish()


CHECKS = {"C14": c14, "C15": c15}


def replay(check, payload):
    serial(check, payload["driver"], payload["calls"], payload.get("module", "UtilTrace"),
           drop=("how", "itype", "box", "dtype", "codec", "vdtype", "wdtype", "arr0", "sorted", "index", "ordera",
                 "orderb", "rs", "as"))
    return check.finish()
