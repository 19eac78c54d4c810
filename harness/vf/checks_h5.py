"""Checks of the collective HDF5 operations: C10, C11, C12 and C13."""
import json
import os
import random
import time

from . import core, mpi_run
from .gen_h5 import Gen
from .mpi_run import Batch

ASSUME = ["Open MPI, mpi4py, h5py, HDF5 and numpy are trusted; files are read back with serial h5py",
          "attributes of a dataset are the same in all files of a set"]


def batches(check, kinds, n, nps, per=60):
    out = []
    for P in nps:
        left, k = n, 0
        while left > 0:
            g = Gen(random.Random(check.rng.random()), P)
            m = min(per, left)
            out.append(Batch(P, [g.program(kinds[i % len(kinds)]) for i in range(m)], tag="np%d-%d" % (P, k)))
            left -= m
            k += 1
    return out


def run(check, kinds, nq, nt, nps=(1, 2, 3, 5, 8), timeout=300, extra=()):
    b = batches(check, kinds, check.pick(nq, nt), nps if check.quick else tuple(sorted(set(nps) | {4, 6, 7})))
    b += list(extra)
    mpi_run.run_and_validate(check, "ParHdf5Trace", b, shards=check.pick(4, 8), driver="h5_driver.py",
                             timeout=check.pick(timeout, 800), drop=("may_raise", "buffer", "gzip", "shuffle"))
    check.assumptions = list(ASSUME)


def c10(check):
    run(check, ["collective"], 40, 400)
    return check.finish()


def c11(check):
    run(check, ["multiread"], 60, 500)
    return check.finish()


def c12(check):
    run(check, ["multiwrite"], 50, 400)
    return check.finish()


CHECKS = {"C10": c10, "C11": c11, "C12": c12}


def replay(check, payload):
    if "jobs" in payload:
        run_jobs(check, payload["jobs"])
        return check.finish()
    b = Batch(payload["np"], payload["programs"])
    mpi_run.run_and_validate(check, "ParHdf5Trace", [b], driver="h5_driver.py",
                             drop=("may_raise", "buffer", "gzip", "shuffle"))
    return check.finish()


# -- C13: jobs with good and bad input ----------------------------------------
def gen_args(rng, bad):
    a = [["pos", rng.choice(["0", "1", "7", "12", "100"])], ["out", rng.choice(["file", "x.hdf5", "1"])]]
    for _ in range(rng.randint(0, 3)):
        a.append(rng.choice([["nfiles", "12"], ["nfiles", "-3"], ["mode", "a"], ["mode", "b"], ["flag", ""], ["out", "z"]]))
    rng.shuffle(a)
    if bad:
        k = rng.choice(["nopos", "noout", "int", "nfiles", "mode", "unknown", "twopos", "empty", "help"])
        if k == "nopos":
            a = [x for x in a if x[0] != "pos"]
        elif k == "noout":
            a = [x for x in a if x[0] != "out"]
        elif k == "int":
            a = [["pos", "3.5"] if x[0] == "pos" else x for x in a]
        elif k == "nfiles":
            a.append(["nfiles", "many"])
        elif k == "mode":
            a.append(["mode", "c"])
        elif k == "twopos":
            a.insert(0, ["pos", "7"])
        elif k == "empty":
            a = []
        else:
            a.insert(rng.randint(0, len(a)), [k, ""])
    return a


def gen_jobs(rng, n):
    jobs = []
    for i in range(n):
        P = rng.choice([1, 2, 3, 4])
        z = i % 8
        if z < 3:
            bad0 = rng.random() < 0.7
            a0 = gen_args(rng, bad0)
            args = [a0] + [a0 if rng.random() < 0.7 or ["help", ""] in a0 else gen_args(rng, rng.random() < 0.5)
                           for _ in range(P - 1)]
            args = [a if q == 0 or a == a0 or ["help", ""] not in a else a0 for q, a in enumerate(args)]
            jobs.append({"op": "parse", "np": P, "args": args, "argv": rng.random() < 0.3})
        elif z < 5:
            r = [""] * P
            if rng.random() < 0.85:
                for q in rng.sample(range(P), rng.choice([1, 1, max(1, P - 1)])):
                    r[q] = rng.choice(["value", "interrupt", "odd", "key", "memory", "os"])
            jobs.append({"op": "errchk", "np": P, "raise": r, "others": rng.choice(["wait", "recv", "sleep"]),
                         "delay": rng.choice([0, 0.2])})
        else:
            kind = rng.choice(["sort2d", "sortendian", "match2d", "match2d1", "unique2d", "repart", "repartmore",
                               "reduceindex2d", "reducelen", "reduceshape"])
            jobs.append({"op": "abort", "np": P, "kind": kind, "bad": [rng.randrange(P)]})
    return jobs


def run_jobs(check, jobs, slots=12, timeout=40):
    pending = list(enumerate(jobs))
    running, events, used = [], {}, 0
    while pending or running:
        moved = False
        for it in list(pending):
            i, j = it
            if used and used + j["np"] > slots:
                continue
            d = os.path.dirname(check.path("job%d" % i, "x"))
            with open(os.path.join(d, "case.json"), "w") as f:
                json.dump(j, f)
            env = core.base_env()
            env["TMPDIR"] = d
            cmd = mpi_run.mpirun_cmd(j["np"]) + [core.PY, os.path.join(core.HARNESS, "vf", "job_driver.py"),
                                                 os.path.join(d, "case.json"), d]
            p = check.spawn(cmd, env=env, cwd=d, log=os.path.join(d, "out.txt"))
            running.append((i, j, p, d))
            pending.remove(it)
            used += j["np"]
            moved = True
        for r in list(running):
            i, j, p, d = r
            rc = p.poll()
            hung = rc is None and time.time() - p._t0 > timeout * check.timeout_scale
            if rc is None and not hung:
                continue
            if hung:
                core.kill_group(p)
            running.remove(r)
            used -= j["np"]
            moved = True
            started = [os.path.exists(os.path.join(d, "start.%d" % q)) for q in range(j["np"])]
            if not all(started) and not hung and not any(started):
                raise core.MachineryError("job did not start: " + core.tail(os.path.join(d, "out.txt"), 800))
            how, val = [], []
            for q in range(j["np"]):
                try:
                    with open(os.path.join(d, "out.%d" % q)) as f:
                        o = json.load(f)
                except (OSError, ValueError):
                    o = {"how": "stopped"}
                how.append(o["how"])
                val.append(o.get("v", {"v": "-"}))
            e = dict(j)
            e.update(how=how, val=val, rc=-1 if rc is None else rc, hung=bool(hung))
            if "raise" in e:
                e["raises"] = [x or "-" for x in e.pop("raise")]
            events[i] = e
        if not moved:
            time.sleep(0.02)
    evs = [events[i] for i in sorted(events)]
    for b in check.validate("JobTrace", evs, shards=1):
        e = b["event"]
        check.violation("job:%s:%s" % (e["op"], ",".join(b["clauses"])),
                        "job %s violates %s" % (json.dumps(e), b["clauses"]), {"jobs": [jobs[evs.index(e)]]})
    return evs


def c13(check):
    ms = [check.model("FailTogether", tag="FailTogether-%d" % i, workers=1,
                      cfg="SPECIFICATION Spec\nCONSTANTS\n P = %d\n K = %d\n Agreed = TRUE\n"
                          "INVARIANTS NoHang Together AllOrNone\n" % c)
          for i, c in enumerate(check.pick([(3, 2)], [(3, 2), (4, 3), (5, 2)]))]
    run(check, ["disagree"], 30, 200, nps=(1, 2, 3, 5), timeout=90)
    run_jobs(check, gen_jobs(check.rng, check.pick(40, 240)))
    for m in ms:
        m.done()
    check.assumptions.append("a rank which has not ended within 40 s (a job takes about 1 s) counts as hung")
    return check.finish()


CHECKS["C13"] = c13
