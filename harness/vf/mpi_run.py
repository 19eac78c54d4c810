"""Run batches of distributed programs on the real code and collect traces."""
import glob
import json
import os
import time

from . import core


STALLED = 100       # seconds without any event: a hang


class Batch:
    def __init__(self, np, programs, jitter=None, eager=None, tag=""):
        self.np, self.programs, self.jitter, self.eager = np, programs, jitter, eager
        self.tag = tag or "np%d%s%s" % (np, "-jit" if jitter is not None else "",
                                        "-eager%d" % eager if eager is not None else "")


def mpirun_cmd(np, eager=None):
    cmd = ["mpirun", "--oversubscribe", "-np", str(np)]
    if eager is not None:
        cmd += ["--mca", "btl_vader_eager_limit", str(eager),
                "--mca", "btl_vader_single_copy_mechanism", "none"]
    return cmd


def run_batches(check, batches, driver="mpi_driver.py", slots=12, timeout=240, extra=()):
    """
    Execute all batches (several at once); returns [(batch, events)].
    A crash, a hang or a missing report is a violation by itself: every
    program here is one the code must complete.
    """
    pending = list(enumerate(batches))
    running = []
    results = []
    used = 0
    stop = None             # when one job hangs, the others have 20 s more
    seen, looked = {}, {}
    stalled = (STALLED if check.quick else 4 * STALLED) * check.timeout_scale
    while pending or running:
        progressed = False
        for item in list(pending):
            i, b = item
            if used and used + b.np > slots:
                continue
            d = check.path("mpi%d-%s" % (i, b.tag), "x")
            d = os.path.dirname(d)
            pf = os.path.join(d, "programs.json")
            with open(pf, "w") as f:
                json.dump(b.programs, f)
            env = core.base_env()
            env["TMPDIR"] = d
            env["VF_SCRATCH"] = d
            cmd = mpirun_cmd(b.np, b.eager) + [core.PY, os.path.join(core.HARNESS, "vf", driver), pf, d]
            if b.jitter is not None:
                cmd += ["--jitter", str(b.jitter)]
            cmd += list(extra)
            p = check.spawn(cmd, env=env, cwd=d, log=os.path.join(d, "out.txt"))
            running.append((i, b, p, d))
            used += b.np
            pending.remove(item)
            progressed = True
        for r in list(running):
            i, b, p, d = r
            rc = p.poll()
            now = time.time()
            if rc is None and now - looked.get(i, 0) > 1:
                looked[i] = now
                size = sum(os.path.getsize(x) for x in glob.glob(os.path.join(d, "trace.*.ndjson")))
                if seen.get(i, (None,))[0] != size:
                    seen[i] = (size, now)
            hung = rc is None and (now - p._t0 > timeout * check.timeout_scale or now - seen[i][1] > stalled)
            late = rc is None and stop is not None and now > stop
            if rc is None and not hung and not late:
                continue
            running.remove(r)
            used -= b.np
            progressed = True
            if rc is None:
                core.kill_group(p)
            if rc is None and late and not hung:
                continue
            results.append((i, b, collect(check, b, rc, d)))
            if hung:
                stop = min(stop or now + 20, now + 20)
                pending = []
        if not progressed:
            time.sleep(0.02)
    results.sort(key=lambda r: r[0])
    return [(b, ev) for _, b, ev in results]


def collect(check, b, rc, d):
    events = []
    done_ids = set()
    files = sorted(glob.glob(os.path.join(d, "trace.*.ndjson")))
    last = None
    for tf in files:
        evs = core.read_ndjson(tf)
        complete = bool(evs) and evs[-1]["op"] == "end"
        if complete:
            evs = evs[:-1]
        groups = core.split_programs(evs)
        if groups and not complete:
            last = groups[-1][0]["prog"]
        for g in groups:
            done_ids.add(g[0]["prog"])
            for e in g:
                events.append(e)
    for e in events:
        e.setdefault("batch", b.tag)
    if rc == 0 and len(glob.glob(os.path.join(d, "done.*"))) == b.np:
        return events
    what = "hang (no result within the time limit)" if rc is None else "exit code %s" % rc
    err = ""
    for ef in sorted(glob.glob(os.path.join(d, "error.*"))):
        try:
            with open(ef) as f:
                x = json.load(f)
            err = "%s in step %s of program %s" % (x["error"], x["step"], x["prog"])
            last = x["prog"]
            break
        except ValueError:
            pass
    if last is None:
        missing = [p["id"] for p in b.programs if p["id"] not in done_ids]
        last = missing[0] if missing else None
    prog = [p for p in b.programs if p["id"] == last]
    msg = "run did not complete: %s %s; output: %s" % (what, err, core.tail(os.path.join(d, "out.txt"), 1500))
    kind = "hang" if rc is None else "crash"
    opname = prog[0]["steps"][-1]["op"] if prog and prog[0].get("steps") else "?"
    check.violation("%s:%s" % (kind, opname), msg,
                    {"np": b.np, "jitter": b.jitter, "eager": b.eager, "programs": prog})
    return events


def report(check, batches, rejections):
    progs = {}
    for b in batches:
        for p in b.programs:
            progs[(b.tag, p["id"])] = (b, p)
    for r in rejections:
        e = r["event"]
        b, p = progs.get((e.get("batch"), e.get("prog_id")), (None, None))
        key = "%s:%s" % (e["op"], ",".join(r["clauses"]))
        check.violation(key, "step %s of program %s (np=%s) violates %s" %
                        (e["op"], e.get("prog_id"), b.np if b else "?", r["clauses"]),
                        {"np": b.np if b else None, "jitter": b.jitter if b else None,
                         "eager": b.eager if b else None, "programs": [p] if p else [], "event": e})


def run_and_validate(check, module, batches, shards=4, driver="mpi_driver.py", timeout=240, drop=()):
    # program ids are made unique per batch
    for i, b in enumerate(batches):
        b.tag = "%d-%s" % (i, b.tag)
    res = run_batches(check, batches, driver=driver, timeout=timeout)
    events = []
    for b, ev in res:
        pid = None
        for e in ev:
            if e["op"] == "begin":
                pid = e["prog"]
            e["prog_id"] = pid
            events.append(e)
    slim = []
    for e in events:
        x = {k: v for k, v in e.items() if k not in drop and v is not None and v is not False and not (isinstance(v, str) and v == "")}
        slim.append(x)
    if check.samples == []:
        for e in slim[1:4]:
            check.sample(e)
    if not slim:
        return events, []
    bad = check.validate(module, slim, shards=shards)
    report(check, batches, bad)
    return events, bad
