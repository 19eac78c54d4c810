"""
Shared machinery of the checks: scratch directories, running TLC, running the
real code (serially or under mpirun), collecting verdicts, known findings,
evidence files and the exit protocol.

A check never exits other than 0 (quiet) or 1 (with a VIOLATION line) unless
the machinery itself is broken.
"""

import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PY = "/opt/venv/bin/python"
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")


def base_env():
    env = dict(os.environ)
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("PYTHONHOME", "PYTEST_ADDOPTS"):
        env.pop(k, None)
    env["PYTHONPATH"] = os.path.join(REPO, "python") + ":" + HARNESS
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["LC_ALL"] = "C.UTF-8"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS"):
        env[k] = "1"
    env["OMPI_ALLOW_RUN_AS_ROOT"] = "1"
    env["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    env["OMPI_MCA_btl"] = "self,vader"
    env["OMPI_MCA_plm"] = "isolated"
    env["OMPI_MCA_mpi_yield_when_idle"] = "1"
    env["OMPI_MCA_hwloc_base_binding_policy"] = "none"
    env["HDF5_USE_FILE_LOCKING"] = "FALSE"
    return env


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        if seed is None:
            try:
                seed = int(os.environ.get("VERIF_SEED", "1"))
            except ValueError:
                seed = 1
        self.seed = seed
        self.rng = random.Random("%s-%d" % (prop, seed))
        self.t0 = time.time()
        root = os.environ.get("VERIF_SCRATCH", tempfile.gettempdir())
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=root)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.violations = []      # (key, message, payload)
        self.known = load_known(prop)
        self.known_seen = {}
        self.timeout_scale = 1.0
        self._procs = []

    # -- bookkeeping -----------------------------------------------------

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, *parts):
        p = os.path.join(self.scratch, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg), flush=True)

    def violation(self, key, message, payload=None):
        """Report a violation; key identifies the failing input class."""
        for k in self.known:
            if re.fullmatch(k["match"], key):
                self.known_seen.setdefault(k["id"], (k, message))
                return
        self.violations.append((key, message, payload))

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    # -- the end ----------------------------------------------------------

    def finish(self, exhaustive=False):
        for kid, (k, message) in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "trace_events": self.events,
            "samples": self.samples or ["(none)"],
            "exhaustive": bool(exhaustive),
        }
        cov.update(self.notes)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        dst = os.path.join(VERIF, "evidence", self.prop + ".json")
        tmp = dst + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, dst)
        code = 0
        if self.violations:
            code = 1
            seen = set()
            for key, message, payload in self.violations:
                if key in seen and len(seen) > 0:
                    continue
                seen.add(key)
                if len(seen) > 10:
                    break
                rp = self.save_replay(key, message, payload)
                print("  %s: %s" % (key, message))
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        else:
            self.log("held: %d model states, %d traces (%d events) validated" %
                     (self.states, self.traces, self.events))
        sys.stdout.flush()
        self.cleanup()
        return code

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept: " + self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)

    def save_replay(self, key, message, payload):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        blob = json.dumps({"property": self.prop, "key": key, "message": message,
                           "seed": self.seed, "tier": self.tier,
                           "payload": payload}, default=str, indent=1)
        h = hashlib.sha1(blob.encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(p, "w") as f:
            f.write(blob)
        return p

    # -- running things ----------------------------------------------------

    def spawn(self, cmd, env=None, cwd=None, log=None):
        logf = open(log, "wb") if log else subprocess.DEVNULL
        p = subprocess.Popen(cmd, env=env or base_env(), cwd=cwd or self.scratch,
                             stdin=subprocess.DEVNULL, stdout=logf,
                             stderr=subprocess.STDOUT, start_new_session=True)
        p._log = log
        p._t0 = time.time()
        self._procs.append(p)
        if log:
            logf.close()
        return p

    def wait(self, p, timeout):
        """Return the exit code, or None if it had to be killed."""
        left = max(0.1, timeout - (time.time() - p._t0))
        try:
            return p.wait(left)
        except subprocess.TimeoutExpired:
            kill_group(p)
            return None

    # -- TLC ---------------------------------------------------------------

    def tlc_start(self, module, cfg=None, env=None, workers=1, extra=(), heap="2g",
                  tag=None, constants=None):
        """
        Start TLC on spec/<module>.tla in its own scratch directory.
        cfg is the text of the configuration; default: spec/<module>.cfg.
        """
        tag = tag or module
        d = os.path.join(self.scratch, "tlc-" + tag)
        n = 0
        while os.path.exists(d):
            n += 1
            d = os.path.join(self.scratch, "tlc-%s.%d" % (tag, n))
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        if cfg is None:
            with open(os.path.join(SPEC, module + ".cfg")) as f:
                cfg = f.read()
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = base_env()
        e["TMPDIR"] = d
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock",
               "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
        p = self.spawn(cmd, env=e, cwd=d, log=os.path.join(d, "out.txt"))
        p._dir = d
        p._module = module
        return p

    def tlc_finish(self, p, timeout=600, expect_ok=True):
        rc = self.wait(p, timeout * self.timeout_scale)
        with open(p._log, errors="replace") as f:
            out = f.read()
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        gen = dis = 0
        if m:
            gen = int(m[-1][0].replace(",", ""))
            dis = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                gen = int(m[-1].replace(",", ""))
                dis = gen
        if rc is None:
            raise MachineryError("TLC timed out on %s\n%s" % (p._module, out[-2000:]))
        ok = (rc == 0)
        if expect_ok and not ok:
            i = max(0, out.find("Error:"))
            raise MachineryError("TLC failed (%s) on %s:\n%s" % (rc, p._module, out[i:i + 4000]))
        return ok, gen, dis, out

    def model(self, module, **kw):
        """Model check a design level specification; it must hold."""
        timeout = kw.pop("timeout", 600)
        p = self.tlc_start(module, **kw)
        return ModelRun(self, p, timeout)

    def tlc_generate(self, module, **kw):
        """Run a generator module; it writes JSON to the file named by $OUT."""
        out = self.path("gen-%s-%d.json" % (module, len(self._procs)))
        env = dict(kw.pop("env", {}) or {})
        env["OUT"] = out
        timeout = kw.pop("timeout", 300)
        p = self.tlc_start(module, env=env, **kw)
        ok, gen, dis, text = self.tlc_finish(p, timeout)
        self.states += dis
        self.transitions += gen
        return load_json_any(out)

    def validate(self, module, events, env=None, timeout=600, shards=1, heap="3g", each=False):
        """
        Validate a recorded trace (list of events) with a trace specification.
        Returns the list of rejections [{line, clauses, event}].  Events are
        split into shards at program boundaries ("begin" events).
        """
        groups = [[e] for e in events] if each else split_programs(events)
        self.traces += len(groups)
        self.events += len(events)
        nsh = max(1, min(shards, len(groups)))
        buckets = [[] for _ in range(nsh)]
        sizes = [0] * nsh
        for g in groups:
            w = sum(len(json.dumps(x)) for x in g)
            i = sizes.index(min(sizes))
            buckets[i].append(g)
            sizes[i] += w
        def start(groups, i):
            b = [e for g in groups for e in g]
            tf = self.path("trace-%s-%d-%d.ndjson" % (module, len(self._procs), i))
            vf = tf + ".verdict"
            with open(tf, "w") as f:
                for e in b:
                    f.write(json.dumps(for_tlc(e)) + "\n")
            ev = dict(env or {})
            ev["TRACE"] = tf
            ev["VERDICT"] = vf
            return self.tlc_start(module, env=ev, tag="%s-s%d" % (module, i), heap=heap), groups, b, vf
        runs = [start(gs, i) for i, gs in enumerate(buckets) if gs]
        bad = []
        undecided = 0
        while runs:
            p, gs, b, vf = runs.pop(0)
            ok, gen, dis, out = self.tlc_finish(p, timeout, expect_ok=False)
            self.states += dis
            self.transitions += gen
            if not ok or not os.path.exists(vf):
                # A value of another kind than any the specification is about is
                # a deviation of the code: the rest of the trace is judged without it.
                at = re.findall(r"^/\\ l = (\d+)", out, re.M)
                if not EVALUATION.search(out) or EXHAUSTED.search(out) or not at or not 1 <= int(at[-1]) <= len(b):
                    raise MachineryError("TLC failed on %s:\n%s" % (module, out[max(0, out.find("Error:")):][:4000]))
                n, k = int(at[-1]), 0
                bad.append({"line": n, "clauses": ["not-a-value-of-this-kind"], "event": b[n - 1],
                            "why": out[max(0, out.find("Error:")):][:600]})
                for j, g in enumerate(gs):
                    k += len(g)
                    if n <= k:
                        break
                undecided += 1
                if undecided < 6 and len(gs) > 1:
                    runs.append(start(gs[:j] + gs[j + 1:], len(buckets) + undecided))
                continue
            with open(vf) as f:
                v = json.load(f)
            if v["lines"] != len(b):
                raise MachineryError("%s consumed %s of %d lines" % (module, v["lines"], len(b)))
            for x in v["bad"]:
                bad.append({"line": x["line"], "clauses": sorted(x["clauses"]), "event": b[x["line"] - 1]})
        return bad


class ModelRun:
    def __init__(self, check, proc, timeout):
        self.check, self.proc, self.timeout = check, proc, timeout

    def done(self):
        ok, gen, dis, out = self.check.tlc_finish(self.proc, self.timeout)
        self.check.states += dis
        self.check.transitions += gen
        self.gen, self.dis = gen, dis
        self.check.notes.setdefault("models", {})[self.proc._module + ":" + os.path.basename(self.proc._dir)] = \
            {"states_generated": gen, "distinct": dis}
        return self


class MachineryError(Exception):
    pass


EVALUATION = re.compile(r"TLC threw an unexpected exception|Evaluating|Attempted to|evaluating the nested")
EXHAUSTED = re.compile(r"OutOfMemory|StackOverflow|Java heap|No space left|TLCGet|Parsing or semantic analysis|Cannot find source file", re.I)


def for_tlc(x):
    """TLC has 32 bit integers, and neither null nor real numbers"""
    if x is None:
        return "<none>"
    if isinstance(x, float):
        return "<real %r>" % x
    if isinstance(x, int) and not isinstance(x, bool) and not -2147483648 <= x <= 2147483647:
        return "<large %d>" % x
    if isinstance(x, dict):
        return {k: for_tlc(v) for k, v in x.items()}
    if isinstance(x, list):
        return [for_tlc(v) for v in x]
    return x


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(20)
    except subprocess.TimeoutExpired:
        pass


def split_programs(events):
    groups, cur = [], []
    for e in events:
        if e.get("op") == "begin" and cur:
            groups.append(cur)
            cur = []
        cur.append(e)
    if cur:
        groups.append(cur)
    return groups


def load_json_any(path):
    with open(path) as f:
        return json.load(f)


def read_ndjson(path):
    """Read the complete lines of an ndjson file (a crash may truncate it)."""
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            if not line.endswith("\n"):
                break
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def load_known(prop):
    """known_findings.json: open findings of this property (fixed ones suppress nothing)."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("open", []) if k["property"] == prop]


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as f:
            s = f.read()
        return s[-n:]
    except OSError:
        return ""
