"""
Checksums of directory trees: hash_driver.py PROGRAMS.json OUT.ndjson
Every job is run under mpirun in a scratch directory.  The trace has what the job
left: output files, database, exit code.  Checksums are recorded as the number of
the content they belong to.
"""
import hashlib
import json
import os
import shutil
import signal
import sqlite3
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, mpi_run  # noqa

HERE = os.getcwd()
SCRIPT = os.path.join(core.REPO, "consistency_check", "hash", "hash_dirs_mpi.py")
TOP = "T"
BLOCK = 10 * 1024 * 1024


def content(c):
    if c == 0:
        return b""
    if c >= 1000:           # larger than the buffer, or just as large
        return b"x" * (BLOCK * (c // 1000) + [0, 1, -1, 17][c % 4] - 3) + b"%03d" % (c % 1000)
    return b"content %d\n" % c * (1 + c % 7)


def place(f):
    return os.path.join(TOP, f["dir"], f["name"])


def written(p):
    """Has a job written this file (which may have been part of the tree before)?"""
    if not os.path.isfile(p):
        return False
    with open(p, "rb") as h:
        return h.read(12) == b"# Written at"


def put(f):
    p = place(f)
    if os.path.lexists(p):
        os.remove(p)
    if f["c"] == -1:
        os.symlink("nowhere", p)
    else:
        with open(p, "wb") as h:
            h.write(content(f["c"]))


class Runner:
    def __init__(self, prog):
        shutil.rmtree(os.path.join(HERE, TOP), ignore_errors=True)
        for x in ("hashes.db", "hashes.db-journal"):
            if os.path.exists(os.path.join(HERE, x)):
                os.remove(os.path.join(HERE, x))
        os.mkdir(TOP)
        for d in sorted(prog["begin"]["dirs"]):
            if not any(d == a or d.startswith(a + "/") for a, b in prog["begin"].get("links", [])):
                os.makedirs(os.path.join(TOP, d), exist_ok=True)
        self.known = {0}
        self.links = prog["begin"].get("links", [])
        for f in prog["begin"]["files"]:
            self.known.add(f["c"])
            if not self.linked(f["dir"]):
                put(f)
        for a, b in self.links:
            os.symlink(os.path.relpath(os.path.join(TOP, b), os.path.dirname(os.path.join(TOP, a))), os.path.join(TOP, a))
        self.sums = {}

    def linked(self, d):
        return any(d == a or d.startswith(a + "/") for a, b in self.links)

    def number(self, kind, text):
        if text == "UNREADABLE":
            return -1
        for c in self.known:
            if c != -1 and (kind, c) not in self.sums:
                self.sums[kind, c] = hashlib.new(kind, content(c)).hexdigest()
        for c in self.known:
            if c != -1 and self.sums[kind, c] == text:
                return c
        return -2

    def edit(self, s):
        for f in s["del"]:
            os.remove(place(f))
        for f in s["set"]:
            self.known.add(f["c"])
            put(f)
        return {}

    def lines(self, kind, name):
        out = []
        with open(name) as h:
            for line in h.read().split("\n"):
                if line.startswith("#") or line == "":
                    continue
                a, b = line.split(" ", 1)
                out.append({"p": b, "c": self.number(kind, a)})
        return out

    def launch(self, s, args):
        mark = os.path.join(HERE, "killed")
        if os.path.exists(mark):
            os.remove(mark)
        with open("plan.json", "w") as h:
            json.dump({"seed": s.get("seed", 0), "top": TOP, "delay": s.get("delay", []), "kill": s.get("kill", []), "mark": mark}, h)
        cmd = mpi_run.mpirun_cmd(s["np"]) + [core.PY, os.path.join(core.HARNESS, "vf", "hash_run.py"), SCRIPT, "plan.json"] + args
        with open("job.log", "wb") as log:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True)
            limit = 60
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return {"hung": True, "killed": False, "rc": -1}
        return {"hung": False, "killed": os.path.exists(mark), "rc": rc}

    def wrong(self, s):
        out = os.path.join(HERE, "sums.txt")
        res = self.launch(s, s["args"] + ["--outfile", out])
        res["hasout"] = written(out)
        if os.path.exists(out):
            os.remove(out)
        return res

    def job(self, s):
        args = [{"rel": TOP, "dot": "./" + TOP, "abs": os.path.join(HERE, TOP), "slash": TOP + "/"}[s["base"]]]
        out = None
        if s["outfile"] == "out":
            out = os.path.join(HERE, "sums.txt")
        elif s["outfile"]:
            out = os.path.join(TOP, s["outfile"])
        if out:
            args += ["--outfile", {"abs": os.path.abspath, "dot": lambda x: "./" + os.path.relpath(x, HERE)}.get(s["base"] if s.get("dotted") else "", str)(out)]
            if os.path.exists("sums.txt"):
                os.remove("sums.txt")
        if s["dirfile"]:
            args += ["--dirfile", s["dirfile"]]
        if s["type"] != "md5" or s.get("saytype"):
            args += ["--type", s["type"]]
        for k in ("include", "exclude"):
            if s["has" + k[:3]]:
                args += ["--" + k, ",".join(("./" if s.get("dotted") else "") + x for x in s[k])]
        if s["hasdb"]:
            args += ["--database", "hashes.db"]
        if s["resume"]:
            args += ["--resume"]
        res = self.launch(s, args)
        res.update(hasout=bool(out) and written(out), out=[], sorted=True, dirs=[], db=[])
        if not res["hung"]:
            if res["hasout"]:
                res["out"] = self.lines(s["type"], out)
                names = [x["p"] for x in res["out"]]
                res["sorted"] = names == sorted(names)
            if s["hasdb"]:
                res["db"] = self.database()
        # Take the job's own files away, so that what is left is known
        if s["dirfile"]:
            for d, sub, names in os.walk(TOP):
                if s["dirfile"] in names:
                    p = os.path.join(d, s["dirfile"])
                    if written(p) and not res["killed"] and not res["hung"]:
                        rel = os.path.relpath(d, TOP)
                        res["dirs"].append({"d": "" if rel == "." else rel, "lines": self.lines(s["type"], p)})
                    os.remove(p)
        if out and os.path.lexists(out):
            os.remove(out)
        return res

    def database(self):
        if not os.path.exists("hashes.db"):
            return []
        con = sqlite3.connect("hashes.db", timeout=30)
        try:
            rows = list(con.execute("select basedir, path, hash_type, hash from hashes"))
        except sqlite3.OperationalError:
            rows = []
        con.close()
        keys = {TOP: "rel", "./" + TOP: "dot", os.path.join(HERE, TOP): "abs", TOP + "/": "slash"}
        return [{"base": keys.get(a, a), "path": b, "type": c, "c": self.number(c, d)} for a, b, c, d in rows]


def main():
    progs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        def emit(e):
            out.write(json.dumps(e) + "\n")
            out.flush()
        for prog in progs:
            emit(dict(prog["begin"], op="begin"))
            run = Runner(prog)
            for s in prog["steps"]:
                res = getattr(run, s["op"])(s)
                emit(dict(s, res=res))
                if res.get("hung"):
                    break
            if res.get("hung"):
                break
            shutil.rmtree(os.path.join(HERE, TOP))
        emit({"op": "end"})


if __name__ == "__main__":
    main()
