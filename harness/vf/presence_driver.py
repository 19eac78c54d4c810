"""
File presence checks: presence_driver.py PROGRAMS.json OUT.ndjson
Builds trees of output files in a scratch directory and runs the scripts on them.
"""
import contextlib
import io
import json
import os
import re
import runpy
import shutil
import struct
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core  # noqa
import h5py  # noqa
import numpy as np  # noqa

HERE = os.getcwd()
SCRIPTS = {"eagle": os.path.join(core.REPO, "consistency_check", "eagle", "check_eagle_file_presence.py"),
           "pgadget3": os.path.join(core.REPO, "consistency_check", "p-gadget3", "check_pgadget3_file_presence.py")}
LINE = re.compile(r"^\s*(\S+) (\d+): (OK     |MISSING) - (?:(\d+) of (\d+) (\S+) files present|no (\S+) files present!)$")
SUMMARY = re.compile(r"^\s*(\S+) - (\d+) of (\d+) directories not complete$")


def write(path, f):
    k, n, t = f["fmt"], f["n"], f["t"]
    end = ">" if f.get("swap") else "<"
    if k in ("hdf5", "scalar64", "empty", "truncated"):
        with h5py.File(path, "w") as h:
            g = h.create_group("Header")
            g.attrs["NumPart_ThisFile"] = np.zeros(6, dtype=np.int32)
            kind = np.int64 if k == "scalar64" else np.int32
            g.attrs["NumFilesPerSnapshot"] = kind(n)
            g.attrs["NTask"] = kind(t)
            h["PartType1/Coordinates"] = np.arange(300.0).reshape(100, 3)
        if k == "truncated":
            with open(path, "r+b") as h:
                h.truncate(os.path.getsize(path) // 2)
    elif k == "snapshot":
        head = struct.pack(end + "6i6d2d2i6I2i", *([0] * 6 + [1.0] * 6 + [0.5, 1.0, 0, 0] + [0] * 6 + [0, n])) + struct.pack(end + "4d2i6I", 100, .25, .75, .7, 0, 0, *([0] * 6))
        head += b"\0" * (256 - len(head))
        with open(path, "wb") as h:
            h.write(struct.pack(end + "I", 256) + head + struct.pack(end + "I", 256))
    elif k in ("group_tab", "group_ids", "subhalo_tab", "subhalo_ids"):
        with open(path, "wb") as h:
            h.write(struct.pack(end + "3iqi", 0, 7, 0, 11, t))
            h.write({"group_tab": b"", "subhalo_tab": struct.pack(end + "2i", 0, 3)}.get(k, struct.pack(end + "i", 0)))
    elif k == "text":
        with open(path, "w") as h:
            h.write("what is this?")
    elif k == "nothing":
        open(path, "w").close()
    elif k == "dir":
        os.mkdir(path)
    elif k == "link":
        os.symlink("nowhere", path)
    else:
        raise ValueError(k)


def remove(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.remove(p)


class Runner:
    def __init__(self, begin):
        self.top = os.path.join(HERE, "S", begin["name"])
        shutil.rmtree(os.path.join(HERE, "S"), ignore_errors=True)
        os.makedirs(self.top)

    def edit(self, s):
        for d in s["rmdirs"]:
            remove(os.path.join(self.top, d))
        for f in s["del"]:
            remove(os.path.join(self.top, f["dir"], f["name"]))
        for d in s["dirs"]:
            os.makedirs(os.path.join(self.top, d), exist_ok=True)
        for f in s["files"]:
            p = os.path.join(self.top, f["dir"], f["name"])
            remove(p)
            write(p, f)
        return {}

    def wrong(self, s):
        return self.run(s["kind"], s["args"], True)

    def check(self, s):
        top = self.top if s["there"] else self.top + "x"
        top = {"abs": top, "rel": os.path.relpath(top), "slash": top + "/", "dot": "./" + os.path.relpath(top)}[s["base"]]
        if s["kind"] == "eagle":
            args = [top, s["snaps"], s["snips"]]
        else:
            args = [top, s["snapbase"], s["last"]] + ([s["first"], s["step"]] if s["first"] or s["step"] != 1 or s["full"] else [])
        return self.run(s["kind"], [str(a) for a in args], s["apart"])

    def run(self, kind, args, apart):
        script, failed = SCRIPTS[kind], False
        if apart:
            p = subprocess.run([core.PY, script] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            text, failed = p.stdout.decode(), p.returncode != 0
        else:
            buf, old = io.StringIO(), sys.argv
            sys.argv = [script] + args
            try:
                with contextlib.redirect_stdout(buf):
                    runpy.run_path(script, run_name="__main__")
            except SystemExit as e:
                failed = e.code not in (None, 0)
            except Exception as e:
                failed = True
                buf.write(repr(e))
            finally:
                sys.argv = old
            text = buf.getvalue()
        res = {"failed": failed, "lines": [], "summary": [], "other": 0}
        for line in text.split("\n"):
            m, n = LINE.match(line), SUMMARY.match(line)
            if m:
                res["lines"].append({"base": m.group(1), "i": int(m.group(2)), "file": m.group(6) or m.group(7), "ok": m.group(3).strip() == "OK",
                                     "have": int(m.group(4)) if m.group(4) else -1, "n": int(m.group(5)) if m.group(5) else -1})
            elif n:
                res["summary"].append({"type": n.group(1), "missing": int(n.group(2)), "all": int(n.group(3))})
            elif line.strip() and not line.startswith("Summary of missing"):
                res["other"] += 1
        if failed:
            res["text"] = text[-500:]
        return res


def main():
    progs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        def emit(e):
            out.write(json.dumps(e) + "\n")
            out.flush()
        for prog in progs:
            emit(dict(prog["begin"], op="begin"))
            run = Runner(prog["begin"])
            for s in prog["steps"]:
                res = getattr(run, s["op"])(s)
                emit(dict(s, res=res))
        shutil.rmtree(os.path.join(HERE, "S"), ignore_errors=True)
        emit({"op": "end"})


if __name__ == "__main__":
    main()
