"""mkseed.py FILE.py ...: writes seeded/<id>/ from the SEEDS lists in the given files.

Each entry: id, property, file (in /repo), edits [(old, new), ...] each old
unique in the file, needs, breaks, demo (text of demo.py), np (ranks, 0: no MPI),
or demo_sh (text of demo.sh).
"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# Runs in /repo; exits 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/python PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_hwloc_base_binding_policy=none
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
cd "$W" || exit 2
"""
for path in [a for a in sys.argv[1:] if a != "--aside"]:
    ns = {}
    exec(open(path).read(), ns)
    for s in ns["SEEDS"]:
        if s.get("aside") and "--aside" not in sys.argv:    # in .inc files, which do not count
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="/tmp/mkseed.")
        try:
            diffs = ""
            for f, edits in s["files"].items():
                src = open(os.path.join("/repo", f)).read()
                new = src
                for a, b in edits:
                    assert new.count(a) == 1, (s["id"], f, new.count(a), a)
                    new = new.replace(a, b)
                for side, text in (("a", src), ("b", new)):
                    p = os.path.join(w, side, f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "w").write(text)
                diffs += subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f],
                                        cwd=w, stdout=subprocess.PIPE, text=True).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diffs)
        finally:
            shutil.rmtree(w)
        if "demo" in s:
            open(os.path.join(d, "demo.py"), "w").write(s["demo"])
            if s.get("np"):
                run = 'timeout -k 5 %d mpirun --oversubscribe -np %d /opt/venv/bin/python "$D/demo.py"' % (s.get("timeout", 100), s["np"])
            else:
                run = 'timeout %d /opt/venv/bin/python "$D/demo.py"' % s.get("timeout", 100)
            sh = SH + run + "\nexit $?\n"
        else:
            sh = SH + s["demo_sh"]
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        for name, text in s.get("extra", {}).items():
            open(os.path.join(d, name), "w").write(text)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", s["id"])
