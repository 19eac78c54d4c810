"""Check of the checksum job: C29."""
from .checks_bin import run_programs

DRIVER, MODULE = "hash_driver.py", "HashTrace"
NAMES = ["a", "b", "x.hdf5", "y.hdf5", "data 1", "snap_000.0", "snap_000.1", "ab", "h.txt", "note.txt", "d.x", "q?", "e\u00e9", "%s"]
DIRS = ["", "a", "b", "a/b", "a/c", "snap_000", "snap_001", "b/b/b", "empty", "a b"]
PATTERNS = ["*", "a/*", "*.hdf5", "snap_???.?", "snap_000/*", "?", "??", "[ab]", "[!ab]", "*/b/*", "a/b", "*a*", "*.[hx]*", "b*",
            "nothing", "*/*", "h.txt", "?*/?", "a b/*", "[!s]*"]


def with_parents(dirs):
    out = {""}
    for d in dirs:
        parts = d.split("/")
        out |= {"/".join(parts[:i + 1]) for i in range(len(parts))}
    return sorted(out)


def tree(rng, big=0, many=False):
    dirs = with_parents([d for d in DIRS if rng.random() < 0.5]) if not many else with_parents(["d%02d" % i for i in range(40)])
    files = []
    for d in dirs:
        if d == "empty":
            continue
        for n in rng.sample(NAMES, rng.choice([0, 1, 2, 3, 5] if not many else [0, 1, 2])):
            if (d + "/" + n if d else n) not in dirs:
                c = rng.randint(0, 30)
                if rng.random() < 0.1 and n not in ("h.txt", "note.txt", "b"):
                    c = -1
                files.append({"dir": d, "name": n, "c": c})
    for f in rng.sample(files, min(big, len(files))):
        f["c"] = 1000 * rng.choice([1, 1, 2]) + rng.randint(0, 3)
    begin = {"files": files, "dirs": dirs, "links": []}
    if not many and rng.random() < 0.2:
        # a directory which is a link to another
        target = rng.choice([d for d in dirs if d] or [None])
        if target is not None and "ln" not in dirs:
            begin["links"] = [["ln", target]]
            below = lambda d: d == target or d.startswith(target + "/")
            begin["dirs"] = dirs + ["ln" + d[len(target):] for d in dirs if below(d)]
            files += [dict(f, dir="ln" + f["dir"][len(target):]) for f in files if below(f["dir"])]
    return begin


def job(rng, begin, **kw):
    j = {"op": "job", "np": rng.choice([1, 2, 2, 3, 4]), "base": "rel", "type": "md5", "outfile": "out", "dirfile": "",
         "hasinc": False, "include": [], "hasexc": False, "exclude": [], "hasdb": False, "resume": False, "seed": rng.randint(1, 10 ** 6),
         "delay": rng.choice([[], [], [0.004], [0.01, 0], [0, 0.01, 0.003], [0.005, 0.02]]), "kill": []}
    if rng.random() < 0.3:
        j["base"] = rng.choice(["dot", "abs", "slash"])
    if rng.random() < 0.3:
        j["type"] = rng.choice(["sha1", "sha256"])
    if rng.random() < 0.4:
        there = [f["dir"] + "/" + f["name"] if f["dir"] else f["name"] for f in begin["files"] if f["c"] != -1]
        j["outfile"] = rng.choice(["", "a/b", "note.txt", "sums"] + 3 * rng.sample(there, min(1, len(there))))
        top = begin["dirs"]
        if j["outfile"] == "a/b" and ("a" not in top or "a/b" in top) or j["outfile"] == "note.txt" and "note.txt" in top:
            j["outfile"] = "out"
        if begin["links"]:
            j["outfile"] = "out"
    if not begin["links"] and rng.random() < 0.35:
        j["dirfile"] = rng.choice(["h.txt", "h.txt", "sums.md5"])
        if j["outfile"].split("/")[-1] == j["dirfile"]:      # the one would overwrite the other
            j["outfile"] = "out"
    if rng.random() < 0.3:
        j["hasinc"], j["include"] = True, rng.sample(PATTERNS, rng.randint(1, 3))
    if rng.random() < 0.25:
        j["hasexc"], j["exclude"] = True, rng.sample(PATTERNS, rng.randint(1, 2))
    j["dotted"] = rng.random() < 0.25
    if rng.random() < 0.5:
        j["hasdb"] = True
    j.update(kw)
    return j


def edit(rng, begin, gone):
    """Change, remove or add some files (never those which are links or in linked directories)"""
    there = [f for f in begin["files"] if (f["dir"], f["name"]) not in gone and f["c"] < 1000]
    dele, sets = [], []
    for f in there:
        z = rng.random()
        if z < 0.15:
            dele.append(dict(f))
            gone.add((f["dir"], f["name"]))
        elif z < 0.35 or (f["c"] == -1 and z < 0.7):
            f["c"] = rng.choice([f["c"] + 1, 40, 0]) if f["c"] != -1 else rng.choice([3, 4, -1])
            sets.append(dict(f))
    for _ in range(rng.randint(0, 2)):
        d = rng.choice(begin["dirs"])
        f = {"dir": d, "name": "new%d" % rng.randint(1, 99), "c": rng.randint(0, 30)}
        if not any(g["dir"] == d and g["name"] == f["name"] for g in begin["files"]):
            begin["files"].append(f)
            sets.append(dict(f))
    return {"op": "edit", "set": sets, "del": dele}


def forget(begin, gone, j):
    """The job replaces files which have the names of its output files, and they are taken away"""
    for f in begin["files"]:
        p = f["dir"] + "/" + f["name"] if f["dir"] else f["name"]
        if p == j["outfile"] or f["name"] == j["dirfile"]:
            gone.add((f["dir"], f["name"]))


def program(rng, kind, big=0):
    begin = tree(rng, big=big, many=(kind == "many"))
    prog = {"begin": {k: (list(v) if k != "files" else [dict(f) for f in v]) for k, v in begin.items()}, "steps": []}
    steps, gone = prog["steps"], set()
    if kind in ("kill", "many"):
        same = dict(base=rng.choice(["rel", "abs"]), type=rng.choice(["md5", "sha1"]), hasdb=True)
        n = len(begin["files"])
        for _ in range(rng.choice([1, 1, 2, 3])):
            np = rng.choice([1, 2, 3, 4])
            steps.append(job(rng, begin, **same, resume=bool(steps) and rng.random() < 0.8, np=np,
                             kill=[rng.randrange(np), rng.randint(1, max(1, (2 * n) // (np + 1)))]))
            forget(begin, gone, steps[-1])
            if rng.random() < 0.5 and not begin["links"]:
                steps.append(edit(rng, begin, gone))
        steps.append(job(rng, begin, **same, resume=rng.random() < 0.85))
        if rng.random() < 0.4:
            steps.append(job(rng, begin, **dict(same, type=rng.choice(["md5", "sha1"])), resume=True))
        return prog
    for _ in range(rng.choice([1, 2, 2, 3])):
        steps.append(job(rng, begin))
        j = steps[-1]
        if rng.random() < 0.3:
            j["resume"] = True
            if rng.random() < 0.85:
                j["hasdb"] = True
        forget(begin, gone, j)
        if rng.random() < 0.4 and not begin["links"]:
            steps.append(edit(rng, begin, gone))
    if rng.random() < 0.15:
        steps.append({"op": "wrong", "np": rng.choice([1, 2, 3]), "args": rng.choice([[], ["T", "--nonsense"], ["T", "U"], ["--help"]])})
    return prog


def kills(rng, depth):
    """The moments at which a job over a small tree can be killed"""
    out = []
    for np in (1, 2, 3):
        for rank in range(np):
            for n in range(1, depth + 1):
                begin = {"files": [{"dir": d, "name": x, "c": 3 * i + k} for i, d in enumerate(["", "a", "b", "a/c"])
                                   for k, x in enumerate(["x", "y", "z"][:1 + i % 3])], "dirs": ["", "a", "b", "a/c"], "links": []}
                prog = {"begin": {"files": [dict(f) for f in begin["files"]], "dirs": begin["dirs"], "links": []}, "steps": []}
                same = dict(base="rel", type="md5", hasdb=True, hasinc=False, include=[], hasexc=False, exclude=[], outfile="out", dirfile="")
                prog["steps"].append(job(rng, begin, **same, np=np, kill=[rank, n]))
                if rng.random() < 0.5:
                    prog["steps"].append({"op": "edit", "del": [], "set": [dict(f, c=f["c"] + 50) for f in begin["files"] if rng.random() < 0.5]})
                prog["steps"].append(job(rng, begin, **same, resume=True))
                out.append(prog)
    return out


def model_cfg(p, d, blocks, crash):
    return ("SPECIFICATION Spec\nCONSTANTS\n P = %d\n D = %d\n Blocks = %d\n MaxCrash = %d\n Early = FALSE\n"
            "INVARIANTS Complete Once NotAgain NoDuplicates Computed Stuck\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (p, d, blocks, crash))


def c29(check):
    rng = check.rng
    ms = [check.model("HashFarm", tag="HashFarm-%d" % i, cfg=model_cfg(*c))
          for i, c in enumerate(check.pick([(3, 3, 1, 1), (1, 3, 1, 2)], [(3, 3, 1, 2), (4, 3, 1, 1), (3, 5, 2, 1), (2, 4, 2, 2)]))]
    progs = kills(rng, check.pick(4, 10))
    progs += [program(rng, "kill") for _ in range(check.pick(12, 150))]
    progs += [program(rng, "many") for _ in range(check.pick(3, 40))]
    progs += [program(rng, "plain") for _ in range(check.pick(36, 500))]
    progs += [program(rng, "plain", big=2) for _ in range(check.pick(3, 30))]
    rng.shuffle(progs)
    check.notes["jobs"] = sum(1 for p in progs for s in p["steps"] if s["op"] != "edit")
    run_programs(check, progs, driver=DRIVER, module=MODULE, procs=5, timeout=check.pick(600, 3000))
    for m in ms:
        m.done()
    check.assumptions += ["the database file is not below the directory, nor are two directories the same one when a file is written in each",
                          "file names have no newlines; hashlib and sqlite are trusted; file contents do not change while a job runs"]
    return check.finish()


CHECKS = {"C29": c29}


def replay(check, payload):
    run_programs(check, payload["programs"], driver=payload["driver"], module=payload["module"])
    return check.finish()
