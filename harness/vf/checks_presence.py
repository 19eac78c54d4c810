"""Check of the file presence scripts: C30."""
from .checks_bin import run_programs

DRIVER, MODULE = "presence_driver.py", "PresenceTrace"
BAD = ["text", "nothing", "truncated", "dir", "link"]
PG = ["group_tab", "group_ids", "subhalo_tab", "subhalo_ids"]
NAMES = ["run", "run", "run", "run 1", "run[1]", "L0100N1504", "run*", "50%", "run?", "r_000_z000p000"]


def eagle_types(o):
    s, f = ("", "") if o == "snap" else ("_snip", "snip_")
    return [(o + "shot", o, "n"), ("groups" + s, "group_%stab" % f, "t"), ("particledata" + s, "eagle_subfind_%sparticles" % f, "n"),
            ("groups" + s, "eagle_subfind_%stab" % f, "t")]


def name(kind, file, i, z, k):
    if kind == "eagle":
        return "%s_%03d_%s.%d.hdf5" % (file, i, z, k)
    return "%s_%03d.%d%s" % (file, i, k, ".hdf5" if file == "500_dm" else "")


def good(rng, kind, file):
    if kind == "eagle":
        return rng.choice(["hdf5", "hdf5", "scalar64"])
    if file in PG:
        return file
    return "hdf5" if file == "500_dm" else rng.choice(["snapshot", "snapshot", "hdf5"])


def bad(rng, file):
    """A binary file is not known from its first bytes"""
    return rng.choice([b for b in BAD if b != "truncated" or not file.startswith(("group_", "subhalo_"))])


def entry(rng, kind, dirname, file, i, z, k, n, readable=True):
    other = rng.choice([n, n, 1, 5])
    f = {"dir": dirname, "name": name(kind, file, i, z, k), "fmt": good(rng, kind, file), "n": n, "t": n, "swap": rng.random() < 0.3}
    if kind == "eagle":         # the other number is not the one which is meant
        if "tab" in file:
            f["n"] = other
        else:
            f["t"] = other
    if not readable:
        f["fmt"] = bad(rng, file)
        f["n"] = f["t"] = -1
    return f


def small(rng, cases, kind):
    """Small cases, each of one output"""
    outs = [(o, t, i) for o in ("snap", "snip") for t in range(4) for i in range(2)] if kind == "eagle" else [("", t, i) for t in range(5) for i in range(2)]
    base = rng.choice(NAMES)
    prog = {"begin": {"kind": kind, "name": base}, "steps": []}
    snapbase = rng.choice(["snap", "500_dm", "snapshot"])
    rng.shuffle(outs)
    dirs, files = {}, []
    for (o, t, i), c in zip(outs, cases):
        if kind == "eagle":
            d, file, _ = eagle_types(o)[t]
            zs = ["z%03dp%03d" % (rng.randint(0, 20), rng.randint(0, 999)) for _ in range(c["dirs"])]
            key = "%s_%03d" % (d, i)
            if key in dirs:                 # shared by two types of output
                zs = dirs[key]
            dirs[key] = zs
            names = ["%s_%s" % (key, z) for z in zs]
        else:
            d, file = ("snapdir", snapbase) if t == 0 else ("groups", PG[t - 1])
            key = "%s_%03d" % (d, i)
            if c["dirs"] or key in dirs:
                dirs[key] = [""]
            names, zs = ([key], [""]) if key in dirs else ([], [])
        for dn, z in zip(names, zs):
            for k in c["here"]:
                files.append(entry(rng, kind, dn, file, i, z, k, c["n"], k != 0 or c["good"]))
    prog["steps"].append({"op": "edit", "rmdirs": [], "del": [], "files": files,
                          "dirs": sorted({k + "_" + z if z else k for k, zs in dirs.items() for z in zs})})
    prog["steps"].append(check_step(rng, kind, snapbase, 2, 2))
    return prog


def check_step(rng, kind, snapbase, a, b):
    c = {"op": "check", "kind": kind, "there": rng.random() < 0.97, "base": rng.choice(["abs", "abs", "rel", "slash", "dot"]), "apart": rng.random() < 0.05}
    if kind == "eagle":
        c.update(snaps=a, snips=b)
    else:
        c.update(snapbase=snapbase, first=0, last=a - 1, step=1, full=rng.random() < 0.3)
    return c


def history(rng, kind):
    """A simulation which writes its outputs, loses some of them, and gets them back"""
    prog = {"begin": {"kind": kind, "name": rng.choice(NAMES)}, "steps": []}
    snapbase = rng.choice(["snap", "500_dm", "snapshot", "snap_"])
    offset = rng.choice([0, 0, 0, 8, 97])
    count = rng.randint(1, 3)
    nums = [offset + i for i in range(count)]
    state, dirs = {}, set()
    steps = prog["steps"]

    def edit(new, files, rmdirs=(), dele=()):
        steps.append({"op": "edit", "rmdirs": list(rmdirs), "del": list(dele), "files": files, "dirs": list(new)})

    def output(i):
        files, new = [], []
        z = "z%03dp%03d" % (rng.randint(0, 20), rng.randint(0, 999))
        types = eagle_types("snap") + eagle_types("snip") if kind == "eagle" else [("snapdir", snapbase, "n")] + [("groups", x, "t") for x in PG]
        for d, file, _ in types:
            dn = "%s_%03d" % (d, i) + ("_" + z if kind == "eagle" else "")
            new.append(dn)
            n = rng.choice([1, 1, 2, 3, 5, 12, 101 if offset == 0 else 2])
            for k in range(n):
                files.append(entry(rng, kind, dn, file, i, z, k, n if rng.random() < 0.95 else n + 1))
            if rng.random() < 0.1:        # something which does not belong there
                files.append(entry(rng, kind, dn, file, i, z, n + rng.randint(0, 2), n))
            if rng.random() < 0.1:
                files.append({"dir": dn, "name": file + "_%03d.bak" % i, "fmt": "text", "n": -1, "t": -1, "swap": False})
        return new, files
    for i in nums:
        new, files = output(i)
        dirs |= set(new)
        for f in files:
            state[f["dir"], f["name"]] = f
        edit(new, [f for f in {(f["dir"], f["name"]): f for f in files}.values()])
    def look():
        c = check_step(rng, kind, snapbase, rng.choice([count + offset] * 3 + [count + offset + 1, max(0, count + offset - 1)]),
                       rng.choice([count + offset, offset, 0]) if offset < 50 else 0)
        if kind == "pgadget3":
            if rng.random() < 0.6:
                c.update(first=rng.choice([offset, offset, 0, offset + 1]), step=rng.choice([1, 1, 2, 3]))
        steps.append(c)
    if offset >= 50 and kind == "eagle":
        return history(rng, "pgadget3")
    look()
    for _ in range(rng.randint(1, 3)):
        keys = sorted(state)
        z = rng.random()
        if z < 0.35 and keys:
            lost = [state.pop(k) for k in rng.sample(keys, rng.randint(1, min(3, len(keys))))]
            edit([], [], [], [{"dir": f["dir"], "name": f["name"]} for f in lost])
        elif z < 0.55 and keys:
            spoilt = []
            for k in rng.sample(keys, min(3, len(keys))):
                f = dict(state[k], fmt=bad(rng, k[1]), n=-1, t=-1)
                state[k] = f
                spoilt.append(f)
            edit([], spoilt)
        elif z < 0.7:
            d = rng.choice(sorted(dirs))
            dirs.discard(d)
            for k in [k for k in keys if k[0] == d]:
                del state[k]
            edit([], [], [d])
            if not dirs:
                break
        elif z < 0.85 and kind == "eagle":
            d = rng.choice(sorted(dirs))
            d = d[:-8] + "z%03dp%03d" % (rng.randint(0, 20), rng.randint(0, 999))
            d = rng.choice([d, d[:-1], d + "0", d[:-9] + "-" + d[-8:], d[:-4] + "q" + d[-3:], "x" + d])
            dirs.add(d)
            edit([d], [])
        else:
            new, files = output(rng.choice(nums))
            dirs |= set(new)
            files = [f for f in {(f["dir"], f["name"]): f for f in files}.values()]
            for f in files:
                state[f["dir"], f["name"]] = f
            edit(new, files)
        look()
    if rng.random() < 0.1:
        steps.append({"op": "wrong", "kind": kind, "args": rng.choice([[], ["x"], ["x", "1"], ["x", "snap", "y"], ["x", "1", "y"]] +
                      ([["x", "snap", "1", "2"], ["x", "snap", "1", "2", "3", "4"]] if kind == "pgadget3" else []))})
    return prog


def c30(check):
    rng = check.rng
    n = check.pick(3, 5)
    cases = check.tlc_generate("GenPresence", cfg="SPECIFICATION Spec\nCONSTANT N = %d\nCHECK_DEADLOCK FALSE\n" % n)["cases"]
    progs = []
    for kind, per in (("eagle", 16), ("pgadget3", 10)):
        rng.shuffle(cases)
        for i in range(0, len(cases), per):
            progs.append(small(rng, cases[i:i + per], kind))
    for _ in range(check.pick(120, 2500)):
        progs.append(history(rng, rng.choice(["eagle", "pgadget3"])))
    rng.shuffle(progs)
    check.notes["outputs enumerated"] = 2 * len(cases)
    run_programs(check, progs, driver=DRIVER, module=MODULE, timeout=check.pick(600, 3000))
    check.assumptions += ["first files are either output files or cannot be opened as such (no HDF5 files without a header)",
                          "fewer than 1000 snapshots"]
    return check.finish()


CHECKS = {"C30": c30}


def replay(check, payload):
    run_programs(check, payload["programs"], driver=payload["driver"], module=payload["module"])
    return check.finish()
