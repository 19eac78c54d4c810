"""Check of file names and multi-file reads: C18."""
from .checks_util import serial

NAMES = ["isnap", "ifile", "z", "run", "x1"]


def spec_of(rng, kind):
    s = {"fill": "", "align": "", "zero": "", "w": 0, "prec": 0, "type": ""}
    if rng.random() < 0.3 and kind != "f":
        return s
    if rng.random() < 0.7:
        s["w"] = rng.choice([1, 2, 3, 4, 6, 10])
        if rng.random() < 0.4:
            s["align"] = rng.choice("<>^")
            if rng.random() < 0.6:
                s["fill"] = rng.choice("*_.#x")
        elif kind != "s" and rng.random() < 0.7:
            s["zero"] = "0"
    if kind == "i":
        s["type"] = rng.choice(["", "d", "d", "x"])
    elif kind == "s":
        s["type"] = rng.choice(["", "s"])
    else:
        s["type"], s["prec"] = "f", rng.choice([3, 3, 4])
    return s


def leaf(rng, kind):
    if kind == "i":
        return {"k": "i", "v": rng.choice([0, 7, 42, 123, 1000, -1, -35, 99999]), "np": rng.random() < 0.3}
    if kind == "s":
        return {"k": "s", "v": rng.choice(["", "a", "run_1", "L0100", "z000p000", "/data/x y", "%03d", "a.b"])}
    return {"k": "f", "v": rng.randint(-50, 100)}


def obj(rng, kind):
    """an object which has a value of the kind at some path, and others"""
    style = rng.choice(["attr", "list", "map"])
    if style == "attr":
        paths = [".n", ".key", ".name"]
    elif style == "list":
        paths = ["[0]", "[1]"]
    else:
        paths = ["[a]", "[key]"]
    path = rng.choice(paths)
    return path, {"k": "o", "v": {p: leaf(rng, kind) for p in paths}}


def template(rng):
    """a template, and stages which fill it"""
    parts, values, pos = [], {}, []
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
    kinds = {}
    auto = rng.random() < 0.5
    lits = ["", "/", "snap_", ".hdf5", "_z", " ", "%03d", "a-b", "."]
    nfield = rng.choice([1, 2, 3, 5])
    npos = 0
    for i in range(nfield):
        if rng.random() < 0.8:
            parts.append({"lit": rng.choice(lits)})
        if rng.random() < 0.25:                      # positional
            kind = rng.choice("isf")
            f = {"arg": "" if auto else None, "at": npos + 1}
            v, path = leaf(rng, kind), ""
            npos += 1
            pos.append(v)
            if not auto:
                f["arg"] = str(npos - 1)
        else:
            n = rng.choice(names)
            if n not in kinds:
                kind = rng.choice("iiisf")
                if rng.random() < 0.25:
                    path, v = obj(rng, kind)
                else:
                    path, v = "", leaf(rng, kind)
                kinds[n] = (kind, path)
                values[n] = v
            kind, path = kinds[n]
            v = values[n]
            if path and rng.random() < 0.5:
                path = rng.choice(list(v["v"]))
            f = {"arg": n, "at": 0}
        conv = rng.choice(["", "", "", "r", "s"]) if kind != "f" else ""
        f.update(path=path, conv=conv, spec=spec_of(rng, "s" if conv else kind))
        parts.append(f)
    if rng.random() < 0.7:
        parts.append({"lit": rng.choice(lits)})
    # stages
    todo = list(values)
    rng.shuffle(todo)
    stages = []
    k = rng.choice([1, 2, 2, 3, 4])
    for s in range(k):
        last = s == k - 1
        now = todo if last else todo[:rng.randint(0, len(todo))]
        todo = [] if last else [n for n in todo if n not in now]
        ignore = rng.random() < 0.6
        given = {n: values[n] for n in now}
        for n in todo:
            if not ignore or rng.random() < 0.3:
                given[n] = {"k": "none"}
        if rng.random() < 0.2:
            given["other"] = {"k": "i", "v": 5}      # a value nobody asks for
        if not ignore and todo and rng.random() < 0.2:
            given.pop(rng.choice(todo))              # an error
        how = rng.choice(["new", "shared"])
        if last and rng.random() < 0.4:
            how = "str"
        if last and rng.random() < 0.1 and now:
            given[rng.choice(now)] = {"k": "none"}   # never filled
            how = "new"
        stages.append({"given": given or {"other": {"k": "none"}}, "ignore": ignore, "pos": pos if s == 0 else [], "how": how})
    return {"op": "template", "parts": parts, "text": "".join(text(p) for p in parts), "stages": stages}


def text(p):
    if "lit" in p:
        return p["lit"]
    s = p["spec"]
    t = s["fill"] + s["align"] + s["zero"] + (str(s["w"]) if s["w"] else "") + (".%d" % s["prec"] if s["prec"] else "") + s["type"]
    return "{" + p["arg"] + p["path"] + ("!" + p["conv"] if p["conv"] else "") + (":" + t if t else "") + "}"


EAGLE = ["eagle_subfind_tab", "eagle_subfind_snip_tab", "group_tab", "group_snip_tab", "eagle_subfind_particles",
         "eagle_subfind_snip_particles", "snapshot", "snipshot"]


def eagle(rng):
    bases = rng.sample(["data", "L0025", "run/a", "L0100[N]", "b*", "q?"], rng.choice([1, 2, 3]))
    names = rng.sample(EAGLE, rng.choice([1, 2, 4]))
    files = []
    for b in bases:
        for n in names:
            for isnap in rng.sample([0, 1, 12, 28, 404], rng.choice([1, 2])):
                z = "z%03dp%03d" % (rng.randint(0, 20), rng.randint(0, 999))
                for i in range(rng.choice([1, 1, 2, 3])):
                    files.append({"base": b, "name": n, "isnap": isnap, "z": z, "i": i})
                if rng.random() < 0.15:              # a second directory for the same snapshot
                    files.append({"base": b, "name": n, "isnap": isnap, "z": "z099p000", "i": rng.choice([0, 1])})
    qs = []
    for _ in range(rng.choice([2, 5, 12])):
        f = dict(rng.choice(files))
        f.pop("z")
        if rng.random() < 0.2:
            f["i"] = rng.choice([0, 1, 5])
        if rng.random() < 0.1:
            f["isnap"] = rng.choice([0, 1, 12, 28])
        if rng.random() < 0.1:
            f["name"] = rng.choice(EAGLE + ["snap", "groups"])
        if rng.random() < 0.1:
            f["base"] = rng.choice(bases)
        qs.append(f)
    return {"op": "eagle", "files": files, "queries": qs, "relative": rng.random() < 0.4}


def multi(rng):
    nd = rng.choice([1, 1, 2, 2, 3])
    axis = rng.choice([0, 0, 0] + list(range(nd)))
    datasets = rng.sample(["a", "b", "grp/c", "d"], rng.choice([1, 2, 3]))
    kind = rng.choice(["hdf5", "hdf5", "binary"])
    nfile = rng.choice([1, 2, 3, 6])
    where = rng.sample([0, 1, 2, 3, 7, 10, 63, 120], nfile)
    shape = {d: [rng.choice([1, 2, 3]) for _ in range(nd)] for d in datasets + ["unread"]}
    files, nxt = {}, 0
    for i in where:
        x = {}
        for d in datasets + ["unread"]:
            if rng.random() < 0.25 and (i != where[0]):
                continue
            s = list(shape[d])
            s[axis] = rng.choice([0, 1, 2, 4])
            n = 1
            for v in s:
                n *= v
            x[d] = {"d": s, "e": [nxt + j for j in range(n)]}
            nxt += n
        files[str(i)] = x
    idx = [where[0]] + [rng.choice(where) for _ in range(rng.choice([0, 1, 3, 5]))] if rng.random() < 0.4 else list(where)
    rng.shuffle(idx)
    return {"op": "multi", "files": files, "idx": idx, "datasets": datasets, "axis": axis, "kind": kind,
            "fmt": rng.choice(["f.%(i)d.x", "f_%(i)03d.x", "%(i)d"]), "dtype": rng.choice(["i4", "i8", "f8", "u2"]),
            "form": rng.choice(["list", "tuple", "array", "gen"]), "pass": rng.choice(["", "args", "class", "axis"])}


def c18(check):
    rng = check.rng
    calls = [template(rng) for _ in range(check.pick(700, 12000))]
    calls += [eagle(rng) for _ in range(check.pick(120, 1500))]
    calls += [multi(rng) for _ in range(check.pick(250, 3000))]
    for t in range(5):
        for isnap in check.pick((0, 1, 7, 63, rng.randrange(64)), range(64)):
            for i in (0, 5, 13, 511, rng.randrange(512)):
                calls.append({"op": "cosma", "type": t, "isnap": isnap, "i": i})
    for _ in range(check.pick(40, 200)):
        cosma = rng.random() < 0.5
        calls.append({"op": "opens", "cosma": cosma, "prefix": "/gpfs/data/Millennium/" if cosma else rng.choice(["/d", "a/b"]),
                      "dir": "snapdir", "name": rng.choice(["snap_millennium", "s"]), "isnap": rng.randrange(64), "i": rng.randrange(512)})
    serial(check, "names_driver.py", calls, "NamesTrace", shards=6, procs=4, slimmed=False)
    check.assumptions = ["templates have no escaped braces, values no braces; positional values are all given at once",
                         "the files of an Eagle run do not move while the names are used",
                         "each dataset asked for is in at least one of the files"]
    return check.finish()


CHECKS = {"C18": c18}


def replay(check, payload):
    serial(check, payload["driver"], payload["calls"], payload["module"], slimmed=False)
    return check.finish()
