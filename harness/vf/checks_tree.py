"""Checks of the merger tree database: C19 (indexing) and C20 (export)."""
from .checks_util import serial


def forest(rng, n, shape):
    """Descendant of each node, by position (descendants first), and its snapshot."""
    d = []
    for i in range(n):
        if i == 0 or shape == "roots" or (shape != "chain" and rng.random() < 0.1):
            d.append(0)
        elif shape == "chain":
            d.append(i)
        elif shape == "star":
            d.append(1)
        elif shape == "deep":
            d.append(max(1, i - rng.choice([0, 0, 0, 1, 2])))
        elif shape == "late":          # side branches along a chain
            d.append(i if i % 3 else max(1, i - 2))
        else:
            d.append(rng.randint(1, i))
    return d


def snaps(rng, d):
    s = []
    for i, x in enumerate(d):
        s.append(200 if x == 0 else s[x - 1] - rng.choice([1, 1, 1, 2, 3]))
    lo = min(s) if s else 0
    return [x - min(lo, 0) for x in s]


def tree_call(rng, d, m, op):
    n = len(d)
    s = snaps(rng, d)
    order = list(range(n))
    z = rng.random()
    if z < 0.6:
        rng.shuffle(order)
    elif z < 0.8:
        order.reverse()
    ident = rng.sample(range(1, max(2 * n, 4) + 1), n)
    if rng.random() < 0.3:
        ident = list(range(1, n + 1))
    none = [-1, -1, 3 * n + 9]           # no descendant, or one which is not in the table
    id_, desc, snap, mass = [], [], [], []
    for i in order:
        id_.append(ident[i])
        desc.append(ident[d[i] - 1] if d[i] else rng.choice(none))
        snap.append(s[i])
        mass.append(m[i])
    c = {"op": op, "id": id_, "desc": desc, "ids": rng.choice(["i4", "i8", "i8", "i4g", "i8g", "i8w"]),
         "mt": rng.choice(["f4", "f8", "f8", "f8e", "f8s", "i4", "i8"])}
    if op != "index":
        c["snap"] = snap
        c["snapt"] = rng.choice(["i4", "i4", "i8", "i2", "f4"])
    c["m" if op in ("mass", "export") else "mb"] = mass
    if rng.random() < 0.2:
        c["strided"] = True
    return c


def masses(rng, n, op):
    k = rng.choice(["few", "distinct", "rising", "near", "equal", "close"])
    if k == "close" and op != "mass":    # beyond single precision
        return [2 ** 28 + rng.randint(0, 40) for _ in range(n)]
    if k == "few":
        return [rng.randint(1, 4) for _ in range(n)]
    if k == "distinct":
        return rng.sample(range(1, 4 * n + 2), n)
    if k == "rising":
        return [i + 1 for i in range(n)]
    if k == "near" and op == "main":     # equal to a part in 1e5, or not quite
        return [2000000 - rng.choice([0, 0, 3, 19, 27, 500, 30000]) for _ in range(n)]
    if k == "equal":
        return [5] * n
    return [rng.randint(1, 1000) for _ in range(n)]


SHAPES = ["random", "random", "chain", "star", "deep", "late", "roots"]


def random_tree(rng, op, big):
    n = rng.choice([0, 1, 2, 5, 12, 25, big])
    d = forest(rng, n, rng.choice(SHAPES))
    c = tree_call(rng, d, masses(rng, n, op), op)
    if max(c.get("mb", [0]) or [0]) > 10 ** 6 and c["mt"] == "f4":
        c["mt"] = "f8"
    return c


def c19(check):
    models = [check.model("TreeModel", cfg="SPECIFICATION Spec\nCONSTANTS\n N = %d\n M = %d\nINVARIANTS WalkIsStated SubtreeIsInterval "
                          "MainBranchIsInterval\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n" % check.pick((4, 3), (5, 3)), workers=2, timeout=800),
              check.model("TreeDetermined", cfg="SPECIFICATION Spec\nCONSTANT N = 3\nINVARIANTS One OneMass\nCHECK_DEADLOCK FALSE\n")]
    rng = check.rng
    all_ = check.tlc_generate("GenTree", cfg="SPECIFICATION Spec\nCONSTANTS\n N = %d\n M = %d\n" % check.pick((4, 2), (5, 2)))
    check.notes["forests_enumerated_by_tlc"] = len(all_)
    calls = []
    for f in all_:
        d, m = list(f["d"] or []), list(f["m"] or [])
        for op in ("index", "mass", "main"):
            calls.append(tree_call(rng, d, m, op))
    for _ in range(check.pick(150, 3000)):
        for op in ("index", "mass", "main"):
            calls.append(random_tree(rng, op, check.pick(50, 120)))
    for shape in ("chain", "star", "random"):      # deep and wide
        n = check.pick(300, 1200)
        for op in ("index", "mass", "main"):
            calls.append(tree_call(rng, forest(rng, n, shape), masses(rng, n, "mass"), op))
    serial(check, "tree_driver.py", calls, "TreeTrace", shards=6, procs=4, slimmed=False)
    for m in models:
        m.done()
    check.assumptions = ["node identities are distinct; a descendant has a later snapshot than its progenitors",
                         "masses are positive (a branch mass of zero cannot be a main progenitor's)"]
    return check.finish()


TYPES = [{"k": "i", "s": 4}, {"k": "i", "s": 8}, {"k": "f", "s": 4}, {"k": "f", "s": 8}, {"k": "S", "s": 1}, {"k": "S", "s": 5},
         {"k": "S", "s": 12}]
WRONG = [{"k": "u", "s": 4}, {"k": "u", "s": 8}, {"k": "i", "s": 2}, {"k": "i", "s": 1}, {"k": "f", "s": 2}, {"k": "b", "s": 1},
         {"k": "c", "s": 8}]


def cell(rng, t):
    if rng.random() < 0.2:
        return [rng.choice([0, 0, 255])] * t["s"] if t["k"] != "f" else [0] * t["s"]
    if t["k"] == "S":
        k = rng.randint(0, t["s"])
        return [rng.choice([32, 10, 65, 97, 200, 48]) for _ in range(k)] + [0] * (t["s"] - k)
    if t["k"] == "b":
        return [rng.choice([0, 1])]
    return [rng.randint(0, 255) for _ in range(t["s"])]


NAMES = ["nodeIndex", "pos", "velocity", "a", "snapshotNumber", "Name", "x_1", "isMain", "b", "m200", "hostIndex", "zed"]


def a_column(rng, name, n, types=TYPES):
    t = dict(rng.choice(types))
    vec = rng.random() < 0.3
    v = [[cell(rng, t) for _ in range(3)] if vec else cell(rng, t) for _ in range(n)]
    return {"n": name, "t": t, "vec": vec, "v": v}


def table(rng):
    n = rng.choice([0, 1, 3, 3, 8, 20])
    cols = [a_column(rng, nm, n) for nm in rng.sample(NAMES, rng.choice([1, 2, 4, 7]))]
    c = {"op": "table", "name": rng.choice(["T", "DHalo..Trees", "Dhalo_trees"]), "cols": cols, "strange": False,
         "pre": rng.random() < 0.4}
    z = rng.random()
    k = rng.randrange(len(cols))
    if z < 0.08:
        cols[k] = a_column(rng, cols[k]["n"], n, WRONG)
    elif z < 0.14 and len(cols) > 1:
        cols[1 + rng.randrange(len(cols) - 1)] = a_column(rng, "odd", n + rng.choice([1, 2, -1] if n else [1]))
    elif z < 0.22 and n > 0:               # not a number or a three-vector per row
        t = cols[k]["t"]
        per, shape = rng.choice([(1, [n, 1]), (2, [n, 2]), (4, [n, 4]), (3, [n, 3, 1]), (3, [n, 1, 3])])
        cols[k] = {"n": cols[k]["n"], "t": t, "vec": True, "v": [[cell(rng, t) for _ in range(per)] for _ in range(n)], "shape": shape}
        c["strange"] = True
    return c


def export(rng):
    n = rng.choice([1, 2, 6, 15, 30])
    d = forest(rng, n, rng.choice(SHAPES))
    c = tree_call(rng, d, masses(rng, n, "mass"), "export")
    c.pop("strided", None)
    c["snapt"] = rng.choice(["i4", "i8"])
    names = rng.sample([x for x in NAMES if x not in ("nodeIndex", "snapshotNumber")], rng.choice([0, 1, 3]))
    c["more"] = [a_column(rng, nm, n) for nm in names]
    c["cuts"] = sorted(rng.randint(0, n) for _ in range(rng.choice([0, 0, 1, 2, 12])))
    c["nft"] = rng.choice(["", "i4", "i8"])
    c["mix"] = rng.random() < 0.5
    c["extra"] = rng.random() < 0.2
    c["pre"] = rng.random() < 0.3
    c["name"] = rng.choice(["T", "Trees"])
    return c


def c20(check):
    rng = check.rng
    calls = [{"op": "types", "t": t} for t in TYPES + [{"k": "S", "s": s} for s in (2, 9, 10, 63, 100, 256)]]
    calls += [{"op": "types", "t": {"k": "i", "s": 4}, "text": "int"}, {"op": "types", "t": {"k": "S", "s": 7}, "text": " char(7) "}]
    calls += [{"op": "badtype", "text": x} for x in ("tinyint", "varchar(7)", "char", "char()", "char(x)", "date", "")]
    calls += [table(rng) for _ in range(check.pick(500, 6000))]
    calls += [export(rng) for _ in range(check.pick(120, 1500))]
    serial(check, "tree_driver.py", calls, "TreeTrace", shards=6, procs=4, slimmed=False)
    check.assumptions = ["every file of a set of tree files has every dataset", "column names are distinct once vectors are split",
                         "SQL Server accepts the comma after the last column of the script, which was always written"]
    return check.finish()


CHECKS = {"C19": c19, "C20": c20}


def replay(check, payload):
    serial(check, payload["driver"], payload["calls"], payload["module"], slimmed=False)
    return check.finish()
