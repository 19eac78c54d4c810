"""
Merger tree indexing and the database export: tree_driver.py CALLS.json OUT.ndjson
The working directory is scratch.
"""
import json
import os
import re
import sys

import numpy as np
import h5py

CORRUPT = -999999


class Ids:
    """Model identities 1, 2, ... as the identities of the data."""
    def __init__(self, codec):
        self.dt, self.base, self.step = {"i4": ("i4", 0, 1), "i8": ("i8", 0, 1), "i4g": ("i4", 2 ** 31 - 40000, 7),
                                         "i8g": ("i8", 2 ** 53 + 1, 1), "i8w": ("i8", 10 ** 15, 10 ** 12)}[codec]

    def enc(self, v):
        return np.asarray([-1 if x == -1 else self.base + self.step * x for x in v], dtype=self.dt)

    def dec(self, a):
        out = []
        for x in a:
            x = int(x)
            q, r = divmod(x - self.base, self.step)
            out.append(-1 if x == -1 else q if r == 0 and abs(q) < 10 ** 6 else CORRUPT)
        return out


SCALE = {"f4": 1 / 8, "f8": 1 / 8, "f8e": 1.0e10, "f8s": 2.0 ** -60, "i4": 1, "i8": 1}


def enc_m(v, codec):
    return (np.asarray(v, dtype="f8") * SCALE[codec]).astype(codec[:2])


def dec_m(a, codec):
    out = []
    for x in np.asarray(a).astype("f8") / SCALE[codec]:
        out.append(int(round(x)) if abs(x - round(x)) < 1e-6 and abs(x) < 10 ** 9 else CORRUPT)
    return out


def ints(a):
    return [int(x) if abs(int(x)) < 10 ** 9 else CORRUPT for x in a]


def same(before, after):
    return all(np.array_equal(x, y) and x.dtype == y.dtype for x, y in zip(before, after))


def arrays(c, mass):
    ids = Ids(c["ids"])
    a = [ids.enc(c["id"]), ids.enc(c["desc"])]
    if "snap" in c:
        a.append(np.asarray(c["snap"], dtype=c.get("snapt", "i4")))
    a.append(enc_m(c[mass], c["mt"]))
    if c.get("strided"):
        a = [np.repeat(x, 2)[::2] for x in a]
    return ids, a


def do_index(c):
    from virgo.database.index_trees import depth_first_index
    ids, a = arrays(c, "mb")
    keep = [x.copy() for x in a]
    df, end, last = depth_first_index(*a)
    return {"df": ints(df), "end": ints(end), "last": ints(last), "same": same(keep, a)}


def do_mass(c):
    from virgo.database import index_trees as it
    ids, a = arrays(c, "m")
    keep = [x.copy() for x in a]
    return {"branch": dec_m(it.find_progenitor_branch_mass_delucia(*a), c["mt"]),
            "tree": dec_m(it.find_progenitor_tree_mass(*a), c["mt"]), "same": same(keep, a)}


def do_main(c):
    from virgo.database.index_trees import find_main_progenitor
    ids, a = arrays(c, "mb")
    keep = [x.copy() for x in a]
    ntie, main = find_main_progenitor(*a)
    return {"ntie": ints(ntie), "main": ids.dec(main), "same": same(keep, a)}


def np_type(t):
    return np.dtype("%s%s%d" % (t.get("order", "<") if t["k"] in "iuf" else "", t["k"], t["s"]))


def type_of(t):
    t = np.dtype(t)
    return {"k": t.kind, "s": t.itemsize}


def column(c):
    dt = np_type(c["t"])
    rows = [sum(r, []) if c["vec"] else r for r in c["v"]]
    raw = bytes(b for r in rows for b in r)
    a = np.frombuffer(raw, dtype=dt).copy()
    shape = c.get("shape")
    return a.reshape(shape) if shape else a.reshape((-1, 3)) if c["vec"] else a


def read_back(base):
    from virgo.database.make_dtrees_table import numpy_type
    with open(base + ".sql") as f:
        script = f.read().split("\n")
    assert script[-1] == ""
    cols = []
    for line in script[1:-2]:
        name, t = line.split()[:2]
        cols.append((name, numpy_type(t)))
    dt = np.dtype(cols)
    with open(base + ".dat", "rb") as f:
        data = f.read()
    table = np.frombuffer(data[:len(data) // dt.itemsize * dt.itemsize], dtype=dt)
    back = [{"n": n, "t": type_of(dt.fields[n][0]), "v": [list(np.asarray(v).tobytes()) for v in table[n].copy()]}
            for n in dt.names]
    for b in back:      # strings come back without their padding
        b["v"] = [v + [0] * (b["t"]["s"] - len(v)) for v in b["v"]]
    return script[:-1], data, table, back, len(data) % dt.itemsize


def junk(c, base):
    for x in (".dat", ".sql"):
        if os.path.exists(base + x):
            os.remove(base + x)
        if c.get("pre"):
            with open(base + x, "w") as f:
                f.write("old contents\n" * 500)


def do_types(c):
    from virgo.database.make_dtrees_table import sql_type, numpy_type
    sql = sql_type(np_type(c["t"]))
    return {"sql": sql, "back": type_of(numpy_type(sql if not c.get("text") else c["text"]))}


def do_badtype(c):
    from virgo.database.make_dtrees_table import numpy_type
    return {"back": type_of(numpy_type(c["text"]))}


def do_table(c):
    from virgo.database.make_dtrees_table import write_sql_server_native_file
    data = {x["n"]: column(x) for x in c["cols"]}
    keep = {k: v.copy() for k, v in data.items()}
    junk(c, "out")
    write_sql_server_native_file(c["name"], data, "out.dat", "out.sql")
    script, raw, table, back, rest = read_back("out")
    return {"script": script, "data": list(raw), "back": back,
            "same": list(keep) == list(data) and all(np.array_equal(keep[k].view("u1") if keep[k].size else keep[k],
                                                                    data[k].view("u1") if data[k].size else data[k]) for k in keep)}


def do_export(c):
    from virgo.database.make_dtrees_table import make_dtrees_table
    ids = Ids(c["ids"])
    n = len(c["id"])
    data = {"nodeIndex": ids.enc(c["id"]), "descendantIndex": ids.enc(c["desc"]),
            "snapshotNumber": np.asarray(c["snap"], dtype=c["snapt"]), "nodeMass": enc_m(c["m"], c["mt"])}
    cols = []
    for k, v in data.items():
        cols.append({"n": k, "t": type_of(v.dtype), "vec": False, "v": [list(x.tobytes()) for x in v]})
    cols += c["more"]
    arr = {x["n"]: column(x) for x in cols}
    cuts = [0] + c["cuts"] + [n]
    nf = len(cuts) - 1
    for name in os.listdir("."):
        if name.startswith("trees."):
            os.remove(name)
    for i in range(nf):
        with h5py.File("trees.%d.hdf5" % i, "w") as f:
            f.create_group("fileInfo").attrs["numberOfFiles"] = c["nft"] and np.array(nf, dtype=c["nft"]) or nf
            g = f.create_group("haloTrees")
            order = sorted(arr, key=lambda k: hash((k, i)) if c.get("mix") else k)
            for k in order:
                g[k] = arr[k][cuts[i]:cuts[i + 1]]
            f.create_group("treeIndex")["firstNode"] = np.arange(3)
    if c.get("extra"):                   # a file of an earlier, longer run
        with h5py.File("trees.%d.hdf5" % nf, "w") as f:
            f.create_group("haloTrees")["nodeIndex"] = np.arange(3)
    junk(c, "out")
    make_dtrees_table(c["name"], "trees", "out")
    script, raw, table, back, rest = read_back("out")
    res = {"cols": cols, "script": script, "rows": len(table), "rest": rest,
           "branch": dec_m(table["mBranch"], c["mt"]), "df": ints(table["depthFirst"]),
           "end": ints(table["endMainBranch"]), "last": ints(table["lastProgenitor"]), "back": back}
    for b in back:
        if b["n"] in ("mBranch", "depthFirst", "endMainBranch", "lastProgenitor"):
            b["v"] = []
    return res


with open(sys.argv[1]) as f:
    calls = json.load(f)
with open(sys.argv[2], "w") as out:
    for c in calls:
        ev = dict(c)
        try:
            ev.update(globals()["do_" + c["op"]](c))
        except Exception as e:   # noqa
            ev["err"] = type(e).__name__ + ": " + str(e)[:200]
        out.write(json.dumps(ev) + "\n")
        out.flush()
    out.write(json.dumps({"op": "end"}) + "\n")
