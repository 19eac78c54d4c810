"""
File name and multi-file utilities: names_driver.py CALLS.json OUT.ndjson
The working directory is scratch.
"""
import json
import os
import shutil
import sys
import types

import numpy as np

HERE = os.getcwd()


def value(x, np_ints=False):
    if x["k"] == "none":
        return None
    if x["k"] == "f":
        return x["v"] / 8
    if x["k"] == "o":
        items = {k: value(v) for k, v in x["v"].items()}
        first = next(iter(items))
        if first[0] == ".":
            return types.SimpleNamespace(**{k[1:]: v for k, v in items.items()})
        keys = [k[1:-1] for k in items]
        if all(k.isdigit() for k in keys):
            return [items["[%d]" % i] for i in range(len(items))]
        return {k[1:-1]: v for k, v in items.items()}
    if x["k"] == "i" and x.get("np"):
        return np.int64(x["v"])
    return x["v"]


def do_template(c):
    from virgo.util.partial_formatter import PartialFormatter
    text, outs = c["text"], []
    res = {"outs": outs}
    shared = PartialFormatter(ignore_missing=True), PartialFormatter()
    for g in c["stages"]:
        kw = {k: value(v) for k, v in g["given"].items()}
        args = [value(v) for v in g["pos"]]
        try:
            if g["how"] == "str":
                text = text.format(*args, **kw)
            elif g["how"] == "new":
                text = PartialFormatter(ignore_missing=g["ignore"]).format(text, *args, **kw)
            else:
                text = shared[0 if g["ignore"] else 1].format(text, *args, **kw)
        except Exception as e:
            res["err"] = type(e).__name__
            res["why"] = str(e)[:200]
            break
        outs.append(text)
    return res


def clear(name):
    d = os.path.join(HERE, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def do_eagle(c):
    from virgo.sims.eagle import eagle_filename
    do_eagle.n = getattr(do_eagle, "n", 0) + 1
    d = clear("eagle%d" % do_eagle.n)
    dirs = {"eagle_subfind_tab": "groups", "eagle_subfind_snip_tab": "groups_snip", "group_tab": "groups",
            "group_snip_tab": "groups_snip", "eagle_subfind_particles": "particledata",
            "eagle_subfind_snip_particles": "particledata_snip", "snapshot": "snapshot", "snipshot": "snipshot"}
    for f in c["files"]:
        p = "%s/%s/%s_%03d_%s" % (d, f["base"], dirs[f["name"]], f["isnap"], f["z"])
        os.makedirs(p, exist_ok=True)
        open("%s/%s_%03d_%s.%d.hdf5" % (p, f["name"], f["isnap"], f["z"], f["i"]), "w").close()
    outs = []
    os.chdir(d)
    try:
        for q in c["queries"]:
            base = q["base"] if c["relative"] else os.path.join(d, q["base"])
            try:
                r = eagle_filename(base, q["name"], q["isnap"], q["i"])
                outs.append(r if c["relative"] else os.path.relpath(r, d) if r.startswith(d + "/") else "not below " + r)
            except (OSError, KeyError):
                outs.append("")
    finally:
        os.chdir(HERE)
        shutil.rmtree(d)
    return {"outs": outs}


def do_cosma(c):
    from virgo.formats.subfind_lgadget2 import cosma_file_path
    return {"out": cosma_file_path(c["type"], c["isnap"], c["i"])}


def do_opens(c):
    """names of the files which a snapshot opens, without opening them"""
    import virgo.formats.subfind_lgadget2 as m
    seen = []
    real = m.SnapshotFile
    m.SnapshotFile = lambda fname, *a, **k: seen.append(fname)
    try:
        s = m.Snapshot.__new__(m.Snapshot)
        s.basedir, s.basename, s.isnap = ("COSMA" if c["cosma"] else c["prefix"]), c["name"], c["isnap"]
        s.open_file(c["isnap"], c["i"])
    finally:
        m.SnapshotFile = real
    return {"out": seen[0] if len(seen) == 1 else repr(seen)}


def do_multi(c):
    import h5py
    from virgo.util.read_multi import read_multi
    from virgo.util.read_binary import BinaryFile
    d = clear("multi")
    fmt = os.path.join(d, c["fmt"])
    for i, dsets in c["files"].items():
        name = fmt % {"i": int(i)}
        if c["kind"] == "binary":
            with open(name, "wb") as f:
                for k in sorted(dsets):
                    a = np.asarray(dsets[k]["e"], dtype=c["dtype"])
                    f.write(a.tobytes())
                f.write(b"end")
            continue
        with h5py.File(name, "w") as f:
            for k, x in dsets.items():
                f[k] = np.asarray(x["e"], dtype=c["dtype"]).reshape(x["d"])

    class Bin(BinaryFile):
        """arrays of given shapes, by file"""
        def __init__(self, fname, shapes, order="<", prefix=""):
            BinaryFile.__init__(self, fname)
            for k in sorted(shapes[fname]):
                self.add_dataset(prefix + k, np.dtype(order + c["dtype"]), tuple(shapes[fname][k]["d"]))
    kw, args = {}, []
    if c["kind"] == "binary":
        shapes = {fmt % {"i": int(i)}: x for i, x in c["files"].items()}
        kw["file_type"] = Bin
        if c["pass"] == "args":
            args = [Bin, c["axis"], shapes]
            kw = {}
        else:
            kw["shapes"] = shapes
    elif c["pass"] == "class":
        kw.update(file_type=h5py.File, mode="r")
    elif c["pass"] == "args":
        args = [h5py.File, c["axis"], "r"]
    if not args and (c["axis"] or c["pass"] == "axis"):
        kw["axis"] = c["axis"]
    idx = {"list": list, "tuple": tuple, "array": np.asarray, "gen": lambda x: (i for i in x)}[c["form"]](c["idx"])
    r = read_multi(fmt, idx, tuple(c["datasets"]) if c["form"] == "tuple" else c["datasets"], *args, **kw)
    if list(r) != list(dict.fromkeys(c["datasets"])):
        raise RuntimeError("order of the datasets")
    return {"got": {k: {"d": list(v.shape), "e": [int(x) for x in v.ravel()]} for k, v in r.items()}}


def main():
    calls = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        for c in calls:
            e = dict(c)
            try:
                e.update(globals()["do_" + c["op"]](c))
            except Exception as ex:
                e["err"] = type(ex).__name__
                e["why"] = str(ex)[:200]
            out.write(json.dumps(e) + "\n")
            out.flush()
        out.write('{"op": "end"}\n')


if __name__ == "__main__":
    main()
