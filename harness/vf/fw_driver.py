"""
Runs programs of calls of the Fortran HDF5 wrapper and records what they did:
fw_driver.py PROGRAMS OUT BINARY, in a scratch directory.
"""
import json
import os
import re
import subprocess
import sys

import h5py
import numpy as np

CHUNK = 25
LONG = "a_directory_with_a_long_name_" * 7
CORRUPT = -999999


def opt(present, values):
    return ["-1"] if not present else [str(len(values))] + [str(x) for x in values]


def flag(x):
    return {None: "-1", "absent": "-1", "false": "0", True: "1"}[x]


def filename(f, sp, k):
    name = "p%d_%s.h5" % (k, f)
    return {0: name, 1: "./" + name, 2: os.path.join(os.getcwd(), name), 3: LONG + "/../" + name}[sp]


def item(c, attr=False):
    path = "/".join(c["name"])
    if not path:
        return "/"
    return ("/" if c.get("ns") or (attr and len(c["name"]) == 1) else "") + path


def shape(c):
    return [str(c["slen"]), "1" if c.get("strided") else "0", str(len(c["dims"]))] + [str(x) for x in c["dims"]]


WHAT = {"datasets": 0, "groups": 1, "attributes": 2}


def lines(c, k):
    op = c["op"]
    if op == "create":
        return [op, filename(c["f"], c.get("sp", 0), k)]
    if op == "open":
        return [op, filename(c["f"], c.get("sp", 0), k), "1" if c["ro"] else "0" if c.get("spell") else "-1"]
    if op in ("close", "fileid"):
        return [op, str(c["h"])]
    if op == "write":
        return [op, str(c["h"]), item(c), c["t"]] + shape(c) + [str(x) for x in c["vals"]] + \
            [str(c["gzip"]), flag(True if c["szip"] else c.get("szipspell")), flag(True if c["ext"] else c.get("extspell")),
             flag(True if c["over"] else c.get("overspell"))] + \
            opt(c["hs"], c["start"]) + opt(c["hc"], c["count"]) + opt(c["hi"], c["init"]) + opt(c["hk"], c["chunk"])
    if op == "read":
        return [op, str(c["h"]), item(c), c["t"]] + shape(c) + opt(c["hs"], c["start"]) + opt(c["hc"], c["count"])
    if op == "wattr":
        return [op, str(c["h"]), item(c, True), c["t"]] + shape(c) + [str(x) for x in c["vals"]] + [flag(True if c["over"] else c.get("overspell"))]
    if op == "rattr":
        return [op, str(c["h"]), item(c, True), c["t"]] + shape(c)
    if op in ("dims", "type"):
        return [op, str(c["h"]), item(c, True)]
    if op == "group":
        return [op, str(c["h"]), item(c) + ("/" if c.get("tail") else "")]
    if op == "list":
        return [op, str(c["h"]), item(c), str(WHAT[c["what"]] + (10 if c["counted"] else 0))]
    if op in ("quiet", "talk"):
        return [op, str(c["v"])]
    raise ValueError(op)


def numbers(xs):
    return [int(x) for x in xs]


def result(c, toks):
    op = c["op"]
    e = {}
    try:
        if op == "type":
            e["class"], e["size"] = toks[0].strip(), int(toks[1])
        elif op == "list":
            e["n"], e["names"] = int(toks[0]), [x.strip() for x in toks[1:]]
        else:
            e["res"] = numbers(toks)
            if op == "dims":
                e["res"] = e["res"][:1 + max(e["res"][0], 0)]
    except (ValueError, IndexError):
        e = {"res": [CORRUPT], "class": "?", "size": -1, "n": -1, "names": []}
    return e


def decode(a):
    a = np.asarray(a)
    k = a.dtype
    if k.kind == "S":
        out = []
        for x in a.ravel():
            x = bytes(x).rstrip(b"\0 ")
            out.append(0 if not x else int(x) if re.fullmatch(rb"[0-9]{1,6}", x) else CORRUPT)
        return "s", k.itemsize, out
    t = {("i", 4): "i4", ("i", 8): "i8", ("f", 4): "r4", ("f", 8): "r8"}.get((k.kind, k.itemsize), "other")
    a = a.ravel()
    with np.errstate(all="ignore"):
        if t == "i4":
            v, back = a // 3, lambda v: v * 3
        elif t == "i8":
            v, back = a // 8589934593, lambda v: v * 8589934593
        elif t in ("r4", "r8"):
            v = np.rint(np.where(np.abs(a) < 1e6, a * a.dtype.type(3), 0)).astype("i8")
            back = lambda v: (v.astype(a.dtype) / a.dtype.type(3))
        else:
            return t, 0, [CORRUPT] * a.size
        v = v.astype("i8")
        out = np.where(back(v.astype(a.dtype if t[0] == "i" else "i8")) == a, v, CORRUPT)
    return t, 0, [int(x) for x in out]


def parts(name):
    return [x for x in name.split("/") if x]


def contents(fname, f):
    e = {"f": f, "exists": os.path.exists(fname), "groups": [], "dsets": [], "attrs": []}
    if not e["exists"]:
        return e
    with h5py.File(fname, "r") as h:
        def attrs(path, obj):
            for n in obj.attrs:
                a = obj.attrs.get_id(n)
                arr = np.zeros(a.shape, dtype=a.dtype)
                if arr.size:
                    a.read(arr)
                t, slen, vals = decode(arr)
                e["attrs"].append({"loc": path, "name": n, "t": t, "slen": slen, "dims": list(reversed(a.shape)), "vals": vals})

        def walk(path, g):
            e["groups"].append(path)
            attrs(path, g)
            for n in g:
                o = g[n]
                p = path + [n]
                if isinstance(o, h5py.Group):
                    walk(p, o)
                    continue
                t, slen, vals = decode(o[...])
                dims = list(reversed(o.shape))
                ext = bool(dims) and all(x is None for x in o.maxshape)
                e["dsets"].append({"path": p, "t": t, "slen": slen, "dims": dims if ext or o.maxshape == o.shape else [-1],
                                   "ext": ext, "gz": int(o.compression_opts or 0) if o.compression == "gzip" else 0,
                                   "sh": bool(o.shuffle), "chunk": list(reversed(o.chunks)) if o.chunks else [], "vals": vals})
                attrs(p, o)
        walk([], h)
    return e


def run(binary, batch):
    """Events of the programs carried out: the last one may have stopped. Also what was written to stderr."""
    with open("calls", "w") as f:
        for k, prog in batch:
            for c in prog[1:]:
                f.write("\n".join(lines(c, k)) + "\n")
        f.write("stop\n")
    try:
        p = subprocess.run([binary, "calls", "out"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, stdin=subprocess.DEVNULL)
        rc, text, err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, text, err = -99, "", ""
    with open("out") as f:
        got = f.read().split("\n")
    pos = 0
    res = []
    for k, prog in batch:
        evs = [dict(prog[0])]
        ended = False
        for c in prog[1:]:
            if pos < len(got) and got[pos] == "op":
                pos += 1
                toks = []
                while pos < len(got) and got[pos] not in ("done", "op", "end"):
                    toks.append(got[pos])
                    pos += 1
                if pos < len(got) and got[pos] == "done":
                    pos += 1
                    e = dict(c, stop=False, crash=False)
                    e.update(result(c, toks))
                    evs.append(e)
                    continue
            evs.append(dict(c, stop="***Abort HDF5" in text, crash="***Abort HDF5" not in text))
            ended = True
            break
        files = sorted({c["f"] for c in prog[1:] if "f" in c})
        evs.append({"op": "final", "files": [contents_safe(filename(f, 0, k), f) for f in files]})
        res.append(evs)
        if ended:
            break
    if len(res) == len(batch) and not ended and (rc != 0 or got[pos:pos + 1] != ["end"]):
        res[-1].append({"op": "write", "crash": True, "stop": False, "h": -1, "name": []})
    noise = "HDF5-DIAG" in err or "HDF5: " in err
    return res, noise


def contents_safe(fname, f):
    try:
        return contents(fname, f)
    except Exception as ex:       # not a readable HDF5 file
        return {"f": f, "exists": True, "groups": [], "dsets": [], "attrs": [], "err": str(ex)}


def main():
    progs = json.load(open(sys.argv[1]))
    binary = sys.argv[3]
    os.makedirs(LONG, exist_ok=True)
    with open(sys.argv[2], "w") as out:
        i = 0
        while i < len(progs):
            batch = []
            for k in range(i, min(i + CHUNK, len(progs))):
                alone = progs[k][0].get("alone", False)
                if alone and batch:
                    break
                batch.append((k, progs[k]))
                if alone:
                    break
            for k, _ in batch:
                for f in os.listdir("."):
                    if f.startswith("p%d_" % k):
                        os.remove(f)
            res, noise = run(binary, batch)
            res[-1].append({"op": "noise", "noise": noise, "suppress": not batch[0][1][0].get("loud", False),
                            "fails": batch[0][1][0].get("fails", False)})
            for j, evs in enumerate(res):
                evs[0]["first"] = i
                for e in evs:
                    out.write(json.dumps(e) + "\n")
                for f in os.listdir("."):
                    if f.startswith("p%d_" % (i + j)):
                        os.remove(f)
            out.flush()
            i += len(res)
        out.write(json.dumps({"op": "end"}) + "\n")


main()
