"""
Runs calls of the serial utilities: util_driver.py CALLS.json OUT.ndjson
Each call is logged with its arguments and results, as small integers.
"""
import json
import sys
import fractions

import numpy as np
from vf import codec as cd


def frac(v):
    v = float(v)
    if v != v or abs(v) > 1e9:
        return [0, 0]
    f = fractions.Fraction(v).limit_denominator(6000)
    if abs(float(f) - v) > 1e-6 * max(1.0, abs(v)):
        return [cd.CORRUPT, 1]
    return [f.numerator, f.denominator]


def enc(vals, codec, order="<"):
    a = cd.encode(vals, codec)
    return a.astype(a.dtype.newbyteorder(order)) if order == ">" else a


def do_match(c):
    from virgo.util.match import match
    a = enc(c["a"], c["codec"], c.get("ordera", "<"))
    b = enc(c["b"], c["codec"], c.get("orderb", "<"))
    kw = {}
    if c.get("sorted"):
        kw["arr2_sorted"] = True
    if c.get("index"):
        kw["arr2_index"] = np.argsort(b, kind=c["index"])
    a0, b0 = a.copy(), b.copy()
    r = match(a, b, **kw)
    return {"res": [int(x) for x in r], "whole": isinstance(r, np.ndarray) and r.dtype.kind == "i" and r.shape == a.shape, "same": bool(np.array_equal(a, a0) and np.array_equal(b, b0))}


def rows_of(a):
    a = np.asarray(a)
    return a.reshape((a.shape[0], -1)) if a.shape[0] else a.reshape((0, 1))


def do_assign(c):
    from virgo.util.ranges import assign_ranges
    sh = tuple(c["rs"])
    arr = np.asarray(c["arr0"], dtype=c["dtype"]).reshape((len(c["arr0"]),) + (1,) * len(sh)) * np.ones(sh, dtype=c["dtype"])
    val = np.asarray(c["val"], dtype=c["vdtype"]).reshape((len(c["val"]),) + (1,) * len(sh)) * np.ones(sh, dtype=c["vdtype"])
    off = np.asarray(c["off"], dtype=c["itype"])
    ln = np.asarray(c["len"], dtype=c["itype"])
    if c.get("lists"):
        off, ln = list(c["off"]), list(c["len"])
    out = {"arr": c["arr0"]}
    try:
        assign_ranges(arr, off, ln, val)
    except ValueError:
        out["err"] = "ValueError"
    r = rows_of(arr)
    out["res"] = [int(x[0]) if np.all(x == x[0]) else cd.CORRUPT for x in r]
    return out


def do_sum(c):
    from virgo.util.ranges import sum_ranges
    n, nc = len(c["arr"]), c["ncol"]
    shape = (n,) + tuple(c["rs"])
    arr = np.asarray(c["arr"], dtype=c["dtype"]).reshape(shape) if n else np.zeros(shape, dtype=c["dtype"])
    kw = {}
    if "weight" in c:
        kw["weight"] = np.asarray(c["weight"], dtype=c["wdtype"])
    if c.get("norm"):
        kw["normalize"] = True
    if c.get("as"):
        kw["dtype"] = np.dtype(c["as"])
    off = np.asarray(c["off"], dtype=c["itype"])
    ln = np.asarray(c["len"], dtype=c["itype"])
    a0 = arr.copy()
    w0 = kw["weight"].copy() if "weight" in kw else None
    r = np.asarray(sum_ranges(arr, off, ln, **kw))
    same = bool(np.array_equal(a0, arr)) and (w0 is None or np.array_equal(w0, kw["weight"]))
    want = np.dtype(c.get("as") or c["dtype"])
    res = r.reshape((r.shape[0], -1)) if r.shape[0] else np.zeros((0, nc))
    return {"res": [[frac(v) for v in row] for row in res], "same": bool(same), "restype": str(r.dtype),
            "wanttype": str(want), "shape_ok": list(r.shape[1:]) == c["rs"]}


def octal(k, bits):
    k = int(k)
    if k < 0 or k >= 8 ** bits:
        return [9] * bits
    return [(k >> (3 * i)) & 7 for i in range(bits - 1, -1, -1)]


def unoctal(d):
    k = 0
    for x in d:
        k = k * 8 + x
    return k


def do_keys(c):
    from virgo.util import peano
    cells = np.asarray(c["cells"], dtype=c.get("itype", "i4")).reshape((-1, 3))
    x, y, z = cells[:, 0], cells[:, 1], cells[:, 2]
    how = c["how"]
    if how == "full":
        k = peano.peano_hilbert_keys(x, y, z, c["bits"])
    elif how == "block":
        k = peano.peano_hilbert_keys_block(x, y, z, c["bits"])
    elif how == "list":
        k = peano.peano_hilbert_keys_block(list(x), list(y), list(z), c["bits"])
    else:
        k = [peano.peano_hilbert_keys_block(int(a), int(b), int(d), c["bits"]) for a, b, d in cells]
    return {"keys": [octal(v, c["bits"]) for v in k]}


def do_inverse(c):
    from virgo.util import peano
    k = np.asarray([unoctal(d) for d in c["keys"]], dtype=np.int64)
    how = c["how"]
    if how == "full":
        r = peano.peano_hilbert_key_inverses(k, c["bits"])
        r = list(zip(*r))
    elif how == "block":
        r = list(zip(*peano.peano_hilbert_key_inverses_block(k, c["bits"])))
    else:
        r = [peano.peano_hilbert_key_inverses_block(int(v), c["bits"]) for v in k]
    return {"cells": [[int(a) for a in t] for t in r]}


def do_coords(c):
    from virgo.util import peano
    m = np.asarray(c["m"], dtype="f8").reshape((-1, 3))
    pos = (m * (c["box"] / float(2 ** (c["bits"] + 2)))).astype(c["dtype"])
    k = peano.peano_hilbert_keys_from_coords(pos, c["box"], c["bits"])
    return {"keys": [octal(v, c["bits"]) for v in k]}


def do_level(c):
    from virgo.util import peano
    b = c["bits"]
    g = np.arange(2 ** b)
    x, y, z = [q.reshape(-1) for q in np.meshgrid(g, g, g, indexing="ij")]
    k = peano.peano_hilbert_keys(x, y, z, b)
    inv = peano.peano_hilbert_key_inverses(np.arange(8 ** b, dtype=np.int64), b)
    return {"cells": [[int(p), int(q), int(r)] for p, q, r in zip(x, y, z)],
            "keys": [octal(v, b) for v in k],
            "curve": [[int(p), int(q), int(r)] for p, q, r in zip(*inv)]}


with open(sys.argv[1]) as f:
    calls = json.load(f)
with open(sys.argv[2], "w") as out:
    for c in calls:
        ev = dict(c)
        try:
            ev.update(globals()["do_" + c["op"]](c))
        except Exception as e:   # noqa
            ev["err"] = type(e).__name__ + ": " + str(e)[:200]
            if c["op"] == "assign":
                ev["res"] = ev["arr"] = c["arr0"]
        out.write(json.dumps(ev) + "\n")
    out.write(json.dumps({"op": "end"}) + "\n")
