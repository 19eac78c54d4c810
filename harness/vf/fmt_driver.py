"""
Opens files with the readers of the file formats: fmt_driver.py CALLS.json OUT.ndjson
The working directory is scratch.
"""
import importlib
import json
import os
import sys
import warnings

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

from virgo.util.exceptions import SanityCheckFailedException  # noqa: E402


def els(a):
    """elements in C order, each as its bytes in little endian order"""
    a = np.asarray(a)
    n = a.dtype.itemsize
    if a.dtype.byteorder == ">":
        a = a.byteswap().view(a.dtype.newbyteorder("<"))
    raw = np.ascontiguousarray(a).tobytes()
    return [list(raw[i * n:(i + 1) * n]) for i in range(a.size)]


def kw_of(kw):
    out = dict(kw)
    if "extra" in out:
        seq = list if out.pop("extra_list", False) else tuple
        out["extra"] = seq((n, t, tuple(s), tuple(p)) for n, t, s, p in out["extra"])
    return out


def reader(name):
    mod, cls = name.rsplit(".", 1)
    return getattr(importlib.import_module("virgo." + mod), cls)


def column(name, attr, a):
    a = np.asarray(a)
    return {"n": name, "a": attr, "t": a.dtype.kind + str(a.dtype.itemsize), "d": list(a.shape), "e": els(a)}


def show(f):
    """Everything a file shows: names, types, shapes and elements"""
    got = []

    def one(name, attr, a):
        a = np.asarray(a)
        if a.dtype.names:
            for g in a.dtype.names:
                got.append(column(name + "." + g, attr, a[g]))
        else:
            got.append(column(name, attr, a))

    def walk(g, prefix):
        for k in g.attrs.keys():
            one(prefix + k, True, g.attrs[k])
        for k in g.keys():
            x = g[k]
            if hasattr(x, "keys"):
                walk(x, prefix + k + "/")
            else:
                one(prefix + k, False, x[...])

    walk(f, "")
    return got


def op_file(s):
    with open("file.dat", "wb") as f:
        f.write(bytes(s["bytes"]))
    out = {"sanity": "none"}
    f = reader(s["cls"])(os.path.join(os.getcwd(), "file.dat"), **kw_of(s["kw"]))
    if s["damage"] == "":
        out["got"] = show(f)
    if s["sane"] and hasattr(f, "sanity_check"):
        try:
            f.sanity_check()
            out["sanity"] = "ok"
        except SanityCheckFailedException:
            out["sanity"] = "reported"
        except Exception as ex:
            # some checks use the base class to report; any other failure is one of the check itself
            if type(ex) in (Exception, IOError, OSError):
                out["sanity"] = "reported"
            else:
                out["sanity"] = "failed"
            out["why"] = repr(ex)
    f.close() if hasattr(f, "close") else None
    return out


OPS = {"file": op_file}


def main():
    calls = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        for s in calls:
            e = dict(s)
            try:
                e.update(OPS[s["op"]](s))
            except Exception as ex:
                e["err"] = type(ex).__name__
                e["why"] = str(ex)[:200]
            out.write(json.dumps(e) + "\n")
            out.flush()
        out.write('{"op": "end"}\n')


if __name__ == "__main__":
    main()
