"""
Runs histories of binary files: bin_driver.py PROGRAMS.json OUT.ndjson
The working directory is scratch; files are created in it.
"""
import gc
import hashlib
import json
import os
import sys

import numpy as np
from virgo.util import read_binary as rb

HERE = os.getcwd()


def tname(t):
    return np.dtype(t).str


def tinfo(t, shape):
    t = np.dtype(t)
    nc = 2 if t.kind == "c" else 1
    return {"w": t.itemsize // nc, "nc": nc, "swap": t.byteorder != "|",
            "mem": ">" if t.byteorder == ">" else "<", "type": t.str, "shape": list(shape)}


def els(a):
    """elements in C order, each as its bytes in little endian order"""
    a = np.asarray(a)
    n = a.dtype.itemsize
    if a.dtype.byteorder == ">":
        a = a.byteswap().view(a.dtype.newbyteorder("<"))
    raw = np.ascontiguousarray(a).tobytes()
    return [list(raw[i * n:(i + 1) * n]) for i in range(a.size)]


def maps():
    n = set()
    with open("/proc/self/maps") as f:
        for line in f:
            i = line.find("/")
            if i > 0 and line[i:].startswith(HERE):
                n.add(line.split(None, 1)[0])
    return len(n)


def key_of(k):
    if k == "...":
        return Ellipsis
    if k == "()":
        return ()
    out = []
    for x in k:
        if x == "...":
            out.append(Ellipsis)
        elif isinstance(x, dict):
            out.append(slice(*x["slice"]))
        else:
            out.append(x)      # an integer, or a list of integers
    return tuple(out) if len(out) != 1 else out[0]


class Runner:
    def __init__(self):
        self.o = {}
        self.broken = set()

    def op_begin(self, s):
        self.o.clear()
        gc.collect()
        os.chdir(HERE)
        for top, _, names in os.walk(HERE):
            for n in names:
                os.unlink(os.path.join(top, n))
        for name, b in s["files"].items():
            os.makedirs(os.path.dirname(os.path.abspath(name)), exist_ok=True)
            with open(name, "wb") as f:
                f.write(bytes(b))
        if s.get("max_files"):
            rb.BinaryDataset.max_files = s["max_files"]
        self.max = rb.BinaryDataset.max_files
        return {}

    def op_put(self, s):
        path = os.path.join(HERE, s["file"])
        if s.get("replace"):
            with open(path + ".tmp", "wb") as f:
                f.write(bytes(s["bytes"]))
            os.replace(path + ".tmp", path)
        else:
            with open(path, "r+b") as f:
                f.write(bytes(s["bytes"]))
        return {}

    def op_chdir(self, s):
        os.chdir(os.path.join(HERE, s["to"]))
        return {}

    def op_open(self, s):
        self.o[s["obj"]] = rb.BinaryFile(s.get("name") or os.path.join(HERE, s["file"]))
        return {}

    def op_add(self, s):
        f = self.o[s["obj"]]
        add = f.add_attribute if s["attr"] else f.add_dataset
        p = "/".join(s["path"])
        if s.get("slash"):
            p = "/" + p
        add(p, np.dtype(s["t"]), tuple(s["shape"]))
        return {}

    def op_skip(self, s):
        self.o[s["obj"]].skip_bytes(s["n"])
        return {}

    def op_ras(self, s):
        a = self.o[s["obj"]].read_and_skip(np.dtype(s["t"]), tuple(s["shape"]))
        return {"els": els(a), "rshape": list(np.shape(a)), "rtype": np.asarray(a).dtype.str}

    def op_endian(self, s):
        self.o[s["obj"]].set_endian(s["to"])
        return {}

    def op_byteswap(self, s):
        self.o[s["obj"]].enable_byteswap(s["to"])
        return {}

    def op_toggle(self, s):
        self.o[s["obj"]].toggle_byteswap()
        return {}

    def op_start(self, s):
        self.o[s["obj"]].start_fortran_record(**({"auto_byteswap": True} if s["auto"] else {}))
        return {}

    def op_stop(self, s):
        self.o[s["obj"]].end_fortran_record()
        return {}

    def op_get(self, s):
        f, p = self.o[s["obj"]], s["path"]
        how = s["how"]
        if s["attr"]:
            if len(p) == 1:
                a = f.attrs[p[0]]
            elif how == "walk":
                g = f
                for x in p[:-1]:
                    g = g[x]
                a = g.attrs[p[-1]]
            else:
                a = f["/".join(p[:-1])].attrs[p[-1]]
        else:
            if how == "walk":
                d = f
                for x in p:
                    d = d[x]
            else:
                d = f["/".join(p)]
            if how == "asarray":
                a = np.asarray(d)
            elif how == "value":
                a = d.value
            elif how == "iter":
                a = list(d)
                assert len(d) == len(a) == d.len()
                a = np.asarray(a) if a else d[...]
                a = a.astype(d.dtype)
            else:
                a = d[key_of(s["key"])]
                a2 = d[key_of(s["key"])]
                assert els(a) == els(a2)
                if isinstance(a2, np.ndarray) and a2.size:
                    a2[...] = a2.flat[0]     # what was returned is a copy
        r = np.asarray(a)
        t = r.dtype
        if isinstance(a, np.generic) and "type" in s and s["type"][0] in "<>" and t.byteorder != "|":
            t = t.newbyteorder(s["type"][0])   # scalars have no byte order
        return {"els": els(r), "rshape": list(r.shape), "rtype": t.str}

    def op_keys(self, s):
        f = self.o[s["obj"]]
        g = f["/".join(s["path"])] if s["path"] else f
        names = list(g)
        assert len(g) == len(names) and all(n in g for n in names) and "nonesuch" not in g
        at = list(g.attrs)
        assert len(at) == len(g.attrs)
        return {"names": names, "attrs": at}

    def op_used(self, s):
        return {"res": bool(self.o[s["obj"]].all_bytes_used())}

    def op_hash(self, s):
        f = self.o[s["obj"]]
        return {"token": f.hash() if s["kind"] == "sha1" else f.hash(s["kind"])}

    def op_rawhash(self, s):
        with open(os.path.join(HERE, s["file"]), "rb") as f:
            return {"token": hashlib.new(s["kind"], f.read()).hexdigest()}

    def op_wb(self, s):
        path = os.path.join(HERE, s["file"])
        s["exists"] = os.path.exists(path)
        s["bytes"] = s["before"] = []
        if s["exists"]:
            with open(path, "rb") as f:
                s["before"] = list(f.read())
        kw = {"endian": s["order"]} if s["order"] else {}
        try:
            self.o[s["obj"]].write_binary(path, **kw)
        finally:
            if os.path.exists(path):
                with open(path, "rb") as f:
                    s["bytes"] = list(f.read())
        return {}

    def op_h5(self, s):
        import h5py
        path = os.path.join(HERE, "out.hdf5")
        if os.path.exists(path):
            os.unlink(path)
        kw = {} if s.get("gzip") is None else {"gzip": s["gzip"]}
        if s.get("into"):
            with h5py.File(path, "w") as h:
                self.o[s["obj"]].write_hdf5(h5group=h.create_group("top"), **kw)
        else:
            self.o[s["obj"]].write_hdf5(path, **kw)
        types = s["types"]
        items, groups = [], []
        with h5py.File(path, "r") as h:
            root = h["top"] if s.get("into") else h

            def attrs(o, p):
                for n, v in o.attrs.items():
                    items.append(self.h5item(p + [n], True, v, types))

            def walk(g, p):
                attrs(g, p)
                for n in g:
                    if isinstance(g[n], h5py.Group):
                        groups.append(p + [n])
                        walk(g[n], p + [n])
                    else:
                        items.append(self.h5item(p + [n], False, g[n][...], types))
                        attrs(g[n], p + [n])
            walk(root, [])
        return {"items": items, "groups": groups}

    def h5item(self, p, attr, v, types):
        want = types.get("/".join(p) + ("@" if attr else ""), "")
        a = np.asarray(v)
        if a.dtype.kind in "SUO" and want:
            a = a.astype(want)
        # byte order in the file is not part of the type
        k = lambda t: t[1:] if t[:1] in "<>=|" else t
        return {"path": p, "attr": attr, "shape": list(a.shape), "els": els(a),
                "type": k(a.dtype.str), "want": k(want)}

    def op_close(self, s):
        o = self.o[s["obj"]]
        if s.get("with"):
            with o:
                pass
        elif s.get("path"):
            o["/".join(s["path"])].close()
        else:
            o.close()
        return {}

    def op_drop(self, s):
        del self.o[s["obj"]]
        return {}

    def run(self, s):
        ev = dict(s)
        if s.get("obj") in self.broken:
            return None
        if s["op"] in ("add", "ras"):
            ev.update(tinfo(s["t"], s["shape"]))
        if s["op"] == "get" and "t" in s:
            ev["type"] = tname(s["t"])
        if s["op"] == "begin":
            self.broken.clear()
        try:
            ev.update(getattr(self, "op_" + s["op"])(ev))
        except Exception as x:  # noqa
            ev["err"] = type(x).__name__ + ": " + str(x)[:200]
            if s["op"] in ("start", "stop"):
                self.broken.add(s["obj"])
        if s["op"] in ("get", "drop", "close", "ras"):
            ev["maps"] = maps()
            ev["max"] = self.max
        for k in ("t", "key", "how", "types", "slash", "with", "gzip", "name", "max_files"):
            ev.pop(k, None)
        if ev["op"] == "close":
            ev.pop("path", None)
        return ev


with open(sys.argv[1]) as f:
    progs = json.load(f)
r = Runner()
with open(sys.argv[2], "w") as out:
    for p in progs:
        for s in p:
            ev = r.run(s)
            if ev is not None:
                out.write(json.dumps(ev) + "\n")
        out.flush()
    out.write(json.dumps({"op": "end"}) + "\n")
