"""
Executes programs of collective HDF5 operations on the real code, under mpirun.

usage: h5_driver.py PROGRAMS.json OUTDIR

Events carry what each rank was given and got; after an operation which
writes, the leading rank reads every file of the program back with plain
serial h5py and adds the contents ("dump").
"""
import json
import os
import shutil
import sys
import traceback

import numpy as np
from mpi4py import MPI
import h5py
from vf import codec as cd

WORLD = MPI.COMM_WORLD.Dup()


def tag(dt):
    dt = np.dtype(dt)
    o = "-" if dt.itemsize == 1 else ("<" if dt.newbyteorder("=").str[0] == dt.str[0] else ">")
    return "%s%d" % (dt.kind, dt.itemsize), o


def attr_list(attrs):
    if attrs is None:
        return [["<none>", ""]]
    out = []
    for k in sorted(attrs):
        v = attrs[k]
        a = np.asarray(v)
        out.append([k, "%s %s %s" % (a.dtype.kind, list(a.shape), a.tolist())])
    return out


class Program:
    def __init__(self, prog, comm, log, d):
        self.p, self.comm, self.log, self.d = prog, comm, log, d
        self.rank, self.size = comm.Get_rank(), comm.Get_size()
        self.codecs = dict(prog.get("codecs", {}))
        self.over = {}
        self.keys = []

    def path(self, key):
        return os.path.join(self.d, key + ".hdf5")

    def codec(self, name, key=None):
        name = name.split("/")[-1]
        return self.over.get((key, name), self.codecs.get(name, "raw"))

    def array(self, rows, name, rs, order="<", key=None):
        a = cd.encode(rows, self.codec(name, key), tuple(rs))
        if order == ">":
            a = a.astype(a.dtype.newbyteorder(">"))
        return a

    def view(self, a, name, key=None):
        if a is None:
            return {"none": True}
        a0 = np.asarray(a)
        k, o = tag(a0.dtype)
        v = {"none": False, "k": k, "o": o, "rs": list(a0.shape[1:]), "rows": cd.decode(a0, self.codec(name, key))}
        if hasattr(a, "attrs"):
            v["attrs"] = attr_list(a.attrs)
        return v

    def dump(self):
        out = {}
        for key in self.keys:
            if not os.path.exists(self.path(key)):
                continue
            es = []
            with h5py.File(self.path(key), "r") as f:
                def visit(name, obj):
                    p = "/" + name if name else "/"
                    if isinstance(obj, h5py.Dataset):
                        d = self.view(obj[...], name, key)
                        k, o = tag(obj.dtype)
                        es.append({"p": p, "k": k, "o": o, "rs": d["rs"], "rows": d["rows"],
                                   "attrs": attr_list(obj.attrs)})
                    elif len(obj.attrs):
                        es.append({"p": p, "k": "group", "o": "", "rs": [], "rows": [],
                                   "attrs": attr_list(obj.attrs)})
                visit("", f)
                f.visititems(visit)
            es.sort(key=lambda x: x["p"])
            out[key] = es
        return out

    def know(self, *keys):
        for k in keys:
            if k not in self.keys:
                self.keys.append(k)

    # ------------------------------------------------------------------
    def op_make(self, s):
        """fixture, written serially"""
        self.know(s["file"])
        for d in s["dsets"]:
            if "codec" in d:
                self.over[(s["file"], d["p"].split("/")[-1])] = d["codec"]
        if self.rank == 0:
            ds = []
            with h5py.File(self.path(s["file"]), "w") as f:
                for d in s["dsets"]:
                    if d.get("group"):
                        obj = f.require_group(d["p"])
                        e = {"p": d["p"], "k": "group", "o": "", "rs": [], "rows": []}
                    else:
                        a = self.array(d["rows"], d["p"], d.get("rs", ()), d.get("order", "<"), s["file"])
                        obj = f.create_dataset(d["p"], data=a)
                        k, o = tag(a.dtype)
                        e = {"p": d["p"], "k": k, "o": o, "rs": list(d.get("rs", ())), "rows": d["rows"]}
                    at = {}
                    for n, v in d.get("attrs", []):
                        obj.attrs[n] = v
                        at[n] = v
                    e["attrs"] = attr_list(at)
                    if not d.get("group") or at:
                        ds.append(e)
        else:
            ds = None
        self.log.Barrier()
        return {"dsets": ds}, True

    def op_cwrite(self, s):
        from virgo.mpi import parallel_hdf5 as phdf5
        self.know(s["file"])
        part = s["parts"][self.rank]
        rs = s["shapes"][self.rank]
        a = cd.encode(part, s["cods"][self.rank], tuple(rs)) if s.get("cods") else \
            self.array(part, s["name"], rs)
        if s.get("order") == ">":
            a = a.astype(a.dtype.newbyteorder(">"))
        if s.get("layout") == "strided":
            b = np.zeros((2 * a.shape[0] + 1,) + a.shape[1:], dtype=a.dtype)[1::2]
            b[...] = a
            a = b
        before = a.copy()
        kw = {}
        if s.get("buffer"):
            kw["buffer_size"] = s["buffer"]
        for k in ("gzip", "shuffle", "chunk"):
            if s.get(k):
                kw[k] = s[k]
        if s.get("fill"):
            kw["create_dataset"] = False
        if s.get("dcpl"):
            kw["dcpl"] = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
        exist = os.path.exists(self.path(s["file"]))
        self.log.Barrier()
        f = h5py.File(self.path(s["file"]), "r+" if exist else "w", driver="mpio", comm=self.comm)
        g = f.require_group(s["group"]) if s["group"] != "/" else f
        err = None
        try:
            phdf5.collective_write(g, s["name"], a, self.comm, **kw)
        except Exception as ex:
            err = ex
        f.close()
        if err is not None:
            raise err
        k, o = tag(a.dtype)
        assert np.array_equal(before, a)
        return {"kinds": k, "ord": o}, True

    def op_cread(self, s):
        from virgo.mpi import parallel_hdf5 as phdf5
        kw = {"buffer_size": s["buffer"]} if s.get("buffer") else {}
        with h5py.File(self.path(s["file"]), "r", driver="mpio", comm=self.comm) as f:
            p = s["group"] + "/" + s["name"]
            r = phdf5.collective_read(f[p], self.comm, **kw)
        return {"res": self.view(r, s["name"])}, False

    def multi(self, s):
        from virgo.mpi import parallel_hdf5 as phdf5
        kw = {}
        if s.get("comm", "arg") == "arg":
            kw["comm"] = self.comm
        how = s["how"]
        keys = s["set"]
        if how == "list":
            return phdf5.MultiFile([self.path(k) for k in keys], **kw)
        if how == "tuple":
            return phdf5.MultiFile(tuple(self.path(k) for k in keys), **kw)
        prefix = keys[0].rstrip("0123456789")
        fmt = prefix + ("{file_nr}" if s.get("style") == "brace" else "%(file_nr)d")
        if how == "idx":
            kw["file_idx"] = s["idx"]
        elif how == "idxarray":
            kw["file_idx"] = np.asarray(s["idx"])
        elif how == "attr":
            kw["file_nr_attr"] = ("Header", "NumFiles")
        elif how == "dset":
            kw["file_nr_dataset"] = "nfiles"
        self.fmt = fmt
        return phdf5.MultiFile(os.path.join(self.d, fmt + ".hdf5"), **kw)

    def epf_of(self, mf, name, group):
        e = mf.get_elements_per_file(name, group=group) if group != "/" else mf.get_elements_per_file(name)
        return e

    def op_mfread(self, s):
        mf = self.multi(s)
        names = s["names"]
        kw = {}
        if s["group"] != "/":
            kw["group"] = s["group"]
        if s.get("fnr"):
            kw["return_file_nr"] = s["fnr"]
        if s.get("attrs"):
            kw["read_attributes"] = True
        form = s.get("form", "dict")
        arg = names[0] if form == "single" else (tuple(names) if form == "unpack" else list(names))
        if form == "unpack":
            kw["unpack"] = True
        r = mf.read(arg, **kw)
        fr = None
        if s.get("fnr"):
            r, fr = r
        if form == "single":
            r = {names[0]: r}
            fr = None if fr is None else {names[0]: fr}
        elif form == "unpack":
            r = dict(zip(names, r))
            if fr is not None:
                fr = dict(zip(names, fr))
        out = {"res": {n: self.view(r[n], n) for n in names}}
        if s.get("attrs"):
            for n in names:
                v = out["res"][n]
                if not v["none"] and "attrs" not in v:
                    v["attrs"] = [["<lost>", ""]]
        if fr is not None:
            out["fres"] = {n: ([] if fr[n] is None else [int(x) for x in fr[n]]) for n in s["fnr"]}
        out["epf"] = [{"name": n, "n": [[int(k), int(v)] for k, v in sorted(self.epf_of(mf, n, s["group"]).items())]}
                      for n in names]
        return out, False

    def op_mfwrite(self, s):
        mf = self.multi(s)
        epf = dict(self.epf_of(mf, s["ref"], s["group"]))
        how = s.get("scale", 1)
        for k in epf:
            epf[k] = int({1: epf[k], 2: 2 * epf[k], 3: (epf[k] + 1) // 2}[how])
        n = sum(epf.values())
        start = self.log.scan(n) - n
        data, ev, attrs = {}, [], {}
        for d in s["data"]:
            rs = d.get("rs", [])
            w = 1
            for x in rs:
                w *= x
            vals = [d["start"] + d.get("step", 1) * (start * w + i) for i in range(n * w)]
            rows = cd.nest(vals, [n] + rs)
            a = cd.encode(rows, self.codec(d["name"]), tuple(rs))
            data[d["name"]] = a
            k, o = tag(a.dtype)
            at = {q: v for q, v in d.get("attrs", [])}
            if at:
                attrs[d["name"]] = at
            ev.append({"name": d["name"], "k": k, "o": o, "rs": rs, "attrs": attr_list(at), "rows": rows})
        kw = {}
        if s["group"] != "/":
            kw["group"] = s["group"]
        if attrs:
            kw["attrs"] = attrs
        for k in ("gzip", "shuffle", "chunk"):
            if s.get(k):
                kw[k] = s[k]
        out = s["out"]
        self.know(*out)
        if s.get("outhow") == "list":
            fn = [self.path(k) for k in out]
        else:
            prefix = out[0].rstrip("0123456789")
            fn = os.path.join(self.d, prefix + ("{file_nr}" if s.get("style") == "brace" else "%(file_nr)d") + ".hdf5")
        mf.write(data, epf, fn, s["mode"], **kw)
        return {"data": ev, "epf": [[int(k), int(v)] for k, v in sorted(epf.items())]}, True


def main():
    progfile, outdir = sys.argv[1], sys.argv[2]
    with open(progfile) as f:
        progs = json.load(f)
    wrank = WORLD.Get_rank()
    comms = {}
    trace = open(os.path.join(outdir, "trace.%d.ndjson" % wrank), "w") if wrank == 0 else None
    h5py._errors.silence_errors()

    def emit(ev):
        if trace is not None:
            trace.write(json.dumps(ev) + "\n")
            trace.flush()
    for p in progs:
        d = os.path.join(outdir, p["id"])
        if wrank == 0:
            os.makedirs(d)
        WORLD.Barrier()
        comm = WORLD.Dup()
        prog = Program(p, comm, WORLD, d)
        emit({"op": "begin", "prog": p["id"], "np": comm.Get_size()})
        for s in p["steps"]:
            err, out, wrote = "", {}, None
            try:
                out, wrote = getattr(prog, "op_" + s["op"])(s)
            except Exception as ex:   # noqa
                if not s.get("may_raise"):
                    traceback.print_exc()
                    with open(os.path.join(outdir, "error.%d" % wrank), "w") as f:
                        json.dump({"prog": p["id"], "step": s["op"],
                                   "error": type(ex).__name__ + ": " + str(ex)[:500]}, f)
                    sys.stderr.flush()
                    MPI.COMM_WORLD.Abort(3)
                err = type(ex).__name__
            parts = WORLD.gather((out, err))
            if wrank == 0:
                ev = {k: v for k, v in s.items() if k not in ("data",)}
                ev["err"] = [q[1] for q in parts]
                ok = not any(ev["err"])
                o = [q[0] for q in parts]
                if ok:
                    if s["op"] == "make":
                        ev["dsets"] = o[0]["dsets"]
                    elif s["op"] == "cwrite":
                        ev["kinds"] = [q["kinds"] for q in o]
                        ev["ord"] = o[0]["ord"]
                    elif s["op"] == "mfwrite":
                        ev["data"] = [dict({k: v for k, v in x.items() if k != "rows"},
                                           parts=[q["data"][i]["rows"] for q in o])
                                      for i, x in enumerate(o[0]["data"])]
                        ev["epf"] = [q["epf"] for q in o]
                    else:
                        for k in o[0]:
                            ev[k] = [q[k] for q in o]
                elif s["op"] == "cwrite":
                    ev["kinds"] = s.get("cods") or [prog.codec(s["name"])] * len(parts)
                    ev["ord"] = "<"
                if s["op"] in ("make", "cwrite", "mfwrite"):
                    ev["dump"] = prog.dump()
                emit(ev)
            WORLD.Barrier()
        comm.Free()
        if wrank == 0 and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d)
        WORLD.Barrier()
    emit({"op": "end"})
    with open(os.path.join(outdir, "done.%d" % wrank), "w") as f:
        f.write("ok")


main()
