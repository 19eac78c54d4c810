"""
Executes programs over distributed arrays on the real code, under mpirun.

usage: mpi_driver.py PROGRAMS.json OUTDIR [--jitter SEED]

Every rank keeps a heap of named local arrays.  After each step the arrays
the step created or was given are gathered (on a communicator of the
driver's own) and the leading rank appends one event to
OUTDIR/trace.<rank>.ndjson.  A step may raise ValueError etc.: the event
then says so, per rank.
"""
import json
import os
import random
import sys
import time
import traceback

import numpy as np
from mpi4py import MPI
from vf import codec as cd

WORLD = MPI.COMM_WORLD.Dup()
JIT = None


class JitterComm(MPI.Intracomm):
    """Delays the calls of a rank at random: other schedules, same meaning."""


def _jittered(name):
    base = getattr(MPI.Intracomm, name)

    def f(self, *args, **kwargs):
        if JIT is not None and JIT.random() < 0.25:
            time.sleep(JIT.random() * 0.002)
        return base(self, *args, **kwargs)
    f.__name__ = name
    return f


for _n in ("Sendrecv", "sendrecv", "Isend", "Irecv", "Alltoall", "Allgather", "allgather",
           "allreduce", "Allreduce", "scan", "Split", "Send", "Recv", "gather", "Gatherv",
           "Allgatherv", "bcast", "Bcast"):
    if hasattr(MPI.Intracomm, _n):
        setattr(JitterComm, _n, _jittered(_n))


class Slot:
    """One named array on this rank: the array and how to decode it."""

    big = False   # deliberately not in native byte order

    def __init__(self, arr, codec="raw", units=""):
        self.arr, self.codec, self.units = arr, codec, units


def as_unyt(a, units):
    import unyt
    return unyt.unyt_array(a, units)


class Program:
    def __init__(self, prog, comm, log, arg_comm):
        self.p = prog
        self.comm = comm            # communicator handed to the code
        self.arg_comm = arg_comm    # None: the code chooses COMM_WORLD itself
        self.log = log              # driver's communicator
        self.heap = {}
        self.rank = comm.Get_rank()
        self.size = comm.Get_size()
        self.kw = {} if arg_comm is None else {"comm": arg_comm}

    # -- steps: return the list of names to report -------------------------

    def step(self, s):
        return getattr(self, "op_" + s["op"])(s)

    def put(self, name, arr, like=None, codec=None, units=""):
        if codec is None:
            codec = self.heap[like].codec if like else "raw"
        self.heap[name] = Slot(arr, codec, units)
        self.heap[name].big = bool(like and self.heap[like].big)

    def scale(self, name):
        """concrete elements per abstract element"""
        return cd.BLOCK if self.heap[name].codec == "blk" else 1

    def op_new(self, s):
        c = s.get("codec", "raw")
        a = cd.encode(s["val"][self.rank], c, s.get("shape1", ()))
        if s.get("units"):
            a = as_unyt(a, s["units"])
        if s.get("layout") == "strided":
            b = np.zeros((2 * a.shape[0] + 1,) + a.shape[1:], dtype=a.dtype)[1::2]
            b[...] = a
            a = b
        elif s.get("layout") == "endian":
            a = a.astype(a.dtype.newbyteorder("<"))
        elif s.get("layout") == "big":
            a = a.astype(a.dtype.newbyteorder(">"))
            self.put(s["dst"], a, codec=c)
            self.heap[s["dst"]].big = True
            return [s["dst"]]
        elif s.get("layout") == "list":
            pass
        self.put(s["dst"], a, codec=c)
        return [s["dst"]]

    calls = 0

    def spare(self, defaults, kw):
        """Every other time arguments which have their default values are left out"""
        self.calls += 1
        return {k: v for k, v in kw.items() if self.calls % 2 or not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k])}

    def op_sort(self, s):
        from virgo.mpi import parallel_sort as ps
        a = self.heap[s["a"]]
        r = ps.parallel_sort(a.arr, **self.spare({"return_index": False}, {"return_index": bool(s.get("index"))}), **self.kw)
        if s.get("index"):
            self.put(s["index"], r)
            return [s["a"], s["index"]]
        assert r is None
        return [s["a"]]

    def op_fetch(self, s):
        from virgo.mpi import parallel_sort as ps
        a, i = self.heap[s["a"]], self.heap[s["index"]]
        if s.get("into"):
            buf = np.full((len(i.arr),) + a.arr.shape[1:], 77, dtype=a.arr.dtype)
            ps.fetch_elements(a.arr, i.arr, result=buf, **self.kw)
            r = buf
        else:
            r = ps.fetch_elements(a.arr, i.arr, **self.kw)
        self.put(s["dst"], r, like=s["a"])
        return [s["a"], s["index"], s["dst"]]

    def op_repart(self, s):
        from virgo.mpi import parallel_sort as ps
        a = self.heap[s["a"]]
        k = self.scale(s["a"])
        nd = [x * k for x in s["ndesired"]]
        if s.get("as") != "list":
            nd = np.asarray(nd, dtype=int)
        r = ps.repartition(a.arr, nd, **self.kw)
        self.put(s["dst"], r, like=s["a"])
        return [s["a"], s["dst"]]

    def op_match(self, s):
        from virgo.mpi import parallel_sort as ps
        a, b = self.heap[s["a"]], self.heap[s["b"]]
        r = ps.parallel_match(a.arr, b.arr, **self.spare({"arr2_sorted": False}, {"arr2_sorted": bool(s.get("sorted"))}), **self.kw)
        self.put(s["dst"], r)
        return [s["a"], s["b"], s["dst"]]

    def op_unique(self, s):
        from virgo.mpi import parallel_sort as ps
        a = self.heap[s["a"]]
        kw = {"arr_sorted": bool(s.get("sorted")), "return_counts": bool(s.get("counts")), "repartition_output": bool(s.get("repart"))}
        r = ps.parallel_unique(a.arr, **self.spare({k: False for k in kw}, kw), **self.kw)
        out = [s["a"], s["dst"]]
        if s.get("counts"):
            r, c = r
            self.put(s["counts"], c)
            out.append(s["counts"])
        self.put(s["dst"], r, like=s["a"])
        return out

    def op_reduce(self, s):
        from virgo.mpi import parallel_sort as ps
        a, u, i = self.heap[s["a"]], self.heap[s["upd"]], self.heap[s["index"]]
        f = {"add": np.add, "maximum": np.maximum, "minimum": np.minimum, "multiply": np.multiply,
             "SUM": MPI.SUM, "MAX": MPI.MAX, "MIN": MPI.MIN, "PROD": MPI.PROD}[s["fn"]]
        ps.reduce_elements(a.arr, u.arr, i.arr, f, **self.kw)
        return [s["a"], s["upd"], s["index"]]

    def op_bincount(self, s):
        from virgo.mpi import parallel_sort as ps
        kw = dict(self.kw)
        rep = [s["x"]]
        like = None
        if s.get("w"):
            kw["weights"] = self.heap[s["w"]].arr
            rep.append(s["w"])
            like = s["w"]
        if s.get("minlength") is not None:
            kw["minlength"] = s["minlength"]
        if s.get("into"):
            kw["result"] = self.heap[s["into"]].arr
            rep.append(s["into"])
            like = s["into"]
        r = ps.parallel_bincount(self.heap[s["x"]].arr, **kw)
        self.put(s["dst"], r, like=like, codec=None if like else "raw")
        return rep + [s["dst"]]

    def op_alltoallv(self, s):
        from virgo.mpi import parallel_sort as ps
        a = self.heap[s["a"]]
        me = self.rank
        k = self.scale(s["a"])
        sc = np.asarray(s["scount"][me], dtype=int) * k
        so = np.asarray(s["soff"][me], dtype=int) * k
        rc = np.asarray(s["rcount"][me], dtype=int) * k
        ro = np.asarray(s["roff"][me], dtype=int) * k
        buf = cd.encode([s["fill"]] * s["rlen"][me], a.codec)
        kw = dict(self.kw)
        if s.get("method"):
            kw["method"] = s["method"]
        ps.my_alltoallv(a.arr, sc, so, buf, rc, ro, **kw)
        self.put(s["dst"], buf, like=s["a"])
        return [s["a"], s["dst"]]

    def op_sendrecv(self, s):
        from virgo.mpi import parallel_sort as ps
        a = self.heap[s["a"]]
        peer = s["peer"][self.rank]
        buf = cd.encode([s["fill"]] * s["rlen"][self.rank], a.codec)
        if peer >= 0:
            kw = dict(self.kw)
            if s.get("nchunk"):
                kw["nchunk"] = s["nchunk"]
            ps.sendrecv(peer, a.arr, buf, **kw)
        self.put(s["dst"], buf, like=s["a"])
        return [s["a"], s["dst"]]

    def op_gather(self, s):
        from virgo.mpi import gather_array as ga
        a = self.heap[s["a"]]
        if s["how"] == "all":
            r = ga.allgather_array(a.arr, **self.spare({"axis": 0}, {"axis": s["axis"]}), **self.kw)
        elif s["how"] == "root":
            r = ga.gather_array(a.arr, **self.spare({"root": 0, "axis": 0}, {"root": s["root"], "axis": s["axis"]}), **self.kw)
        else:
            from virgo.mpi import parallel_sort as ps
            r = ps.gather_to_first_rank(a.arr, self.comm)
        self.put(s["dst"], r, like=s["a"])
        return [s["a"], s["dst"]]

    def op_gather2d(self, s):
        from virgo.mpi import parallel_sort as ps
        a = self.heap[s["a"]]
        r = ps.gather_to_2d_array(a.arr, self.comm)
        self.put(s["dst"], r, like=s["a"])
        return [s["a"], s["dst"]]

    def op_groups(self, s):
        from virgo.mpi import util
        ln, of = self.heap[s["len"]], self.heap[s["off"]]
        r = util.group_index_from_length_and_offset(ln.arr, of.arr, s["nids"][self.rank],
                                                    **self.spare({"return_rank": False}, {"return_rank": bool(s.get("rank"))}), **self.kw)
        out = [s["len"], s["off"], s["dst"]]
        if s.get("rank"):
            r, k = r
            self.put(s["rank"], k)
            out.append(s["rank"])
        self.put(s["dst"], r)
        return out

    def op_nonezero(self, s):
        """replace_none_with_zero_size"""
        from virgo.mpi import util
        a = self.heap[s["a"]]
        arg = None if s["none"][self.rank] else a.arr
        r = util.replace_none_with_zero_size(arg, **self.kw)
        self.put(s["dst"], r, like=s["a"])
        return [s["dst"]]

    def op_halos(self, s):
        from virgo.mpi import merger_tree as mt
        h = self.heap
        r = mt.match_halos(h[s["g1"]].arr, h[s["i1"]].arr, h[s["g2"]].arr, h[s["i2"]].arr,
                           s["nlocal"][self.rank], **self.kw)
        self.put(s["dst"], r)
        return [s["g1"], s["i1"], s["g2"], s["i2"], s["dst"]]

    def op_consistent(self, s):
        from virgo.mpi import merger_tree as mt
        h = self.heap
        r = mt.consistent_match(h[s["m12"]].arr, h[s["m21"]].arr, **self.kw)
        self.put(s["dst"], r)
        return [s["m12"], s["m21"], s["dst"]]

    # -- reporting -----------------------------------------------------------

    def view(self, name):
        """What the specification sees of the local part of an array."""
        sl = self.heap[name]
        a = sl.arr
        if a is None:
            return {"none": True}
        if not isinstance(a, np.ndarray):
            return {"bad": type(a).__name__}
        u = str(getattr(a, "units", ""))
        u = "" if u == "dimensionless" else u
        want = cd.kind_of(sl.codec)
        return {"v": cd.decode(a, sl.codec), "sh": [int(x) for x in a.shape],
                "dt": ("" if a.dtype.isnative else ">") + a.dtype.kind + str(a.dtype.itemsize), "u": u,
                "ok": bool(a.dtype.isnative) or sl.big}


def comm_for(kind, world):
    """The communicator handed to the code, or None if this rank sits out."""
    n, r = world.Get_size(), world.Get_rank()
    if kind in ("world", "default"):
        c = world.Dup()
    elif kind == "rev":
        c = world.Split(0, n - r)
    elif kind == "sub":
        c = world.Split(0 if r > 0 or n == 1 else MPI.UNDEFINED, r)
    elif kind == "even":
        c = world.Split(0 if r % 2 == 0 else MPI.UNDEFINED, r)
    else:
        raise ValueError(kind)
    if c == MPI.COMM_NULL:
        return None
    return JitterComm(c) if JIT is not None else c


def main():
    global JIT
    progfile, outdir = sys.argv[1], sys.argv[2]
    if "--jitter" in sys.argv:
        JIT = random.Random(int(sys.argv[sys.argv.index("--jitter") + 1]) * 1000 + WORLD.Get_rank())
    with open(progfile) as f:
        progs = json.load(f)
    comms = {}
    wrank = WORLD.Get_rank()
    trace = None
    for p in progs:
        kind = p.get("comm", "world")
        if kind not in comms:
            c = comm_for(kind, WORLD)
            comms[kind] = (c, None if c is None else MPI.Intracomm(c).Dup())
        comm, log = comms[kind]
        if comm is None:
            continue
        prog = Program(p, comm, log, None if kind == "default" else comm)
        if comm.Get_rank() == 0:
            if trace is None:
                trace = open(os.path.join(outdir, "trace.%d.ndjson" % wrank), "w")
            trace.write(json.dumps({"op": "begin", "prog": p["id"], "np": comm.Get_size(),
                                    "comm": kind}) + "\n")
            trace.flush()
        for s in p["steps"]:
            err = ""
            names = []
            try:
                names = prog.step(s)
            except Exception as e:   # noqa
                if not s.get("may_raise"):
                    traceback.print_exc()
                    with open(os.path.join(outdir, "error.%d" % wrank), "w") as f:
                        json.dump({"prog": p["id"], "step": s["op"],
                                   "error": type(e).__name__ + ": " + str(e)[:500]}, f)
                    sys.stderr.flush()
                    MPI.COMM_WORLD.Abort(3)
                err = type(e).__name__
            local = {n: prog.view(n) for n in names}
            parts = log.gather((local, err))
            if comm.Get_rank() == 0:
                ev = dict(s)
                errs = [q[1] for q in parts]
                ev["err"] = errs
                res = {}
                for n in parts[0][0]:
                    vs = [q[0].get(n, {"bad": "absent"}) for q in parts]
                    res[n] = {
                        "v": [v.get("v", []) for v in vs],
                        "none": [bool(v.get("none")) for v in vs],
                        "u": sorted(set(v.get("u", "") for v in vs if "v" in v)),
                        "dt": sorted(set(v.get("dt", "") for v in vs if "v" in v)),
                        "nd": sorted(set(len(v["sh"]) for v in vs if "v" in v)),
                        "sh1": sorted(set(tuple(v["sh"][1:]) for v in vs if "v" in v)),
                        "good": all(("v" in v and v["ok"]) or v.get("none", False) for v in vs),
                    }
                ev["res"] = res
                trace.write(json.dumps(ev) + "\n")
                trace.flush()
    if trace is not None:
        trace.write(json.dumps({"op": "end"}) + "\n")
        trace.close()
    WORLD.Barrier()
    with open(os.path.join(outdir, "done.%d" % wrank), "w") as f:
        f.write("ok")


main()
