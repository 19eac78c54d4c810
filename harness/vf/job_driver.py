"""
One MPI job for one case of bad (or good) input.

usage: job_driver.py CASE.json OUTDIR
Each rank notes when it starts the call (start.<rank>) and what came of it
(out.<rank>): a value, an exception, or nothing if the job was stopped.
"""
import json
import os
import sys
import time

import numpy as np
from mpi4py import MPI

comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
CASE, OUTDIR = sys.argv[1], sys.argv[2]


def note(name, obj):
    with open(os.path.join(OUTDIR, "%s.%d" % (name, rank)), "w") as f:
        json.dump(obj, f)


def tokens(args):
    out = []
    for k, v in args:
        if k == "pos":
            out.append(v)
        elif k in ("flag", "help", "unknown"):
            out.append("--" + k)
        else:
            out += ["--" + k, v]
    return out


def do_parse(case):
    from virgo.mpi.util import MPIArgumentParser
    p = MPIArgumentParser(comm, description="test")
    p.add_argument("snap", type=int)
    p.add_argument("--nfiles", type=int, default=1)
    p.add_argument("--mode", choices=["a", "b"], default="a")
    p.add_argument("--flag", action="store_true")
    p.add_argument("--out", required=True)
    argv = tokens(case["args"][rank])
    if case.get("argv"):
        sys.argv = ["prog"] + argv
        r = p.parse_args()
    else:
        r = p.parse_args(argv)
    return {"snap": str(r.snap), "nfiles": str(r.nfiles), "mode": r.mode, "flag": "yes" if r.flag else "no", "out": r.out}


class Odd(Exception):
    pass


def do_errchk(case):
    from virgo.mpi.errchk import mpi_errchk

    @mpi_errchk
    def f(a, b=0):
        x = case["raise"][rank]
        if x:
            time.sleep(case.get("delay", 0))
            raise {"value": ValueError("v"), "interrupt": KeyboardInterrupt(), "odd": Odd("o"),
                   "key": KeyError("k"), "memory": MemoryError(), "os": OSError(2, "x")}[x]
        if any(case["raise"]):
            if case["others"] == "wait":
                comm.Barrier()
            elif case["others"] == "recv":
                comm.recv(source=[i for i in range(size) if case["raise"][i]][0])
            else:
                time.sleep(600)
        return a + b
    return {"v": str(f(rank, b=10))}


def do_abort(case):
    from virgo.mpi import parallel_sort as ps
    bad = rank in case["bad"]
    kind = case["kind"]
    a = np.arange(6) + rank
    if kind == "sort2d":
        ps.parallel_sort(a.reshape((3, 2)) if bad else a, comm=comm)
    elif kind == "sortendian":
        ps.parallel_sort(a.astype(">i8") if bad else a, comm=comm)
    elif kind == "match2d":
        ps.parallel_match(a, a.reshape((3, 2)) if bad else a, comm=comm)
    elif kind == "match2d1":
        ps.parallel_match(a.reshape((3, 2)) if bad else a, a, comm=comm)
    elif kind == "unique2d":
        ps.parallel_unique(a.reshape((3, 2)) if bad else a, comm=comm)
    elif kind == "repart":
        ps.repartition(a, [6] * (size - 1) + [5], comm=comm)
    elif kind == "repartmore":
        ps.repartition(a, [7] + [6] * (size - 1), comm=comm)
    elif kind == "reduceindex2d":
        ps.reduce_elements(a, np.ones((2, 2), dtype=int), np.zeros((2, 2), dtype=int) if bad else np.zeros(2, dtype=int),
                           np.add, comm=comm)
    elif kind == "reducelen":
        ps.reduce_elements(a, np.ones(3, dtype=int), np.zeros(2 if bad else 3, dtype=int), np.add, comm=comm)
    elif kind == "reduceshape":
        ps.reduce_elements(a, np.ones((3, 2) if bad else 3, dtype=int), np.zeros(3, dtype=int), np.add, comm=comm)
    else:
        raise RuntimeError(kind)
    return {}


def main():
    with open(CASE) as f:
        case = json.load(f)
    import virgo.mpi.parallel_sort, virgo.mpi.util   # noqa
    comm.Barrier()
    note("start", {})
    try:
        v = {"parse": do_parse, "errchk": do_errchk, "abort": do_abort}[case["op"]](case)
    except SystemExit:
        note("out", {"how": "exit"})
        raise
    except BaseException as e:   # noqa
        note("out", {"how": "error", "what": type(e).__name__})
        raise
    note("out", {"how": "value", "v": v})
    if case["op"] == "abort":
        time.sleep(0)


main()
