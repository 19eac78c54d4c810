PH = "python/virgo/mpi/parallel_hdf5.py"
HEAD = """from mpi4py import MPI
import numpy as np, sys, h5py, os
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
import virgo.mpi.parallel_hdf5 as phdf5
D = os.getcwd()
def check(ok, what):
    ok = comm.allreduce(1 if ok else 0, op=MPI.MIN)
    if not ok:
        if rank == 0:
            print("WRONG:", what)
        comm.Barrier()
        sys.exit(1)
"""
SEEDS = [
 dict(id="s10", property="C10", np=3, timeout=60,
  files={PH: [("        global_nr_iterations = comm.allreduce(local_nr_iterations, op=MPI.MAX)\n",
               "        global_nr_iterations = comm.bcast(local_nr_iterations, root=comm_size-1)\n")]},
  needs="a read in several pieces whose last rank needs fewer pieces than the first (row count not divisible by the number of ranks, at a buffer boundary)",
  breaks="the last rows of the ranks which hold one row more are never read",
  demo=HEAD + """
name = os.path.join(D, "a.hdf5")
full = np.arange(31)
if rank == 0:
    with h5py.File(name, "w") as f:
        f["x"] = full
comm.Barrier()
with h5py.File(name, "r", driver="mpio", comm=comm) as f:
    a = phdf5.collective_read(f["x"], comm, buffer_size=5*full.dtype.itemsize)
check(np.all(np.concatenate(comm.allgather(a)) == full), "collective read")
"""),
 dict(id="s11", property="C11", np=2,
  files={PH: [("file_nr[name].append(np.ones(n, dtype=int)*self.all_file_indexes[i])", "file_nr[name].append(np.ones(n, dtype=int)*i)")]},
  needs="a file set with explicit file indexes which do not count up from zero, with at least as many files as ranks",
  breaks="the file numbers returned with the data are positions in the set instead of file indexes",
  demo=HEAD + """
idx = [4, 2, 7]
if rank == 0:
    for i in idx:
        with h5py.File(os.path.join(D, "f.%d.hdf5" % i), "w") as f:
            f["x"] = np.arange(i)
comm.Barrier()
mf = phdf5.MultiFile(os.path.join(D, "f.%(file_nr)d.hdf5"), file_idx=idx, comm=comm)
x, n = mf.read("x", return_file_nr=("x",))
n = np.concatenate(comm.allgather(n))
check(list(n) == [4]*4 + [2]*2 + [7]*7, "file numbers")
"""),
 dict(id="s12", property="C12", np=2,
  files={PH: [("""                    dataset[...] = data[name][offset:offset+length,...]
                    if attrs is not None and name in attrs:
""", """                    if length == 0:
                        continue
                    dataset[...] = data[name][offset:offset+length,...]
                    if attrs is not None and name in attrs:
""")]},
  needs="a file which gets no elements, written together with attributes, with at least as many files as ranks",
  breaks="the dataset of a file without elements is left without its attributes",
  demo=HEAD + """
n = [3, 0, 2]
if rank == 0:
    for i in range(3):
        with h5py.File(os.path.join(D, "f.%d.hdf5" % i), "w") as f:
            f["x"] = np.arange(n[i])
comm.Barrier()
mf = phdf5.MultiFile(os.path.join(D, "f.%(file_nr)d.hdf5"), file_idx=range(3), comm=comm)
x = mf.read("x")
epf = mf.get_elements_per_file("x")
mf.write({"y": x*2}, epf, os.path.join(D, "g.%(file_nr)d.hdf5"), "w", attrs={"y": {"unit": 3}})
comm.Barrier()
ok = True
for i in range(3):
    with h5py.File(os.path.join(D, "g.%d.hdf5" % i), "r") as f:
        ok = ok and list(f["y"][...]) == list(2*np.arange(n[i])) and f["y"].attrs.get("unit", 0) == 3
check(ok, "attributes of empty dataset")
"""),
 dict(id="s13", property="C13",
  files={"python/virgo/mpi/util.py": [("""            sys.stderr.write(message+"\\n")
        raise MPIArgumentParserError(message)
""", """            sys.stderr.write(message+"\\n")
            if self.exit_on_error:
                sys.exit(2)
        raise MPIArgumentParserError(message)
""")]},
  needs="wrong arguments on more than one rank: rank 0 leaves while the others wait for its broadcast",
  breaks="wrong command line arguments hang the job instead of ending it",
  demo_sh="""cat > p.py <<'PY'
from mpi4py import MPI
import virgo.mpi.util as u
p = u.MPIArgumentParser(MPI.COMM_WORLD)
p.add_argument("n", type=int)
p.parse_args(["x"])
PY
timeout -k 5 25 mpirun --oversubscribe -np 3 /opt/venv/bin/python p.py
[ $? != 124 ] || { echo "the job hangs"; exit 1; }
exit 0
"""),
 dict(id="s13b", property="C13",
  files={"python/virgo/mpi/errchk.py": [("        except (Exception, KeyboardInterrupt) as e:\n", "        except Exception as e:\n")]},
  needs="a kill signal delivered as KeyboardInterrupt inside a function marked for error checking, on one rank of several",
  breaks="the other ranks wait for the interrupted one for ever",
  demo_sh="""cat > p.py <<'PY'
from mpi4py import MPI
from virgo.mpi.errchk import mpi_errchk
comm = MPI.COMM_WORLD
@mpi_errchk
def f():
    if comm.Get_rank() == 1:
        raise KeyboardInterrupt()
    comm.Barrier()
f()
PY
timeout -k 5 25 mpirun --oversubscribe -np 3 /opt/venv/bin/python p.py
[ $? != 124 ] || { echo "the job hangs"; exit 1; }
exit 0
"""),
]
