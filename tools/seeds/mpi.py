PS = "python/virgo/mpi/parallel_sort.py"
UT = "python/virgo/mpi/util.py"
HEAD = """from mpi4py import MPI
import numpy as np, sys
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
import virgo.mpi.parallel_sort as ps
import virgo.mpi.gather_array as ga
import virgo.mpi.util as util
def check(ok, what):
    ok = comm.allreduce(1 if ok else 0, op=MPI.MIN)
    if not ok:
        if rank == 0:
            print("WRONG:", what)
        comm.Barrier()
        sys.exit(1)
"""
SEEDS = [
 dict(id="s01", property="C01", np=3,
  files={PS: [("        sort_idx2 = my_argsort(arr_tmp)\n", "        sort_idx2 = np.argsort(arr_tmp)\n")]},
  needs="many equal values: more than 16 elements on a rank after the exchange (below that numpy's default sort happens to be stable)",
  breaks="equal elements no longer keep their original global order in the index returned by parallel_sort",
  demo=HEAD + """
n = 200 + 37*rank
a = (np.arange(n)*7919 + rank) % 5
orig = a.copy()
idx = ps.parallel_sort(a, comm=comm, return_index=True)
full = np.concatenate(comm.allgather(orig))
want = np.argsort(full, kind="stable")
got = np.concatenate(comm.allgather(idx))
check(np.all(want == got), "sort index is not stable")
"""),
 dict(id="s02", property="C02", np=3,
  files={PS: [("""    arr = np.asanyarray(arr)
    index = np.asanyarray(index, dtype=index_dtype)

    # Get number of elements in dimensions after the first
    nvalues = 1
    if len(arr.shape) > 1:
        for s in arr.shape[1:]:
            nvalues *= s
""", """    arr = np.asanyarray(arr)
    index = np.asanyarray(index, dtype=index_dtype)

    # Get number of elements in dimensions after the first
    nvalues = 1
    if len(arr.shape) > 1:
        nvalues = arr.shape[-1]
""")]},
  needs="rows with two or more dimensions (an array of matrices)",
  breaks="only part of each row is fetched",
  demo=HEAD + """
a = np.arange(12).reshape((2, 3, 2)) + 100*rank
got = ps.fetch_elements(a, np.asarray([5, 0, 3]), comm=comm)
full = np.concatenate(comm.allgather(a))
check(np.all(got == full[[5, 0, 3]]), "fetch of matrices")
"""),
 dict(id="s03", property="C03", np=2,
  files={PS: [("""                    left_to_recv        -= num_to_recv
                    current_recv_offset += num_to_recv
    elif method""", """                    left_to_recv        -= num_to_recv
                    current_recv_offset += num_to_send
    elif method""")]},
  needs="a message of more than two 100 MB chunks answered by one at least a chunk shorter",
  breaks="chunks after the first mismatched one are received at the wrong offset",
  demo=HEAD + """
chunk = (100*1024*1024)//8
n = 3*chunk if rank == 0 else chunk//2
m = 3*chunk if rank == 1 else chunk//2
send = np.arange(n, dtype=np.int64)
recv = -np.ones(m, dtype=np.int64)
sc = np.zeros(2, dtype=np.int64); rc = sc.copy(); z = np.zeros(2, dtype=np.int64)
sc[1-rank] = n; rc[1-rank] = m
ps.my_alltoallv(send, sc, z, recv, rc, z, comm=comm, method="hypercube")
check(np.all(recv == np.arange(m)), "chunked exchange")
"""),
 dict(id="s04", property="C04", np=3,
  files={PS: [("""    if sum(have_arr2) > 1:
        send_displ[1:] = send_displ_next[:-1]
""", """    if sum(have_arr2) > 1:
        send_displ_next[:-1] = np.minimum(send_displ_next[:-1], np.maximum(send_displ[1:], send_displ[:-1]))
""")]},
  needs="a value repeated in the second array on both sides of a rank boundary after sorting",
  breaks="a match no longer reports the first equal element when duplicates span ranks",
  demo=HEAD + """
for trial in range(20):
    rng = np.random.RandomState(trial)
    full2 = rng.randint(0, 4, 30)
    cuts = np.sort(rng.randint(0, 31, 2))
    b = np.split(full2, cuts)[rank].copy()
    a = np.arange(-1, 6) + rank
    got = ps.parallel_match(a, b, comm=comm)
    want = np.asarray([np.flatnonzero(full2 == v)[0] if v in full2 else -1 for v in a])
    check(np.all(got == want), "match")
"""),
 dict(id="s05", property="C05", np=4,
  files={PS: [("        while rank_nr < mycomm_size and all_first_unique[rank_nr] == all_last_unique[mycomm_rank]:\n",
               "        if rank_nr < mycomm_size and all_first_unique[rank_nr] == all_last_unique[mycomm_rank]:\n")]},
  needs="one value filling three or more ranks of the sorted array",
  breaks="the count of a value spanning three or more ranks is too small",
  demo=HEAD + """
a = np.full(5, 7, dtype=np.int64)
v, c = ps.parallel_unique(a, comm=comm, return_counts=True)
v = np.concatenate(comm.allgather(v)); c = np.concatenate(comm.allgather(c))
check(list(v) == [7] and list(c) == [20], "unique counts")
"""),
 dict(id="s06", property="C06", np=3, timeout=40,
  files={PS: [("""    # Find the range of global indexes of arr on each rank
    local_offset = comm.scan(len(arr)) - len(arr)
""", """    # Without updates there is nothing to do
    if len(arr) == 0 and updates.shape[0] == 0:
        return

    # Find the range of global indexes of arr on each rank
    local_offset = comm.scan(len(arr)) - len(arr)
""")]},
  needs="a rank with neither array elements nor updates while other ranks have some",
  breaks="reduce_elements hangs: the idle rank leaves before the collective calls",
  demo=HEAD + """
n = 0 if rank == 1 else 4
arr = np.zeros(n, dtype=np.int64)
idx = np.asarray([] if rank == 1 else [0, 7, 7], dtype=np.int64)
ps.reduce_elements(arr, np.ones(len(idx), dtype=np.int64), idx, np.add, comm=comm)
full = np.concatenate(comm.allgather(arr))
check(list(full) == [2, 0, 0, 0, 0, 0, 0, 4], "reduce")
"""),
 dict(id="s07", property="C07", np=3,
  files={UT: [("""    for adt in arr_dtypes:
        if adt is not None and arr_dtype is None:
            arr_dtype = adt
""", """    for adt in arr_dtypes:
        if adt is not None:
            arr_dtype = adt.newbyteorder("=") if len(arr_dtypes) > 2 else adt
""")]},
  needs="an array with non-native byte order on some of at least three ranks",
  breaks="the empty arrays which replace missing ones have another element type than the array",
  demo=HEAD + """
a = np.arange(3, dtype=">i4") if rank == 1 else None
b = util.replace_none_with_zero_size(a, comm=comm)
check(b.dtype == np.dtype(">i4"), "dtype")
"""),
 dict(id="s08", property="C08", np=3,
  files={UT: [("        # Find first rank this group should be sent to\n", "        if length[i] < 1:\n            continue\n        # Find first rank this group should be sent to\n")]},
  needs="a group without particles between two other groups on a rank",
  breaks="the groups after it are not all sent to the ranks with their particles",
  demo=HEAD + """
length = np.asarray([2, 0, 4] if rank == 0 else ([6] if rank == 2 else []), dtype=np.int64)
offset = np.asarray([0, 2, 2] if rank == 0 else ([6] if rank == 2 else []), dtype=np.int64)
g, r = util.group_index_from_length_and_offset(length, offset, 4, return_rank=True, comm=comm)
g = np.concatenate(comm.allgather(g)); r = np.concatenate(comm.allgather(r))
check(list(g) == [0]*2+[2]*4+[3]*6 and list(r) == [0,1,0,1,2,3,0,1,2,3,4,5], "groups")
"""),
 dict(id="s09", property="C09", np=2,
  files={"python/virgo/mpi/merger_tree.py": [("        if unique_grnr_count_recv[recv_nr] > matched_count[local_halo_nr]:\n",
      "        if unique_grnr_count_recv[recv_nr] >= matched_count[local_halo_nr]:\n")]},
  needs="a halo whose particles go in equal numbers to two halos",
  breaks="a tie is decided for the highest numbered halo",
  demo=HEAD + """
import virgo.mpi.merger_tree as mt
if rank == 0:
    g1, i1, g2, i2 = [0, 0, 0, 0], [1, 2, 3, 4], [2, 1, 2, 1], [4, 3, 2, 1]
else:
    g1 = i1 = g2 = i2 = []
f = lambda x: np.asarray(x, dtype=np.int64)
m = mt.match_halos(f(g1), f(i1), f(g2), f(i2), 1 - rank, comm=comm)
check(list(np.concatenate(comm.allgather(m))) == [1], "tie")
"""),
]
