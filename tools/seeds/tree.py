T = "python/virgo/database/"
SEEDS = [
 dict(id="s35", property="C19", files={T + "index_trees.py": [
   ("    for iprog in np.argsort(mBranch):\n", "    for iprog in np.argsort(mBranch.astype(np.float32)):\n")]},
  needs="branch masses which differ by less than single precision",
  breaks="the heaviest progenitor is not always numbered first",
  demo='''import sys, numpy as np
from virgo.database.index_trees import depth_first_index
m = np.array([1e10, 2e9 + 3, 2e9 + 2, 2e9 + 1, 2e9 + 4])
df, end, last = depth_first_index(np.arange(5), np.array([-1, 0, 0, 0, 0]), m)
print(df)
sys.exit(0 if list(df) == [1, 3, 4, 5, 2] else 1)
'''),
 dict(id="s36", property="C19", files={T + "index_trees.py": [
   ("    # Find highest main branch mass for each node\n", "    # Find highest main branch mass for each node\n    tol = 1.0e-5\n"),
   ("            if mbranch[i] > mbranch_max[j]:\n", "            if mbranch[i] > mbranch_max[j] * (1 + tol):\n")]},
  needs="a later progenitor which is heavier by less than one part in 1e5",
  breaks="the main progenitor is not the heaviest, and the masses of ties are compared with the wrong one",
  demo='''import sys, numpy as np
from virgo.database.index_trees import find_main_progenitor
ntie, main = find_main_progenitor(np.array([1, 2, 3]), np.array([-1, 1, 1]), np.array([9, 7, 8]), np.array([1e7, 1e6, 1e6 + 1]))
print(main)
sys.exit(0 if list(main) == [3, -1, -1] else 1)
'''),
 dict(id="s37", property="C19", files={T + "index_trees.py": [
   ("            prog_mbranch = mdesc[i]+mbranch[i]\n", "            prog_mbranch = desc_mbranch+mbranch[i] if desc_mbranch == mdesc[i] else mdesc[i]+mbranch[i]\n"),
   ("    mbranch = mass[idx] # will eventually contain total main branch mass\n", "    mbranch = mass[idx] # will eventually contain total main branch mass\n    nprog = np.bincount(match(descendantIndex, nodeIndex)+1, minlength=n+1)[1:][idx]\n"),
   ("            if prog_mbranch > desc_mbranch:\n", "            nprog[ptr[i]] -= 1\n            if prog_mbranch > desc_mbranch and (nprog[ptr[i]] == 0 or snap[ptr[i]] - snap[i] <= 2):\n")]},
  needs="a node whose main branch jumps over at least two snapshots while another progenitor is processed later",
  breaks="the branch which is missing for two snapshots is not counted",
  demo='''import sys, numpy as np
from virgo.database.index_trees import find_progenitor_branch_mass_delucia as f
r = f(np.array([1, 2, 3]), np.array([-1, 1, 1]), np.array([9, 6, 8]), np.array([10., 5., 1.]))
print(r)
sys.exit(0 if list(r) == [15, 5, 1] else 1)
'''),
 dict(id="s38", property="C19", files={T + "index_trees.py": [
   ("            if prog_ptr[idesc] == iprog:\n", "            if mBranch[prog_ptr[idesc]] == mBranch[iprog]:\n")]},
  needs="two progenitors with equal branch mass",
  breaks="the end of the main branch is taken from the wrong progenitor",
  demo='''import sys, numpy as np
from virgo.database.index_trees import depth_first_index
df, end, last = depth_first_index(np.arange(3), np.array([-1, 0, 0]), np.array([2., 1., 1.]))
print(df, end)
sys.exit(0 if end[0] == 2 else 1)
'''),
 dict(id="s39", property="C20", files={T + "make_dtrees_table.py": [
   ("    outfile = open(data_file, \"w\")\n", "    outfile = open(data_file, \"r+\" if os.path.exists(data_file) else \"w\")\n"),
   ("import collections\n", "import collections\nimport os\n")]},
  needs="an export over the output of a longer one",
  breaks="rows of the old table remain at the end of the data file",
  demo='''import sys, os, numpy as np
from virgo.database.make_dtrees_table import write_sql_server_native_file as w
w("T", {"a": np.arange(5)}, "o.dat", "o.sql")
w("T", {"a": np.arange(3)}, "o.dat", "o.sql")
sys.exit(0 if os.path.getsize("o.dat") == 24 else 1)
'''),
 dict(id="s40", property="C20", files={T + "make_dtrees_table.py": [
   ("            for i, suffix in enumerate((\"x\",\"y\",\"z\")):\n                table[name+\"_\"+suffix][:] = data[name][:,i]\n",
    "            pick = np.eye(3) if data[name].dtype.kind != \"S\" else None\n            for i, suffix in enumerate((\"x\",\"y\",\"z\")):\n                table[name+\"_\"+suffix][:] = data[name][:,i] if pick is None or not np.isfinite(data[name]).all() else np.dot(data[name], pick[i])\n")]},
  needs="vectors of 64 bit integers beyond 2^53",
  breaks="the components pass through double precision",
  demo='''import sys, os, numpy as np
from virgo.database.make_dtrees_table import write_sql_server_native_file as w
x = np.array([[2**60 + 1, 3, 2**53 + 1]])
w("T", {"a": x}, "o.dat", "o.sql")
sys.exit(0 if np.array_equal(np.fromfile("o.dat", "i8"), x[0]) else 1)
'''),
 dict(id="s41", property="C20", files={T + "make_dtrees_table.py": [
   ("    while ifile < nfiles:\n        treefile = h5py.File(\"%s.%d.hdf5\" % (basename, ifile), \"r\")\n        if ifile == 0:\n            nfiles = treefile[\"fileInfo\"].attrs[\"numberOfFiles\"]\n        for uname",
    "    while ifile < nfiles:\n        treefile = h5py.File(\"%s.%d.hdf5\" % (basename, ifile), \"r\")\n        if ifile == 0:\n            nfiles = treefile[\"fileInfo\"].attrs[\"numberOfFiles\"]\n        elif treefile[\"haloTrees\"][\"nodeIndex\"].shape[0] == 0:\n            break\n        for uname")]},
  needs="a set of tree files with an empty file before one which is not",
  breaks="the trees of the files after the empty one are left out",
  demo='''import sys, h5py, numpy as np
from virgo.database.make_dtrees_table import read_dhalo_trees
for i, n in enumerate((2, 0, 1)):
    f = h5py.File("t.%d.hdf5" % i, "w")
    f.create_group("fileInfo").attrs["numberOfFiles"] = 3
    f["haloTrees/nodeIndex"] = np.arange(n)
    f.close()
sys.exit(0 if len(read_dhalo_trees("t")["nodeIndex"]) == 3 else 1)
'''),
]
