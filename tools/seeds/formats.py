F = "python/virgo/formats/"
GADGET = '''import numpy as np, os, sys
def rec(b, order):
    n = np.array([len(b)], dtype=order + "u4").tobytes()
    return n + b + n
def snap(name, types, order="<", masstable=(1,) * 6, extra=b"", files=1, idw=8, start=0, total=None):
    """a gadget snapshot; identifiers of type t are 1000 t + start[t] ..."""
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    a = lambda x, t: np.asarray(x, dtype=order + t).tobytes()
    h = a(types, "i4") + a(masstable, "f8") + a([0, 0], "f8") + a([0, 0], "i4") + a(total or types, "u4") + a(0, "i4") + a(files, "i4") \\
        + a([8, 0, 0, 0], "f8") + a([0, 0], "i4") + a([0] * 6, "u4")
    h += b"\\0" * (256 - len(h))
    n = sum(types)
    out = rec(h, order)
    if n:
        ids = np.concatenate([1000 * t + (start[t] if start else 0) + np.arange(types[t]) for t in range(6)])
        out += rec(a(np.repeat(ids, 3), "f4"), order) + rec(a(np.repeat(ids, 3), "f4"), order) + rec(a(ids, "i%d" % idw), order)
    open(name, "wb").write(out + extra)
'''
G4 = GADGET + '''
def g4tab(name, glt, nsubs, first, slt, totg, tots, files):
    os.makedirs(os.path.dirname(name), exist_ok=True)
    a = lambda x, t: np.asarray(x, dtype="<" + t).tobytes()
    g, s = len(glt), len(slt)
    out = rec(a([g, s, 0, totg, tots, 0, files, 0], "i4") + a([0] * 6, "f8") + a([0, 0], "i4"), "<")
    z = lambda n, w: rec(b"\\0" * (n * w), "<")
    if g:
        out += rec(a([sum(x) for x in glt], "i4"), "<") + z(g, 4) + z(g, 12) + z(g, 12) + rec(a(glt, "i4"), "<") + z(g, 24)
        for _ in range(6):
            out += z(g, 4)
        out += rec(a(nsubs, "i4"), "<") + rec(a(first, "i4"), "<")
    if s:
        out += rec(a([sum(x) for x in slt], "i4"), "<") + z(s, 4) + z(s, 12) + z(s, 12) + rec(a(slt, "i4"), "<") + z(s, 24)
        for w in (12, 12, 4, 4, 4, 4, 24, 4, 24, 8, 4, 4):
            out += z(s, w)
    open(name, "wb").write(out)
'''
SEEDS = [
 dict(id="s23", property="C21", files={F + "gadget_snapshot.py": [
   ("                if (nbytes != 4 and nbytes != 8) or nbytes*n_per_part*nextra != irec:\n", "                irec_start = irec\n                if nbytes != 4 and nbytes != 8:\n"),
   ("                if irec != n_per_part * np.dtype(dtype).itemsize * nextra:\n", "                if irec != irec_start:\n")]},
  needs="a record which is a few bytes longer than its particles need, with markers which agree",
  breaks="a damaged snapshot is accepted and its later markers are read from the wrong place",
  demo=GADGET + '''
from virgo.formats.gadget_snapshot import GadgetBinarySnapshotFile
b = b"\\0" * (8 * 5)
m = np.array([len(b) + 3], dtype="<u4").tobytes()
# masses of 5 particles, the record has three bytes too many: its end marker is not where it should be
snap("a", [0, 5, 0, 0, 0, 0], masstable=(0,) * 6, extra=m + b + m)
try:
    GadgetBinarySnapshotFile("a")
except IOError:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id="s24", property="C21", files={F + "gadget_snapshot.py": [
   ("            if nextra > 0:\n", "            if nextra > 0 and (name != \"Masses\" or npart > npart_type[1]):\n")]},
  needs="a file of a split snapshot in which all particles are of type 1 and have individual masses",
  breaks="the masses are skipped and the next block is taken for the wrong quantity",
  demo=GADGET + '''
from virgo.formats.gadget_snapshot import GadgetBinarySnapshotFile
m = np.array([2., 3., 4.], dtype="<f4").tobytes()
snap("a", [0, 3, 0, 0, 0, 0], masstable=(1, 0, 1, 1, 1, 1), extra=rec(m, "<"))
f = GadgetBinarySnapshotFile("a")
sys.exit(0 if "PartType1/Masses" in f and list(f["PartType1/Masses"][...]) == [2, 3, 4] else 1)
'''),
 dict(id="s25", property="C22", files={F + "subfind_gadget4.py": [
   ("        nsubgroups = self[\"Nsubgroups\"][...]\n        if nsubgroups > 0:\n", "        nsubgroups = self[\"Nsubgroups\"][...]\n        if ngroups > 0 and nsubgroups > 0:\n")]},
  needs="a file of a split catalogue which has subgroups but no groups",
  breaks="the subgroups of such files are not read",
  demo=G4 + '''
from virgo.formats.subfind_gadget4 import SubTabFile
g4tab("d/tab", [], [], [], [[0, 3, 0, 0, 0, 0]], 1, 1, 2)
f = SubTabFile("d/tab")
sys.exit(0 if "SubLen" in f and list(f["SubLen"][...]) == [3] else 1)
'''),
 dict(id="s26", property="C23", files={F + "subfind_pgadget3.py": [
   ("                if last_to_read >= first_to_read and self.npart_file[ifile] > 0:\n", "                if last_to_read > first_to_read or first_particle == last_particle:\n")]},
  needs="a group of which one snapshot file holds exactly one particle",
  breaks="that particle is missing",
  demo=GADGET + '''
for i in range(2):
    snap("snapdir_007/s_007.%d" % i, [0, 3, 0, 0, 0, 0], files=2, start=[0, 3 * i, 0, 0, 0, 0], total=[0, 6, 0, 0, 0, 0])
a = lambda x, t="i4": np.asarray(x, dtype="<" + t).tobytes()
os.makedirs("groups_007")
# one group of particles 2..4, no subgroups: see SubTabFile
t = a([1, 1, 3]) + a(3, "i8") + a([1, 0, 0]) + a(3) + a(2) + a([0] * 10, "f4") + a([0, 0, 0, 0])
open("groups_007/subhalo_tab_007.0", "wb").write(t)
from virgo.formats.subfind_pgadget3 import GroupOrderedSnapshot
s = GroupOrderedSnapshot(".", "s", 7)
ids = s.read_fof_group(0)["ParticleIDs"]
print(ids)
sys.exit(0 if list(ids) == [1002, 1003, 1004] else 1)
'''),
 dict(id="s27", property="C23", files={F + "subfind_gadget4.py": [
   ("        self.first_fof_in_file = np.cumsum(self.nfof_file) - self.nfof_file\n",
    "        nfof_file = self.nfof_file[self.nfof_file > 0]\n        self.first_fof_in_file = np.cumsum(nfof_file) - nfof_file\n")]},
  needs="a catalogue in which some file without groups precedes others, and a group named by file number and position",
  breaks="the particles of another group are returned",
  demo=G4 + '''
snap("snapdir_007/s_007.0", [0, 5, 0, 0, 0, 0])
g4tab("groups_007/fof_subhalo_tab_007.0", [[0, 2, 0, 0, 0, 0]], [0], [0], [], 2, 1, 3)
g4tab("groups_007/fof_subhalo_tab_007.1", [], [], [], [[0, 1, 0, 0, 0, 0]], 2, 1, 3)
g4tab("groups_007/fof_subhalo_tab_007.2", [[0, 3, 0, 0, 0, 0]], [0], [0], [], 2, 1, 3)
from virgo.formats.subfind_gadget4 import GroupOrderedSnapshot
s = GroupOrderedSnapshot(".", "s", 7)
ids = s.read_fof_group((2, 0))[1]["ParticleIDs"]
print(ids)
sys.exit(0 if list(ids) == [1002, 1003, 1004] else 1)
'''),
 dict(id="s28", property="C24", files={F + "subfind_lgadget2.py": [
   ("        # Initialise cache for hash table\n        self.hash_table = {}\n", ""),
   ("    using the hash table.\n    \"\"\"\n    def __init__(self, basedir, basename, isnap):\n", "    using the hash table.\n    \"\"\"\n    # Cache for hash table\n    hash_table = {}\n\n    def __init__(self, basedir, basename, isnap):\n")]},
  needs="two snapshots whose hash tables are divided differently over their files",
  breaks="reads of the snapshot which is used second use the cells of the first",
  demo='''import numpy as np, os, sys
def rec(b):
    n = np.array([len(b)], dtype="<u4").tobytes()
    return n + b + n
a = lambda x, t="i4": np.asarray(x, dtype="<" + t).tobytes()
def world(d, cells):
    """one particle in each of 8 cells"""
    c0 = 0
    os.makedirs(d + "/snapdir_001")
    for i, k in enumerate(cells):
        h = a([0, k, 0, 0, 0, 0]) + a([0] * 8, "f8") + a([0, 0]) + a([0, 8, 0, 0, 0, 0]) + a([0, len(cells)]) \\
            + a([8., 0, 0, 0], "f8") + a([0, 0, 8])
        h += b"\\0" * (256 - len(h))
        ids = np.arange(c0, c0 + k)
        open(d + "/snapdir_001/s_001.%d" % i, "wb").write(rec(h) + rec(a(np.zeros(3 * k), "f4")) * 2 + rec(a(ids, "u8"))
            + rec(a([c0, c0 + k - 1])) + rec(a(np.arange(k))))
        c0 += k
world("p", [4, 4])
world("q", [2, 6])
from virgo.formats.subfind_lgadget2 import Snapshot
got = [sorted(Snapshot(d, "s", 1).read_cells([1, 3, 5])[2].tolist()) for d in "pq"]
print(got)
sys.exit(0 if got == [[1, 3, 5]] * 2 else 1)
'''),
 dict(id="s29", property="C25", files={F + "rockstar.py": [
   ("        self.add_dataset(\"Halo\", halo_t, (num_halos,))\n", "        if num_halos > 0:\n            self.add_dataset(\"Halo\", halo_t, (num_halos,))\n")]},
  needs="a Rockstar file which has no halos",
  breaks="the halo block is missing and the sanity check fails",
  demo='''import numpy as np, sys
open("r", "wb").write(np.zeros(256, dtype="u1").tobytes())
from virgo.formats.rockstar import HalosFile
f = HalosFile("r")
sys.exit(0 if "Halo" in f and f["Halo"].shape == (0,) else 1)
'''),
 dict(id="s30", property="C25", files={F + "rockstar.py": [
   ("        halo_t = np.dtype(fields, align=True)\n", "        halo_t = np.dtype(fields, align=(format_revision >= 2))\n")]},
  needs="a file of format revision 1, whose structure is padded",
  breaks="fields after the padding, and all halos but the first, are read from the wrong place",
  demo='''import numpy as np, sys
h = np.zeros(256, dtype="u1")
h[64:72].view("i8")[0] = 2
h[104:108].view("i4")[0] = 1
from virgo.formats.rockstar import HalosFile
n8 = 8 + 4 * 56 + 4 + 6 * 8 + 3 * 4
open("r", "wb").write(h.tobytes() + bytes(4096))
f = HalosFile("r")
import ctypes
t = f["Halo"].dtype
print(t.itemsize, [t.fields[k][1] for k in ("id", "num_p", "min_pos_err")])
sys.exit(0 if t.itemsize % 8 == 0 and t.fields["num_p"][1] % 8 == 0 else 1)
'''),
]
