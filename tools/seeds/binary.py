B = "python/virgo/util/read_binary.py"
SEEDS = [
 dict(id="s18", property="C16", files={B: [("    memory_endian = big_or_little(dtype.byteorder)\n",
                                            "    memory_endian = big_or_little(\"=\")\n")]},
  needs="an item declared with a type which is not in native byte order",
  breaks="such items are byte swapped wrongly",
  demo="""import numpy as np, sys
from virgo.util.read_binary import BinaryFile
np.array([1, 2, 3], dtype="<i4").tofile("a.bin")
f = BinaryFile("a.bin")
f.add_dataset("x", ">i4", (3,))
f.set_endian("<")
sys.exit(0 if list(f["x"][...]) == [1, 2, 3] else 1)
"""),
 dict(id="s19", property="C16", files={B: [("""        if (end_offset - start_offset == irec_start.byteswap() and 
            end_offset - start_offset != irec_start and auto_byteswap):
""", """        if auto_byteswap and end_offset - start_offset == irec_start.byteswap():
""")]},
  needs="an empty Fortran record (whose length reads the same in both byte orders) read with automatic byte swapping",
  breaks="the byte order of a file is reversed by an empty record",
  demo="""import numpy as np, sys
from virgo.util.read_binary import BinaryFile
np.array([0, 0, 5], dtype="<i4").tofile("a.bin")
f = BinaryFile("a.bin")
f.start_fortran_record(auto_byteswap=True)
f.end_fortran_record()
f.add_dataset("x", "i4")
sys.exit(0 if f["x"][()] == 5 else 1)
"""),
 dict(id="s20", property="C17", files={B: [
   ("        if self.fname in BinaryDataset.file_cache:\n            cached_file = BinaryDataset.file_cache[self.fname]()\n",
    "        key = os.path.basename(self.fname)\n        if key in BinaryDataset.file_cache:\n            cached_file = BinaryDataset.file_cache[key]()\n"),
   ("                del BinaryDataset.file_cache[self.fname]\n", "                del BinaryDataset.file_cache[key]\n"),
   ("        BinaryDataset.file_cache[self.fname] = weakref.ref(new_file)\n", "        BinaryDataset.file_cache[key] = weakref.ref(new_file)\n")]},
  needs="two files of the same name in different directories open at once",
  breaks="the data of the file which was opened first is returned for both",
  demo="""import numpy as np, sys, os
from virgo.util.read_binary import BinaryFile
r = []
fs = []
for d in ("p", "q"):
    os.mkdir(d)
    np.array([ord(d)], dtype="i4").tofile(d + "/a.bin")
    f = BinaryFile(d + "/a.bin")
    f.add_dataset("x", "i4")
    fs.append(f)
sys.exit(0 if [int(f["x"][()]) for f in fs] == [ord("p"), ord("q")] else 1)
"""),
 dict(id="s21", property="C17", files={B: [("            data = block[...]\n            data = data.astype(data.dtype.newbyteorder(\"<\"))\n            file_hash.update(data)\n",
                                            "            file_hash.update(block[...])\n")]},
  needs="an item declared with a big endian type",
  breaks="the digest depends on the byte order in memory, so equal contents hash differently",
  demo="""import numpy as np, sys
from virgo.util.read_binary import BinaryFile
np.array([1, 2, 3], dtype="<i4").tofile("a.bin")
h = []
for t in ("<i4", ">i4"):
    f = BinaryFile("a.bin")
    f.set_endian("<")
    f.add_dataset("x", t, (3,))
    h.append(f.hash())
sys.exit(0 if h[0] == h[1] else 1)
"""),
 dict(id="s22", property="C17", files={B: [("""            if oldest_file is not None:
                oldest_file.close()
""", """            if oldest_file is not None and oldest_file.fname not in BinaryDataset.file_cache:
                del oldest_file
""")]},
  needs="more than 32 files open at once, all kept",
  breaks="the oldest maps are forgotten instead of closed: the number of mapped files is not bounded",
  demo="""import numpy as np, sys, os
from virgo.util.read_binary import BinaryFile
fs = []
for i in range(60):
    np.array([i], dtype="i4").tofile("f%d.bin" % i)
    f = BinaryFile("f%d.bin" % i)
    f.add_dataset("x", "i4")
    assert f["x"][()] == i
    fs.append(f)
n = sum(1 for l in open("/proc/self/maps") if os.getcwd() in l)
sys.exit(0 if n <= 32 else 1)
"""),
]
