U = "python/virgo/util/"
SEEDS = [
 dict(id="s31", property="C18", files={U + "partial_formatter.py": [
   ("            if len(format_spec) > 0:\n                format_spec=f\":{format_spec}\"\n", "            format_spec = f\":{format_spec}\" if format_spec.rstrip(\"ds\") else \"\"\n")]},
  needs="a field left for later whose format is only a type",
  breaks="the format is dropped, so that a value of another type is accepted later and written differently",
  demo='''import sys
from virgo.util.partial_formatter import PartialFormatter
f = PartialFormatter(ignore_missing=True)
sys.exit(0 if f.format("{a}{b:d}{c:s}", a=1) == "1{b:d}{c:s}" else 1)
'''),
 dict(id="s32", property="C18", files={U + "partial_formatter.py": [
   ("        elif (key in kwargs) and (kwargs[key] is None):\n", "        elif (key in kwargs) and not kwargs[key]:\n")]},
  needs="a value which is zero or empty",
  breaks="fields with such values are left unfilled",
  demo='''import sys
from virgo.util.partial_formatter import PartialFormatter
sys.exit(0 if PartialFormatter().format("{a}.{b:03d}", a=1, b=0) == "1.000" else 1)
'''),
 dict(id="s33", property="C18", files={U + "read_multi.py": [
   ("    for i in idx:\n", "    for i in sorted(set(idx)):\n")]},
  needs="file indexes which are not in ascending order, or repeated",
  breaks="arrays are joined in the order of the file numbers instead of the order given",
  demo='''import sys, h5py, numpy as np
from virgo.util.read_multi import read_multi
for i in range(3):
    h5py.File("f%d" % i, "w")["x"] = np.arange(2) + 10 * i
r = read_multi("f%(i)d", [2, 0], ["x"])
sys.exit(0 if list(r["x"]) == [20, 21, 0, 1] else 1)
'''),
 dict(id="s34", property="C18", files={"python/virgo/sims/eagle.py": [
   ("        cache[key] = m.group(1)\n", "        cache[key] = cache[(key[0], None, isnap)] = m.group(1)\n"),
   ("    if key in cache:\n", "    if key not in cache and dir_name == \"snapshot\" and (key[0], None, isnap) in cache:\n        cache[key] = cache[(key[0], None, isnap)]\n    if key in cache:\n")]},
  needs="snapshots and snipshots of the same number in one run, the snipshot asked for first",
  breaks="the snapshot's name gets the redshift of the snipshot",
  demo='''import os, sys
from virgo.sims.eagle import eagle_filename
want = []
for n, z in (("snipshot", "z001p000"), ("snapshot", "z005p000")):
    os.makedirs("d/%s_003_%s" % (n, z))
    want.append("d/%s_003_%s/%s_003_%s.0.hdf5" % (n, z, n, z))
    open(want[-1], "w").close()
got = [eagle_filename("d", n, 3, 0) for n in ("snipshot", "snapshot")]
print(got)
sys.exit(0 if got == want else 1)
'''),
]
