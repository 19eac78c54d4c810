M = "python/virgo/util/match.py"
R = "python/virgo/util/ranges.py"
P = "python/virgo/util/peano.py"
SEEDS = [
 dict(id="s14", property="C14", files={M: [("        arr2_n = asarray(arr2, dtype=arr2.dtype.newbyteorder(\"=\"))\n",
                                            "        arr2_n = arr2.view(arr2.dtype.newbyteorder(\"=\"))\n")]},
  needs="the second array is big endian and the first is not (or it is given as already sorted)",
  breaks="a byte swapped array is searched as if it was in native order: matches are not found",
  demo="""import numpy as np, sys
from virgo.util.match import match
a = np.array([5, 300, 2, 70000], dtype="<i4")
b = np.array([70000, 2, 300, 9], dtype=">i4")
sys.exit(0 if list(match(a, b)) == [-1, 2, 1, 0] else 1)
"""),
 dict(id="s15", property="C14", files={R: [("            sum_w = np.add.reduceat(weight[mask], np.cumsum(length_nz)-length_nz,\n",
                                            "            sum_w = np.add.reduceat(weight, offset_nz,\n")]},
  needs="a normalised, weighted sum over ranges which leave gaps between them",
  breaks="the weights of elements between the ranges are counted in the normalisation",
  demo="""import numpy as np, sys
from virgo.util.ranges import sum_ranges
a = np.arange(10, dtype=float); w = np.ones(10) * 2
r = sum_ranges(a, [0, 5], [3, 2], weight=w, normalize=True)
r2 = sum_ranges(a, [0, 3], [3, 7], weight=w, normalize=True)
sys.exit(0 if np.allclose(r, [1, 5.5]) and np.allclose(r2, [1, 6]) else 1)
"""),
 dict(id="s16", property="C15", files={P: [("    key      = zeros(x.shape, dtype=int64)\n",
                                            "    # Save memory if the keys are small enough\n    key      = zeros(x.shape, dtype=(int32 if bits <= 11 else int64))\n")]},
  needs="a grid of 11 bits per dimension, whose keys need 33 bits",
  breaks="keys of a 2048^3 grid overflow",
  demo="""import numpy as np, sys
from virgo.util import peano
t = np.random.default_rng(1)
for bits in (5, 11, 12):
    x, y, z = (t.integers(0, 2**bits, 500) for _ in range(3))
    k = peano.peano_hilbert_keys(x, y, z, bits)
    a, b, c = peano.peano_hilbert_key_inverses(k, bits)
    if k.min() < 0 or not (np.all(a == x) and np.all(b == y) and np.all(c == z)):
        sys.exit(1)
"""),
 dict(id="s17", property="C14", files={M: [("    ind  = tmp2[ptr] != tmp1\n    ptr[ind] = -1\n",
                                            "    ind  = (tmp2[ptr] - tmp1) > 0\n    ptr[ind] = -1\n")]},
  needs="a searched value which is larger than all elements of the second array",
  breaks="values larger than every element are matched to the smallest one",
  demo="""import numpy as np, sys
from virgo.util.match import match
sys.exit(0 if list(match(np.array([3, 9]), np.array([3, 4]))) == [0, -1] else 1)
"""),
]
