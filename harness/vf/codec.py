"""
Data abstraction: the specifications work with small integers; the driver
turns them into concrete numpy arrays (many dtypes, many magnitudes) and back.
Every codec is strictly increasing, so order and equality are preserved.
A value which is no image of an abstract value decodes to CORRUPT.
"""
import numpy as np

CORRUPT = 777777777

CODECS = {
    # name: (dtype, scale, bias)
    "raw":  ("i8", 1, 0),
    "i8":   ("i8", 1 << 33, 0),
    "i8b":  ("i8", 1 << 33, 7),
    "i8n":  ("i8", 3, -(1 << 61)),
    "i4":   ("i4", 1, 0),
    "i4s":  ("i4", 70001, 5),
    "i2":   ("i2", 1, 0),
    "i1":   ("i1", 1, 0),
    "u8":   ("u8", 1 << 40, 0),
    "u8r":  ("u8", 1, 0),
    "u8h":  ("u8", 3, (1 << 63) + 1000000),
    "u4":   ("u4", 1, 0),
    "u4h":  ("u4", 5, 3000000000),
    "u2":   ("u2", 1, 0),
    "u1":   ("u1", 1, 0),
    "f8":   ("f8", 2.0 ** -20, 0),
    "f8b":  ("f8", 1024.0, 0),
    "f4":   ("f4", 0.25, 0),
}
# "blk": one abstract element stands for BLOCK consecutive 8 byte integers
BLOCK = 1 << 20
CODECS["blk"] = ("i8", BLOCK, 0)
LINEAR = [k for k, v in CODECS.items() if v[2] == 0]


def encode(vals, codec, shape1=()):
    """vals: nested list (n, *shape1) of abstract ints -> array"""
    dt, scale, bias = CODECS[codec]
    n = len(vals)
    if codec == "blk":
        out = np.empty((n, BLOCK), dtype=dt)
        for i, v in enumerate(vals):
            out[i] = np.arange(v * BLOCK, (v + 1) * BLOCK, dtype=dt)
        return out.reshape(-1)
    if dt[0] == "f":
        a = np.asarray(vals, dtype="f8").reshape((n,) + tuple(shape1))
        return (a * scale + bias).astype(dt)
    flat = np.asarray(vals, dtype=object).reshape(-1)
    out = np.empty(flat.shape, dtype=dt)
    for i, v in enumerate(flat):
        out[i] = int(v) * scale + bias
    return out.reshape((n,) + tuple(shape1))


def decode(arr, codec):
    dt, scale, bias = CODECS[codec]
    a = np.asarray(arr)
    if codec == "blk":
        out = []
        for i in range(0, len(a), BLOCK):
            b = a[i:i + BLOCK]
            v = int(b[0])
            good = len(b) == BLOCK and v % BLOCK == 0 and \
                np.array_equal(b, np.arange(v, v + BLOCK, dtype=a.dtype))
            out.append(v // BLOCK if good and abs(v) < 2**50 else CORRUPT)
        return out
    if a.dtype.kind == "f":
        flat = []
        for v in a.reshape(-1).tolist():
            x = (v - bias) / scale
            flat.append(int(x) if x == x and abs(x) < 2e9 and x == int(x) else CORRUPT)
    else:
        flat = []
        for v in a.reshape(-1).tolist():
            v = int(v) - bias
            flat.append(v // scale if v % scale == 0 and abs(v // scale) < 2000000000 else CORRUPT)
    return nest(flat, a.shape)


def nest(flat, shape):
    if len(shape) == 1:
        return flat
    k = 1
    for s in shape[1:]:
        k *= s
    return [nest(flat[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])]


def kind_of(codec):
    return np.dtype(CODECS[codec][0])
