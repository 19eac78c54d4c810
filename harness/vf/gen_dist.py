"""Seeded random programs over distributed arrays (the specification decides them)."""

ORDER_CODECS = ["i8", "i8b", "i8n", "i4", "i4s", "i2", "f8", "f8b", "f4", "raw"]
POS_CODECS = ["u8", "u8h", "u4", "u4h", "u2"]
COMMS = ["world", "world", "default", "rev", "sub", "even"]


def comm_size(kind, np):
    if kind == "sub":
        return np - 1 if np > 1 else 1
    if kind == "even":
        return (np + 1) // 2
    return np


def partition(rng, n, p, mode=None):
    """Split n elements over p ranks in one of several characteristic ways."""
    mode = mode or rng.choice(["even", "random", "random", "gaps", "gaps", "one", "first", "last", "skew"])
    if mode == "even":
        return [n // p + (1 if i < n % p else 0) for i in range(p)]
    c = [0] * p
    if mode == "one":
        c[rng.randrange(p)] = n
    elif mode == "first":
        c[0] = n
    elif mode == "last":
        c[-1] = n
    elif mode == "gaps":
        live = [i for i in range(p) if rng.random() < 0.6] or [rng.randrange(p)]
        for _ in range(n):
            c[rng.choice(live)] += 1
    elif mode == "skew":
        for _ in range(n):
            c[min(p - 1, int(rng.expovariate(1.2)))] += 1
    else:
        for _ in range(n):
            c[rng.randrange(p)] += 1
    return c


def cut(flat, counts):
    out, o = [], 0
    for c in counts:
        out.append(flat[o:o + c])
        o += c
    return out


def values(rng, n, lo=-40, hi=40, mode=None):
    mode = mode or rng.choice(["wide", "few", "few", "same", "sorted", "reverse", "runs", "distinct"])
    if mode == "distinct" and n > hi - lo + 1:
        mode = "wide"
    if mode == "few":
        pool = [rng.randint(lo, hi) for _ in range(rng.randint(1, 4))]
        return [rng.choice(pool) for _ in range(n)]
    if mode == "same":
        v = rng.randint(lo, hi)
        return [v] * n
    if mode == "runs":
        out = []
        while len(out) < n:
            out += [rng.randint(lo, hi)] * rng.randint(1, max(1, n // 2))
        return out[:n]
    if mode == "distinct":
        k = max(n, hi - lo + 1)
        return rng.sample(range(lo, lo + k), n)
    out = [rng.randint(lo, hi) for _ in range(n)]
    if mode == "sorted":
        out.sort()
    elif mode == "reverse":
        out.sort(reverse=True)
    return out


def codec_range(codec):
    if codec in ("i2",):
        return -300, 300
    if codec in ("i1",):
        return -100, 100
    if codec == "u1":
        return 0, 200
    if codec[0] == "u":
        return 0, 80
    return -40, 40


def pick_codec(rng):
    return rng.choice(ORDER_CODECS + POS_CODECS)


def size(rng, np, big=False):
    r = rng.random()
    if r < 0.05:
        return 0
    if r < 0.25:
        return rng.randint(1, 3)
    if r < 0.8:
        return rng.randint(1, 6 * np)
    return rng.randint(1, 200 if big else 60)


def new(dst, flat, counts, codec="raw", **kw):
    d = {"op": "new", "dst": dst, "val": cut(flat, counts), "codec": codec}
    d.update(kw)
    return d


class Gen:
    def __init__(self, rng, np, big=False):
        self.rng, self.np, self.big = rng, np, big
        self.n = 0

    def program(self, kind):
        self.n += 1
        comm = self.rng.choice(COMMS)
        p = comm_size(comm, self.np)
        steps = getattr(self, "p_" + kind)(p)
        return {"id": "%s-%d" % (kind, self.n), "comm": comm, "steps": steps}

    # one random array
    def arr(self, dst, p, n=None, codec=None, mode=None, vmode=None, units=True, lo=None, hi=None, shape1=None):
        rng = self.rng
        n = size(rng, p, self.big) if n is None else n
        codec = codec or pick_codec(rng)
        l, h = codec_range(codec)
        l = l if lo is None else lo
        h = h if hi is None else hi
        flat = values(rng, n, l, h, vmode)
        kw = {}
        if units and rng.random() < 0.15:
            kw["units"] = rng.choice(["cm", "g", "km/s"])
        if rng.random() < 0.1:
            kw["layout"] = "endian"
        if shape1:
            k = 1
            for s in shape1:
                k *= s
            def mk(v):
                a = [v] + [rng.randint(l, h) for _ in range(k - 1)]
                if len(shape1) == 1:
                    return a
                w = k // shape1[0]
                return [a[i * w:(i + 1) * w] for i in range(shape1[0])]
            flat = [mk(v) for v in flat]
            kw["shape1"] = list(shape1)
        c = partition(rng, n, p, mode)
        return new(dst, flat, c, codec, **kw)

    def p_sort(self, p):
        rng = self.rng
        s = [self.arr("a", p)]
        if rng.random() < 0.3:
            s[0]["val"] = cut(sum(s[0]["val"], []), partition(rng, sum(map(len, s[0]["val"])), p))
        s.append({"op": "sort", "a": "a", "index": rng.choice(["i", "i", ""])})
        return s

    def p_sortfetch(self, p):
        """sort with an index, then apply the index to the unsorted copy and to another array"""
        rng = self.rng
        a = self.arr("a", p)
        b = dict(a)
        b["dst"] = "b"
        counts = [len(x) for x in a["val"]]
        n = sum(counts)
        c = new("c", values(rng, n, 0, 90), counts, "raw")
        return [a, b, c, {"op": "sort", "a": "a", "index": "i"},
                {"op": "fetch", "a": "b", "index": "i", "dst": "d"},
                {"op": "fetch", "a": "c", "index": "i", "dst": "f"},
                {"op": "sort", "a": "i", "index": "j"},
                {"op": "fetch", "a": "f", "index": "j", "dst": "g"}]

    def shape1(self):
        rng = self.rng
        return rng.choice([None, None, (1,), (2,), (3,), (2, 2)])

    def p_fetch(self, p):
        rng = self.rng
        n = max(1, size(rng, p, self.big))
        a = self.arr("a", p, n=n, shape1=self.shape1())
        m = size(rng, p, self.big)
        vm = rng.choice(["wide", "few", "sorted", "reverse", "same"])
        ix = values(rng, m, 0, n - 1, vm)
        i = new("i", ix, partition(rng, m, p), rng.choice(["raw", "i4"]))
        st = {"op": "fetch", "a": "a", "index": "i", "dst": "b"}
        if rng.random() < 0.3 and not a.get("units"):
            st["into"] = True
        return [a, i, st]

    def p_repart(self, p):
        rng = self.rng
        a = self.arr("a", p, shape1=self.shape1())
        n = sum(len(x) for x in a["val"])
        s = [a]
        cur = "a"
        for k in range(rng.randint(1, 3)):
            d = "b%d" % k
            s.append({"op": "repart", "a": cur, "ndesired": partition(rng, n, p), "dst": d,
                      "as": rng.choice(["list", "array"])})
            cur = d
        return s

    def p_match(self, p):
        rng = self.rng
        codec = pick_codec(rng)
        lo, hi = codec_range(codec)
        span = rng.choice([3, 10, hi - lo])
        lo2 = rng.choice([lo, lo, max(lo, (lo + hi) // 2 - 5)])
        a = self.arr("a", p, codec=codec, lo=lo2, hi=min(hi, lo2 + span), units=False)
        b = self.arr("b", p, codec=codec, lo=lo2, hi=min(hi, lo2 + span), units=False)
        a.pop("layout", 0), b.pop("layout", 0)
        if rng.random() < 0.3:   # permutation of each other, plus strangers
            n = size(rng, p, self.big)
            pool = values(rng, n, lo, hi, "distinct") if n <= hi - lo else values(rng, n, lo, hi, "wide")
            q = pool[:]
            rng.shuffle(q)
            q = q[:rng.randint(0, n)]
            a = new("a", q, partition(rng, len(q), p), codec)
            b = new("b", pool, partition(rng, n, p), codec)
        s = [a, b, {"op": "match", "a": "a", "b": "b", "dst": "m"}]
        if rng.random() < 0.4:
            s += [{"op": "sort", "a": "b", "index": "i"},
                  {"op": "match", "a": "a", "b": "b", "sorted": True, "dst": "ms"}]
        return s

    def p_unique(self, p):
        rng = self.rng
        a = self.arr("a", p)
        s = [a]
        srt = rng.random() < 0.4
        if srt:
            s.append({"op": "sort", "a": "a", "index": ""})
        s.append({"op": "unique", "a": "a", "sorted": srt, "counts": rng.choice(["c", "c", ""]),
                  "repart": rng.random() < 0.5, "dst": "u"})
        return s

    def p_reduce(self, p):
        rng = self.rng
        n = max(1, size(rng, p, self.big))
        m = size(rng, p, self.big)
        sh = self.shape1()
        fn = rng.choice(["add", "maximum", "minimum", "multiply", "SUM", "MAX", "MIN", "PROD"])
        if fn in ("multiply", "PROD"):
            codec, lo, hi = rng.choice(["raw", "i4"]), -2, 2
            m = min(m, 25)
        else:
            codec = rng.choice(["raw", "i8", "i4", "f8", "f4", "u4"])
            lo, hi = (0, 50) if codec == "u4" else (-50, 50)
        a = self.arr("a", p, n=n, codec=codec, lo=lo, hi=hi, shape1=sh, units=False)
        u = self.arr("u", p, n=m, codec=codec, lo=lo, hi=hi, shape1=sh, units=False)
        a.pop("layout", 0), u.pop("layout", 0)
        counts = [len(x) for x in u["val"]]
        vm = rng.choice(["wide", "few", "same", "distinct"]) if m <= n else rng.choice(["wide", "few", "same"])
        ix = values(rng, m, 0, n - 1, vm if vm != "distinct" else "wide")
        i = new("i", ix, counts, "raw")
        return [a, u, i, {"op": "reduce", "a": "a", "upd": "u", "index": "i", "fn": fn,
                          "nd": len(sh) if sh else 0}]

    def p_bincount(self, p):
        rng = self.rng
        n = size(rng, p, self.big)
        hi = rng.choice([0, 2, 7, 40])
        x = self.arr("x", p, n=n, codec=rng.choice(["raw", "i4", "i2", "i1", "u1", "u2", "u4", "u8r", "raw"]),
                     lo=0, hi=hi, units=False, vmode=rng.choice(["wide", "few", "same", "sorted", "runs"]))
        x.pop("layout", 0)
        counts = [len(q) for q in x["val"]]
        s = [x]
        st = {"op": "bincount", "x": "x", "dst": "r"}
        wc = "raw"
        if rng.random() < 0.6:
            wc = rng.choice(["raw", "i4", "f8", "f8b", "f4", "i8"])
            w = new("w", values(rng, n, -30, 30), counts, wc)
            s.append(w)
            st["w"] = "w"
        if rng.random() < 0.4:
            st["minlength"] = rng.randint(0, 50)
        if rng.random() < 0.35:
            xs = sum(x["val"], [])
            need = max([0] + xs) + 1
            need = max(need, st.get("minlength", 0) or 0)
            tot = need + rng.randint(0, 5)
            r = new("base", values(rng, tot, -20, 20, "wide"), partition(rng, tot, p), wc)
            s.append(r)
            st["into"] = "base"
        s.append(st)
        return s

    def p_alltoallv(self, p):
        rng = self.rng
        mx = rng.choice([1, 3, 8])
        sc = [[rng.choice([0, rng.randint(0, mx)]) for _ in range(p)] for _ in range(p)]
        # layout of the send buffers: permuted blocks, gaps, possibly overlapping sources
        soff, slen = [], []
        for r in range(p):
            order = list(range(p))
            rng.shuffle(order)
            o, off = 0, [0] * p
            for q in order:
                o += rng.choice([0, 0, 2])
                off[q] = o
                o += sc[r][q]
            if rng.random() < 0.2:
                off = [0 if sc[r][q] <= o else off[q] for q in range(p)]
            soff.append(off)
            slen.append(o + rng.choice([0, 1]))
        roff, rlen = [], []
        for q in range(p):
            order = list(range(p))
            rng.shuffle(order)
            o, off = 0, [0] * p
            for r in order:
                o += rng.choice([0, 0, 1])
                off[r] = o
                o += sc[r][q]
            roff.append(off)
            rlen.append(o + rng.choice([0, 2]))
        codec = pick_codec(rng)
        lo, hi = codec_range(codec)
        a = {"op": "new", "dst": "a", "codec": codec,
             "val": [[rng.randint(lo, hi) for _ in range(slen[r])] for r in range(p)]}
        return [a, {"op": "alltoallv", "a": "a", "dst": "b", "scount": sc, "soff": soff,
                    "rcount": [[sc[r][q] for r in range(p)] for q in range(p)],
                    "roff": roff, "rlen": rlen, "fill": hi,
                    "method": rng.choice(["hypercube", "async", None])}]

    def p_sendrecv(self, p):
        rng = self.rng
        peer = [-1] * p
        left = list(range(p))
        rng.shuffle(left)
        while len(left) > 1:
            x, y = left.pop(), left.pop()
            if rng.random() < 0.85:
                peer[x], peer[y] = y, x
        if left and rng.random() < 0.5:
            peer[left[0]] = left[0]     # exchange with itself
        codec = pick_codec(rng)
        lo, hi = codec_range(codec)
        lens = [rng.choice([0, 1, rng.randint(0, 12)]) for _ in range(p)]
        a = {"op": "new", "dst": "a", "codec": codec,
             "val": [[rng.randint(lo, hi) for _ in range(lens[r])] for r in range(p)]}
        return [a, {"op": "sendrecv", "a": "a", "dst": "b", "peer": peer, "fill": hi,
                    "rlen": [lens[peer[r]] if peer[r] >= 0 else 2 for r in range(p)],
                    "nchunk": rng.choice([None, 1, 2, 3, 5])}]

    def p_gather(self, p):
        rng = self.rng
        how = rng.choice(["all", "root", "root", "first"])
        axis = 0
        if how != "first" and rng.random() < 0.3:
            # gather along the second axis: same number of rows on every rank
            rows = rng.randint(1, 4)
            codec = pick_codec(rng)
            lo, hi = codec_range(codec)
            # same width everywhere along axis 0 of the swapped array is not required
            width = [rng.randint(1, 3) for _ in range(p)]
            if len(set(width)) > 1 or True:
                w = rng.randint(1, 3)
                width = [w] * p
            val = [[[rng.randint(lo, hi) for _ in range(width[r])] for _ in range(rows)] for r in range(p)]
            a = {"op": "new", "dst": "a", "codec": codec, "val": val, "shape1": [width[0]]}
            axis = 1
        else:
            a = self.arr("a", p, shape1=self.shape1(), units=False)
            a.pop("layout", 0)
        return [a, {"op": "gather", "a": "a", "how": how, "axis": axis, "root": rng.randrange(p), "dst": "g"}]

    def p_gather2d(self, p):
        rng = self.rng
        k = rng.randint(1, 5)
        codec = pick_codec(rng)
        lo, hi = codec_range(codec)
        a = {"op": "new", "dst": "a", "codec": codec,
             "val": [[rng.randint(lo, hi) for _ in range(k)] for _ in range(p)]}
        return [a, {"op": "gather2d", "a": "a", "dst": "g"}]

    def p_nonezero(self, p):
        rng = self.rng
        none = [rng.random() < 0.5 for _ in range(p)]
        a = self.arr("a", p, shape1=self.shape1(), units=False)
        a.pop("layout", 0)
        if rng.random() < 0.3:
            a["layout"] = "big"
        return [a, {"op": "nonezero", "a": "a", "none": none, "dst": "b"}]

    def p_groups(self, p):
        rng = self.rng
        ng = rng.choice([0, 1, 2, rng.randint(0, 3 * p), rng.randint(0, 30)])
        off, lens = [], []
        o = 0
        gaps = rng.random() < 0.5
        for _ in range(ng):
            if gaps:
                o += rng.choice([0, 0, 1, 4])
            ln = rng.choice([0, 1, rng.randint(0, 5), rng.randint(0, 15)])
            off.append(o)
            lens.append(ln)
            o += ln
        n = o + rng.choice([0, 0, 3, 20])
        gp = partition(rng, ng, p)
        codec = rng.choice(["raw", "i4", "u4", "u4"])
        return [new("len", lens, gp, codec), new("off", off, gp, codec),
                {"op": "groups", "len": "len", "off": "off", "nids": partition(rng, n, p),
                 "rank": rng.choice(["k", "k", ""]), "dst": "g"}]

    def p_halos(self, p):
        rng = self.rng
        nid = rng.choice([0, 1, rng.randint(1, 12), rng.randint(1, 50)])
        ids = rng.sample(range(1, 200), nid)
        id1 = [i for i in ids if rng.random() < 0.9]
        id2 = [i for i in ids if rng.random() < 0.9]
        rng.shuffle(id1)
        rng.shuffle(id2)
        nh1 = rng.choice([1, 2, p, p + 1, rng.randint(1, 9)])
        nh2 = rng.choice([1, 2, rng.randint(1, 9)])
        g1 = [rng.randint(-1, nh1 - 1) for _ in id1]
        g2 = [rng.randint(-1, nh2 - 1) for _ in id2]
        c1, c2 = partition(rng, len(id1), p), partition(rng, len(id2), p)
        idc = rng.choice(["raw", "i8b", "u8h", "i4"])
        gc = rng.choice(["raw", "i4"])
        return [new("g1", g1, c1, gc), new("i1", id1, c1, idc), new("g2", g2, c2, gc), new("i2", id2, c2, idc),
                {"op": "halos", "g1": "g1", "i1": "i1", "g2": "g2", "i2": "i2",
                 "nlocal": partition(rng, nh1, p), "dst": "m"}]

    def p_consistent(self, p):
        rng = self.rng
        n1, n2 = rng.randint(0, 10), rng.randint(1, 10)
        m12 = [rng.randint(-1, n2 - 1) for _ in range(n1)]
        m21 = [rng.randint(-1, max(0, n1 - 1)) for _ in range(n2)]
        for i, j in enumerate(m12):
            if j >= 0 and rng.random() < 0.5:
                m21[j] = i
        return [new("x", m12, partition(rng, n1, p)), new("y", m21, partition(rng, n2, p)),
                {"op": "consistent", "m12": "x", "m21": "y", "dst": "r"}]
