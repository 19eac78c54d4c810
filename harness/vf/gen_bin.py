"""Programs over binary files (see spec/BinTrace.tla)."""

TYPES = ["<i4", "i4", "i8", "i2", "i1", "u1", "u2", "u4", "u8", "f4", "f8", ">i4", ">f8", ">u2", "S3", "S8", "c8", "c16"]
SIZE = {"i": 0}
PATHS = [["a"], ["b"], ["c"], ["g", "a"], ["g", "b"], ["g", "h", "a"], ["g", "h", "c"], ["h"], ["h", "x"], ["g"], ["k", "a"]]


def itemsize(t):
    t = t.lstrip("<>")
    return int(t[1:])


def nel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class BinGen:
    def __init__(self, rng):
        self.rng = rng

    def shape(self, big=False):
        r = self.rng
        return r.choice([[], [], [1], [r.randint(0, 6)], [r.randint(0, 6)], [r.randint(0, 3), r.randint(1, 3)],
                         [2, r.randint(1, 2), 2]])

    def rbytes(self, n, lo=0):
        r = self.rng
        return [r.choice([lo, 255, 127, 128, r.randint(lo, 255), r.randint(lo, 255)]) for _ in range(n)]

    def selection(self, shape):
        """a key for numpy and what it selects"""
        r = self.rng
        full = lambda n: {"idx": list(range(n)), "keep": True}
        z = r.random()
        if z < 0.2 or not shape:
            return r.choice(["...", "()"]), [full(n) for n in shape]
        if z < 0.3 and shape[0] > 0:
            k = [r.randrange(shape[0]) for _ in range(r.randint(1, 4))]
            return [k], [{"idx": k, "keep": True}] + [full(n) for n in shape[1:]]
        key, ax = [], []
        m = r.randint(1, len(shape))
        for n in shape[:m]:
            if n > 0 and r.random() < 0.35:
                i = r.randrange(-n, n)
                key.append(i)
                ax.append({"idx": [i % n], "keep": False})
            else:
                sl = [r.choice([None, r.randint(-n - 1, n + 1)]), r.choice([None, r.randint(-n - 1, n + 2)]),
                      r.choice([None, None, 1, 2, 3, -1, -2])]
                key.append({"slice": sl})
                ax.append({"idx": list(range(*slice(*sl).indices(n))), "keep": True})
        rest = [full(n) for n in shape[m:]]
        if r.random() < 0.3:
            key.append("...")
        # numpy integer scalars: an index which removes all axes still selects one element
        return key, ax + rest

    def layout(self, obj, path_ok=True, faults=True, records=True, nblocks=None, strings=True):
        """declarations of one file: (ops, bytes, items)"""
        r = self.rng
        ops, data, items = [], [], []
        dsets, groups, attrs = [], [[]], []
        fo = r.choice("<>")
        types = [t for t in TYPES if strings or t[0] != "S"]
        lo = 1 if strings else 0
        setat = r.choice(["start", "end", "no", "middle"])
        conv = lambda: r.choice([{"op": "endian", "obj": obj, "to": fo},
                                 {"op": "byteswap", "obj": obj, "to": fo == ">"}])
        cur = "<"
        if setat == "start":
            ops.append(conv())
            cur = fo
        n = nblocks or r.randint(1, 8)
        inrec = None
        bad = False

        def clash(p, at):
            if p in (attrs if at else dsets + groups):
                return True
            for k in range(1, len(p)):
                if p[:k] in dsets and not (at and k == len(p) - 1):
                    return True
            return False

        for i in range(n):
            if setat == "middle" and i == n // 2 and inrec is None:
                ops.append(conv())
                cur = fo
            if records and inrec is None and r.random() < 0.25:
                auto = r.random() < 0.4
                inrec = (len(ops), len(data), auto)
                ops.append({"op": "start", "obj": obj, "auto": auto})
                data += [0, 0, 0, 0]
            z = r.random()
            t, sh = r.choice(types), self.shape()
            if z < 0.08 and faults:
                k = r.randint(0, 5)
                ops.append({"op": "skip", "obj": obj, "n": k})
                data += self.rbytes(k, lo)
            elif z < 0.16:
                ops.append({"op": "ras", "obj": obj, "t": t, "shape": sh, "path": [], "attr": False})
                data += self.rbytes(itemsize(t) * nel(sh), lo)
            else:
                at = r.random() < 0.3
                p = r.choice(PATHS)
                if at and r.random() < 0.5 and dsets:
                    p = r.choice(dsets) + [r.choice("xyz")]
                if at and any(p[:k] in dsets for k in range(1, len(p) - 1)):
                    continue
                c = clash(p, at)
                if c and not (faults and r.random() < 0.4):
                    continue
                ops.append({"op": "add", "obj": obj, "path": p, "attr": at, "t": t, "shape": sh,
                            "slash": r.random() < 0.1})
                if not c:
                    data += self.rbytes(itemsize(t) * nel(sh), lo)
                    items.append((p, at, t, sh))
                    if at:
                        attrs.append(p)
                    else:
                        dsets.append(p)
                    if not (at and p[:-1] in dsets):
                        for k in range(1, len(p)):
                            if p[:k] not in groups:
                                groups.append(p[:k])
            if inrec is not None and (i == n - 1 or r.random() < 0.5):
                _, start, auto = inrec
                ln = len(data) - start - 4
                o = "little" if (fo == "<") else "big"
                if not auto and not bad:
                    # without automatic swapping the marker must be in the order in force
                    o = "little" if cur == "<" else "big"
                    if faults and r.random() < 0.1:
                        o = "big"
                m1, m2 = ln, ln
                if faults and r.random() < 0.12:
                    w = r.random()
                    if w < 0.4:
                        m1 = m2 = ln + r.choice([-1, 1, 256, 8])
                    elif w < 0.7:
                        m2 = ln + 1
                    else:
                        m1 = ln + 1
                    bad = True
                data[start:start + 4] = list(m1.to_bytes(4, o, signed=True))
                data += list(m2.to_bytes(4, o, signed=True))
                ops.append({"op": "stop", "obj": obj})
                if auto:
                    cur = "<" if o == "little" else ">"
                inrec = None
        if setat == "end" and inrec is None:
            ops.append(conv())
        if not data:
            data = self.rbytes(4, lo)
        return ops, data, items

    def get(self, obj, item):
        r = self.rng
        p, at, t, sh = item
        g = {"op": "get", "obj": obj, "path": p, "attr": at, "t": t, "how": "item"}
        if at:
            g["how"] = r.choice(["item", "walk"])
            g["ax"] = [{"idx": list(range(n)), "keep": True} for n in sh]
            return g
        g["how"] = r.choice(["item", "item", "item", "walk", "asarray", "value", "iter"])
        if g["how"] == "iter" and not sh:
            g["how"] = "value"
        if g["how"] in ("item", "walk"):
            g["key"], g["ax"] = self.selection(sh)
        if g["how"] == "walk":
            g["key"], g["ax"] = "...", [{"idx": list(range(n)), "keep": True} for n in sh]
        if "ax" not in g:
            g["ax"] = [{"idx": list(range(n)), "keep": True} for n in sh]
        return g

    # -- C16 -----------------------------------------------------------------
    def decode(self):
        r = self.rng
        ops, data, items = self.layout("o", records=r.random() < 0.6)
        z = r.random()
        if z < 0.15 and len(data) > 1:
            data = data[:-r.randint(1, min(len(data) - 1, 9))]
        elif z < 0.3:
            data = data + self.rbytes(r.randint(1, 9), 1)
        p = [{"op": "begin", "files": {"f.bin": data}}, {"op": "open", "obj": "o", "file": "f.bin"}]
        seen = []
        it = iter(items)
        nadd = 0
        for s in ops:
            p.append(s)
            if s["op"] == "add":
                seen = [x for x in items if x[0] == s["path"] and x[1] == s["attr"]]
                if seen and r.random() < 0.4:
                    p.append(self.get("o", seen[0]))
        for x in items:
            p.append(self.get("o", x))
        if items:
            for _ in range(r.randint(0, 3)):
                p.append(r.choice([{"op": "toggle", "obj": "o"}, {"op": "endian", "obj": "o", "to": r.choice("<>=")},
                                   {"op": "byteswap", "obj": "o", "to": r.random() < 0.5}]))
                for x in r.sample(items, min(2, len(items))):
                    p.append(self.get("o", x))
        gs = [[]] + [x[0][:-1] for x in items if len(x[0]) > 1 and not x[1]]
        p.append({"op": "keys", "obj": "o", "path": r.choice(gs)})
        p.append({"op": "get", "obj": "o", "path": ["nonesuch"], "attr": False, "t": "i4", "how": "item", "key": "...", "ax": []})
        p.append({"op": "used", "obj": "o"})
        return p

    def longrecord(self, n, o, auto):
        m = list(n.to_bytes(4, o))
        return [{"op": "begin", "files": {"f.bin": m + [1] * n + m}}, {"op": "open", "obj": "o", "file": "f.bin"},
                {"op": "start", "obj": "o", "auto": auto},
                {"op": "add", "obj": "o", "path": ["a"], "attr": False, "t": "i1", "shape": [n]},
                {"op": "stop", "obj": "o"},
                {"op": "add", "obj": "o", "path": ["b"], "attr": False, "t": "i4", "shape": []}]

    # -- C17 -----------------------------------------------------------------
    def export(self):
        r = self.rng
        strings = r.random() < 0.5
        ops, data, items = self.layout("o", faults=r.random() < 0.4, records=r.random() < 0.4, strings=strings)
        if r.random() < 0.15:
            data = data + self.rbytes(r.randint(1, 4), 1)
        if r.random() < 0.1 and len(data) > 1:
            data = data[:-1]
        p = [{"op": "begin", "files": {"f.bin": data}}, {"op": "open", "obj": "o", "file": "f.bin"}] + ops
        p.append({"op": "used", "obj": "o"})
        kind = r.choice(["sha1", "sha1", "md5", "sha256"])
        p += [{"op": "rawhash", "file": "f.bin", "kind": kind}, {"op": "hash", "obj": "o", "kind": kind}]
        types = {"/".join(x[0]) + ("@" if x[1] else ""): x[2] for x in items}
        p.append({"op": "h5", "obj": "o", "types": types, "gzip": r.choice([None, 0, 0, 9]), "into": r.random() < 0.2})
        p.append({"op": "wb", "obj": "o", "file": "w.bin", "order": ""})
        p.append({"op": "wb", "obj": "o", "file": "v.bin", "order": r.choice(["<", ">"])})
        if r.random() < 0.3:
            p.append({"op": "wb", "obj": "o", "file": "w.bin", "order": ""})
        return p

    def swapped(self):
        """a file and its copy in the opposite byte order have the same digest"""
        r = self.rng
        ops, data, items = self.layout("o", faults=False, records=False)
        ops.append({"op": "add", "obj": "o", "path": ["last"], "attr": False, "t": "u2", "shape": [1]})
        data = (data if sum(itemsize(s["t"]) * nel(s["shape"]) for s in ops[:-1] if "t" in s) else []) + [7, 9]
        p = [{"op": "begin", "files": {"f.bin": data}}, {"op": "open", "obj": "o", "file": "f.bin"}] + ops
        p += [{"op": "hash", "obj": "o", "kind": "sha1"}, {"op": "wb", "obj": "o", "file": "w.bin", "order": ">"},
              {"op": "open", "obj": "q", "file": "w.bin"}]
        p += [dict(s, obj="q") for s in ops if s["op"] in ("add", "ras", "skip")]
        p += [{"op": "endian", "obj": "q", "to": ">"}, {"op": "hash", "obj": "q", "kind": "sha1"}]
        p += [self.get("q", x) for x in items]
        p += [{"op": "rawhash", "file": "w.bin", "kind": "sha1"}]
        return p

    def cleanup(self, p):
        return p

    def history(self, hist, nfiles, maxf):
        """a TLC-generated history: objects 0.. on files obj % nfiles"""
        r = self.rng
        files = {"f%d" % i: self.rbytes(4) + [i] for i in range(nfiles)}
        p = [{"op": "begin", "files": files, "max_files": maxf}]
        objs = sorted({h[1] for h in hist})
        decl = lambda o: [{"op": "open", "obj": "o%d" % o, "file": "f%d" % (o % nfiles)},
                          {"op": "add", "obj": "o%d" % o, "path": ["a"], "attr": False, "t": "u1", "shape": [4]},
                          {"op": "add", "obj": "o%d" % o, "path": ["b"], "attr": True, "t": "u1", "shape": []}]
        for o in objs:
            p += decl(o)
        for op, o in hist:
            if op == "get":
                at = r.random() < 0.3
                it = (["b"], True, "u1", []) if at else (["a"], False, "u1", [4])
                p.append(self.get("o%d" % o, it))
            elif op == "close":
                p.append({"op": "close", "obj": "o%d" % o})
            else:
                p.append({"op": "drop", "obj": "o%d" % o})
                p += decl(o)
        return p

    def longhistory(self, nfiles, steps, maxf=None, chdir=False):
        r = self.rng
        dirs = ["d0", "d1"] if chdir else ["."]
        names = ["f%d" % i for i in range(nfiles)]
        files = {}
        for d in dirs:
            for i, n in enumerate(names):
                files[n if d == "." else d + "/" + n] = self.rbytes(r.randint(8, 20))
        begin = {"op": "begin", "files": dict(files)}
        if maxf:
            begin["max_files"] = maxf
        p = [begin]
        live = {}      # obj -> [file, items, mapped]
        cwd = "."
        k = 0
        for _ in range(steps):
            z = r.random()
            if chdir and z < 0.05:
                cwd = r.choice(dirs)
                p.append({"op": "chdir", "to": cwd})
            elif z < 0.25 or not live:
                if chdir and cwd == ".":
                    cwd = r.choice(dirs)
                    p.append({"op": "chdir", "to": cwd})
                n = r.choice(names)
                f = n if cwd == "." else cwd + "/" + n
                o = "o%d" % k
                k += 1
                s = {"op": "open", "obj": o, "file": f}
                if chdir and r.random() < 0.8:
                    s["name"] = n
                p.append(s)
                items = []
                m = False
                if r.random() < 0.3:
                    p.append({"op": "ras", "obj": o, "t": "u2", "shape": [], "path": [], "attr": False})
                    m = True
                for path, at, t, sh in ((["a"], False, ">u2", [2]), (["g", "x"], True, "u1", []), (["g", "b"], False, "u1", [3])):
                    if r.random() < 0.7 or (path == ["g", "b"] and not items):
                        p.append({"op": "add", "obj": o, "path": path, "attr": at, "t": t, "shape": sh})
                        items.append((path, at, t, sh))
                live[o] = [f, items, m]
            elif z < 0.72:
                o = r.choice(list(live)) if r.random() < 0.6 else list(live)[r.randrange(max(1, len(live) // 3))]
                p.append(self.get(o, r.choice(live[o][1])))
                live[o][2] = True
            elif z < 0.80:
                o = r.choice(list(live))
                c = {"op": "close", "obj": o}
                if r.random() < 0.3:
                    c["with"] = True
                live[o][2] = False
                p.append(c)
            elif z < 0.84:
                o = r.choice(list(live))
                ds = [x[0] for x in live[o][1] if not x[1]]
                if ds:
                    p.append({"op": "close", "obj": o, "path": r.choice(ds)})
            elif z < 0.92 and len(live) > 3:
                o = r.choice(list(live))
                del live[o]
                p.append({"op": "drop", "obj": o})
            else:
                f = r.choice(list(files))
                free = all(not (v[0] == f and v[2]) for v in live.values())
                if free and r.random() < 0.5:
                    b = self.rbytes(r.randint(8, 20))
                    files[f] = b
                    p.append({"op": "put", "file": f, "bytes": b, "replace": True})
                else:
                    b = self.rbytes(len(files[f]))
                    files[f] = b
                    p.append({"op": "put", "file": f, "bytes": b})
        return p
