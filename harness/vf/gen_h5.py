"""Seeded random programs of collective HDF5 operations."""
from . import gen_dist as gd

CODECS = ["i8", "i8b", "i4", "i2", "u8h", "u4h", "f8", "f4", "i1", "u1"]
ITEM = {"i8": 8, "i8b": 8, "i4": 4, "i2": 2, "u8h": 8, "u4h": 4, "f8": 8, "f4": 4, "i1": 1, "u1": 1}
SHAPES = [[], [], [], [3], [1], [2, 2], [2, 1, 3]]
ATTRS = [["a", 3], ["b", 2.5], ["vec", [1, 2, 3]], ["name", "metres"], ["m", [[1.0, 2.0], [3.0, 4.0]]], ["z", [0]]]


def width(rs):
    w = 1
    for x in rs:
        w *= x
    return w


def nest(flat, shape):
    from .codec import nest as n
    return n(flat, shape)


class Gen:
    def __init__(self, rng, np):
        self.rng, self.np = rng, np
        self.n = 0

    def pid(self, kind):
        self.n += 1
        return "%s%d" % (kind, self.n)

    def rows(self, n, rs):
        w = width(rs)
        return nest([self.rng.randint(0, 60) for _ in range(n * w)], [n] + rs)

    def attrs(self):
        r = self.rng
        return r.sample(ATTRS, r.choice([0, 0, 1, 2, 3]))

    def buffer(self, codec, rs, most=6):
        r = self.rng
        row = ITEM[codec] * width(rs)
        return r.choice([None, None, row, row * 2, row * 3 + 1, row * r.randint(1, most),
                         max(1, row - 1) if row > 1 else row, 1])

    # -- C10 ---------------------------------------------------------------
    def collective(self):
        r = self.rng
        names = ["x", "y", "z"]
        codecs = {n: r.choice(CODECS) for n in names}
        steps = []
        have = {}
        for n in r.sample(names, r.randint(1, 3)):
            rs = r.choice(SHAPES)
            tot = r.choice([0, 1, 2, self.np, self.np * 3, 10 * self.np - 1, 10 * self.np, 10 * self.np + 3, r.randint(0, 60)])
            grp = r.choice(["/", "/", "/g", "/g/h"])
            for again in range(r.choice([1, 1, 2])):
                parts = gd.cut(self.rows(tot, rs), gd.partition(r, tot, self.np))
                s = {"op": "cwrite", "file": "w", "group": grp, "name": n, "parts": parts,
                     "shapes": [rs] * self.np, "buffer": self.buffer(codecs[n], rs)}
                if again:
                    s["fill"] = True
                else:
                    z = r.random()
                    if z < 0.15:
                        s["gzip"] = r.choice([1, 6])
                        s["shuffle"] = r.random() < 0.5
                        if r.random() < 0.5:
                            s["chunk"] = r.randint(1, 5)
                    elif z < 0.25:
                        s["dcpl"] = True
                if r.random() < 0.15:
                    s["layout"] = "strided"
                if r.random() < 0.1:
                    s["order"] = ">" if not again else s.get("order")
                    s = {k: v for k, v in s.items() if v is not None}
                steps.append(s)
                have[n] = (grp, rs)
        for n, (grp, rs) in have.items():
            steps.append({"op": "cread", "file": "w", "group": grp, "name": n, "buffer": self.buffer(codecs[n], rs)})
        # a dataset written by something else, of either byte order
        rs = r.choice(SHAPES)
        tot = r.choice([0, 5, 10 * self.np - 1, 10 * self.np, 45])
        steps.append({"op": "make", "file": "q", "dsets": [
            {"p": "/s/x", "rows": self.rows(tot, rs), "rs": rs, "order": r.choice(["<", ">"]), "attrs": self.attrs()}]})
        steps.append({"op": "cread", "file": "q", "group": "/s", "name": "x", "buffer": self.buffer(codecs["x"], rs)})
        return {"id": self.pid("coll"), "codecs": codecs, "steps": steps}

    # -- C11, C12 ----------------------------------------------------------
    def fileset(self, nf, names, codecs, group, idx, prefix, how, always=None):
        r = self.rng
        shapes = {n: r.choice(SHAPES) for n in names}
        ats = {n: self.attrs() for n in names}
        order = {n: "<" for n in names}
        sparse = r.random() < 0.5
        style = r.choice(["few", "many", "some"])
        steps = []
        for j, i in enumerate(idx):
            ds = []
            have = group == "/" or r.random() < 0.85 or always
            for n in names:
                if not have or (sparse and r.random() < 0.4 and n != always):
                    continue
                cnt = r.choice([0, 0, 1, 2]) if style == "few" else r.randint(0, 12) if style == "some" else \
                    r.choice([0, 3, 10 * self.np, 25])
                p = ("" if group == "/" else group) + "/" + n
                ds.append({"p": p, "rows": self.rows(cnt, shapes[n]), "rs": shapes[n], "attrs": ats[n], "order": order[n]})
            if how == "attr":
                ds.append({"p": "/Header", "group": True, "attrs": [["NumFiles", nf]]})
            if how == "dset" and j == 0:
                ds.append({"p": "/nfiles", "rows": [nf]})
            if r.random() < 0.3:
                ds.append({"p": "/other/y9", "rows": self.rows(2, []), "attrs": self.attrs()})
            steps.append({"op": "make", "file": "%s%d" % (prefix, i), "dsets": ds})
        return steps, shapes

    def choose_set(self):
        r = self.rng
        nf = r.choice([1, 2, 3, self.np - 1, self.np, self.np + 1, 2 * self.np + 1, r.randint(1, 10)])
        nf = max(1, nf)
        how = r.choice(["list", "tuple", "idx", "idxarray", "attr", "attr", "dset"])
        if how in ("idx", "idxarray"):
            idx = r.sample(range(0, 30), nf)
            if r.random() < 0.5:
                idx.sort()
        else:
            idx = list(range(nf))
        return nf, how, idx

    def setargs(self, how, idx, prefix):
        return {"how": how, "set": ["%s%d" % (prefix, i) for i in idx], "idx": idx,
                "style": self.rng.choice(["brace", "percent"]) if how not in ("list", "tuple") else "percent"}

    def multiread(self):
        r = self.rng
        nf, how, idx = self.choose_set()
        names = ["x", "y", "z"][:r.randint(1, 3)]
        codecs = {n: r.choice(CODECS) for n in names}
        codecs["y9"] = codecs["nfiles"] = "raw"
        codecs["nfiles"] = "i4"
        group = r.choice(["/", "/", "/PartType1", "/a/b"])
        steps, shapes = self.fileset(nf, names, codecs, group, idx, "f", how)
        for _ in range(r.choice([1, 2])):
            want = r.sample(names, r.randint(1, len(names)))
            if r.random() < 0.2:
                want.append("absent")
            form = "single" if len(want) == 1 and r.random() < 0.5 else r.choice(["dict", "unpack"])
            s = dict({"op": "mfread", "names": want, "group": group, "form": form}, **self.setargs(how, idx, "f"))
            z = r.random()
            if z < 0.5:
                s["fnr"] = list(want)
            if r.random() < 0.5:
                s["attrs"] = True
            steps.append(s)
        return {"id": self.pid("mread"), "codecs": codecs, "steps": steps}

    def multiwrite(self):
        r = self.rng
        nf, how, idx = self.choose_set()
        names = ["x", "y"][:r.randint(1, 2)]
        codecs = {n: r.choice(["i8", "i8b", "i4", "f8", "u8h", "i2"]) for n in names + ["v", "w"]}
        codecs["y9"] = "raw"
        codecs["nfiles"] = "i4"
        group = r.choice(["/", "/", "/PartType1", "/a/b"])
        steps, shapes = self.fileset(nf, names, codecs, group, idx, "f", how, always="x")
        outs = []
        prefix = "f"
        mode = r.choice(["w", "w", "r+", "a"])
        if mode in ("w", "a"):
            prefix = "g"
        data = []
        for n in ["v", "w"][:r.choice([1, 2])]:
            data.append({"name": n, "rs": r.choice(SHAPES), "start": r.randint(0, 50), "attrs": self.attrs()})
        a = self.setargs(how, idx, "f")
        s = dict({"op": "mfwrite", "ref": "x", "group": group, "mode": mode, "data": data, "scale": r.choice([1, 1, 2, 3]),
                  "out": ["%s%d" % (prefix, i) for i in idx]}, **a)
        if how in ("list", "tuple"):
            s["outhow"] = r.choice(["list", "template"])
        else:
            s["outhow"] = r.choice(["list", "template", "template"])
        if r.random() < 0.15:
            s["gzip"] = 1
            s["shuffle"] = r.random() < 0.5
        steps.append(s)
        b = dict(a)
        b["set"] = s["out"]
        if prefix == "g" and how in ("attr", "dset"):
            b["how"] = "idx"
        rd = dict({"op": "mfread", "names": [d["name"] for d in data], "group": group, "form": "dict"}, **b)
        if r.random() < 0.5:
            rd["attrs"] = True
        steps.append(rd)
        if r.random() < 0.4:
            # a second write, into the files just written
            s2 = dict(s)
            s2["mode"] = r.choice(["r+", "a"])
            codecs["t"] = r.choice(["i8", "f4"])
            s2["data"] = [{"name": "t", "rs": r.choice(SHAPES), "start": 5, "attrs": self.attrs()}]
            steps.append(s2)
            steps.append(dict(rd, names=["t"] + rd["names"]))
        return {"id": self.pid("mwrite"), "codecs": codecs, "steps": steps}

    # -- C13 ---------------------------------------------------------------
    def disagree(self):
        r = self.rng
        if r.random() < 0.4 and self.np > 1:
            # collective write of arrays which differ between ranks
            odd = r.randrange(self.np)
            tot = r.randint(1, 3 * self.np)
            shapes = [[2]] * self.np
            cods = ["i8"] * self.np
            if r.random() < 0.5:
                shapes = list(shapes)
                shapes[odd] = r.choice([[3], [], [2, 1]])
            else:
                cods = list(cods)
                cods[odd] = r.choice(["f8", "i4", "u8h"])
            counts = gd.partition(r, tot, self.np)
            parts = [self.rows(c, shapes[i]) for i, c in enumerate(counts)]
            return {"id": self.pid("dis"), "codecs": {}, "steps": [
                {"op": "cwrite", "file": "w", "group": "/", "name": "x", "parts": parts, "shapes": shapes, "cods": cods,
                 "may_raise": True},
                {"op": "make", "file": "q", "dsets": [{"p": "/x", "rows": [1, 2, 3]}]},
                {"op": "cread", "file": "q", "group": "/", "name": "x"}]}
        nf = r.choice([2, 3, self.np, self.np + 2, 2 * self.np + 1])
        nf = max(2, nf)
        odd = r.randrange(nf)
        kind = r.choice(["type", "shape", "shape"])
        rs = r.choice([[], [2], [2, 2]])
        steps = []
        for i in range(nf):
            d = {"p": "/x", "rs": rs, "codec": "i8"}
            if i == odd:
                if kind == "type":
                    d["codec"] = r.choice(["i4", "f8", "u8h"])
                else:
                    d["rs"] = r.choice([x for x in ([], [2], [3], [2, 3], [2, 2]) if x != rs])
            d["rows"] = self.rows(r.choice([0, 1, 3, 12 * self.np]), d["rs"])
            ds = [d] if (i == odd or r.random() < 0.8) else []
            steps.append({"op": "make", "file": "f%d" % i, "dsets": ds})
        if not any(len(s["dsets"]) for i, s in enumerate(steps) if i != odd):
            d = {"p": "/x", "rs": rs, "codec": "i8", "rows": self.rows(2, rs)}
            steps[(odd + 1) % nf]["dsets"] = [d]
        steps.append({"op": "mfread", "names": ["x"], "group": "/", "form": r.choice(["single", "dict", "unpack"]),
                      "how": "list", "set": ["f%d" % i for i in range(nf)], "idx": list(range(nf)), "may_raise": True})
        steps.append({"op": "make", "file": "q", "dsets": [{"p": "/x", "rows": [1, 2, 3]}]})
        steps.append({"op": "cread", "file": "q", "group": "/", "name": "x"})
        return {"id": self.pid("dis"), "codecs": {}, "steps": steps}

    def program(self, kind):
        return getattr(self, kind)()
