"""Cases for the file formats: counts, options, byte orders, damage."""
import json

from . import core

LIST = "TFFFFF"


class FmtGen:
    def __init__(self, check):
        self.check = check
        self.rng = check.rng

    def small(self, big=6):
        return self.rng.choice([0, 0, 1, 1, 2, 3, 4, big])

    # each gives (reader class, keyword arguments, options, counts)
    def counts(self):
        r = self.rng
        g, s, ids = self.small(), self.small(), self.small(12)
        return {"g": g, "s": s, "ids": ids, "totg": g + r.choice([0, 3, 70000]), "tots": s + r.choice([0, 2, 900]),
                "totids": ids + r.choice([0, 5, 100000]), "files": r.choice([1, 1, 2, 3, 255, 256, 512, 257, 65535, 4096]),
                "prev": r.choice([0, 7, 123456]), "min": self.small()}

    def width(self, kw, key, opt, okey, default):
        w = self.rng.choice([4, 8])
        if w != default or self.rng.random() < 0.5:
            kw[key] = w
        opt[okey] = w

    def lg2(self, kind):
        n, kw, opt = self.counts(), {}, {}
        cls = {"GroupTab": "GroupTabFile", "GroupIDs": "GroupIDsFile", "SubTab": "SubTabFile", "SubIDs": "SubIDsFile"}[kind]
        if kind != "GroupTab":
            self.width(kw, "id_bytes", opt, "id", 8)
        mod = self.rng.choice(["formats.subfind_lgadget2", "sims.millennium"])
        return "lg2." + kind, mod + "." + cls, kw, opt, n

    def lg2snap(self):
        n = {"p": self.small(9), "totp": self.rng.choice([9, 5000]), "files": self.rng.choice([1, 3]), "box": 64,
             "hash": 512, "first": self.rng.choice([0, 5, 100, 256]), "cells": self.rng.choice([1, 2, 8, 30])}
        mod = self.rng.choice(["formats.subfind_lgadget2", "sims.millennium"])
        return "lg2.Snapshot", mod + ".SnapshotFile", {}, {}, n

    def lg3(self, kind):
        n, kw, opt = self.counts(), {}, {}
        r = self.rng
        if kind == "SubIDs":
            self.width(kw, "id_bytes", opt, "id", 4)
            return "lg3.SubIDs", "formats.subfind_lgadget3.SubIDsFile", kw, opt, n
        sim = r.random() < 0.4
        opt["veldisp"], opt["shapes"] = r.random() < 0.5, (not sim) and r.random() < 0.5
        if sim:
            cls = "sims.mxxl.SubTabFile"
            if not opt["veldisp"] or r.random() < 0.5:
                kw["SO_VEL_DISPERSIONS"] = opt["veldisp"]
        else:
            cls = "formats.subfind_lgadget3.SubTabFile"
            if opt["veldisp"] or r.random() < 0.5:
                kw["SO_VEL_DISPERSIONS"] = opt["veldisp"]
            if opt["shapes"] or r.random() < 0.5:
                kw["SUB_SHAPES"] = opt["shapes"]
        self.width(kw, "id_bytes", opt, "id", 8 if sim else 4)
        self.width(kw, "float_bytes", opt, "fl", 4)
        return "lg3.SubTab", cls, kw, opt, n

    def pg3(self, kind):
        n, kw, opt = self.counts(), {}, {}
        r = self.rng
        cls = "formats.subfind_pgadget3." + kind + "File"
        self.width(kw, "id_bytes", opt, "id", 8)
        if kind in ("GroupTab", "SubTab"):
            self.width(kw, "float_bytes", opt, "fl", 4)
        if kind == "SubTab":
            opt["veldisp"] = r.random() < 0.5
            if opt["veldisp"] or r.random() < 0.5:
                kw["SO_VEL_DISPERSIONS"] = opt["veldisp"]
            if r.random() < 0.4:
                cls = "sims.millennium2.SubTabFile"
        return "pg3." + kind, cls, kw, opt, n

    def g4(self):
        n, kw, opt = self.counts(), {}, {}
        self.width(kw, "id_bytes", opt, "id", 8)
        n["dp"] = self.rng.choice([0, 1])
        return "g4.SubTab", self.rng.choice(["formats.subfind_gadget4", "sims.coco"]) + ".SubTabFile", kw, opt, n

    def gadget(self, types=None):
        r = self.rng
        typ = types or [self.small(7) for _ in range(6)]
        if r.random() < 0.4:          # only some types
            keep = r.sample(range(6), r.choice([1, 1, 2, 3]))
            typ = [(t or r.choice([0, 1, 4])) if i in keep else 0 for i, t in enumerate(typ)]
        if sum(typ) == 0 and r.random() < 0.8:
            typ[r.randrange(6)] = r.randint(1, 5)
        n = {"type": typ, "mass": r.choice([[0] * 6, [1] * 6] + [[r.choice([0, 1, 0, 37]) for _ in range(6)]] * 3), "tot": [t + r.choice([0, 11]) for t in typ],
             "files": r.choice([1, 2, 16])}
        kw, extra = {}, []
        if r.random() < 0.5:
            for i in range(r.choice([1, 1, 2, 3])):
                extra.append(("Extra%d" % i, r.choice(["float", "int"]), r.choice([[], [3], [2, 2], [1]]),
                              [r.random() < 0.5 for _ in range(6)]))
            kw["extra"] = extra
            kw["extra_list"] = r.random() < 0.5
        # blocks which have particles, in order
        blocks = [[True] * 6, [True] * 6, [True] * 6, [m == 0 for m in n["mass"]]] + [[True] + [False] * 5] * 3 + [x[3] for x in extra]
        present = sum(1 for b in blocks if any(f and t for f, t in zip(b, typ)))
        k = present if r.random() < 0.6 else r.randint(min(3, present), present)
        opt = {"w": [r.choice([4, 8]) for _ in range(k)],
               "extra": [{"n": x[0], "int": x[1] == "int", "d": x[2], "types": x[3]} for x in extra]}
        cls = r.choice(["formats.gadget_snapshot.GadgetBinarySnapshotFile"] * 2 + ["formats.gadget_snapshot.open"] +
                       (["sims.coco.SnapshotFile", "sims.millennium2.SnapshotFile", "sims.mxxl.SnapshotFile"]))
        return "gadget", cls, kw, opt, n

    def mpa(self, kind):
        kw, opt, r = {}, {}, self.rng
        n = {"s": self.small(), "halos": self.small(), "ids": self.small(), "trees": self.small(4), "snaps": self.small(3)}
        if kind == "SubDesc":
            return "mpa.SubDesc", "formats.mpa_trees.SubDescFile", kw, opt, n
        self.width(kw, "id_bytes", opt, "id", 8)
        if kind == "TreeAux":
            return "mpa.TreeAux", "formats.mpa_trees.TreeAuxFile", kw, opt, n
        opt["masstab"] = r.random() < 0.5
        if opt["masstab"] or r.random() < 0.3:
            kw["SAVE_MASS_TAB"] = opt["masstab"]
        return "mpa.Tree", "formats.mpa_trees.TreeFile", kw, opt, n

    def mxxl(self, kind):
        n = {"s": self.small(), "files": self.rng.choice([1, 512]), "nn": self.small(4), "slabs": self.small(3)}
        return "mxxl." + kind, "sims.mxxl." + kind + "File", {}, {}, n

    def rockstar(self):
        r = self.rng
        kw, opt = {}, {"hydro": r.random() < 0.5}
        if opt["hydro"] or r.random() < 0.3:
            kw["hydro"] = opt["hydro"]
        return "rockstar", "formats.rockstar.HalosFile", kw, opt, {"halos": self.small(5), "ids": self.small(), "rev": r.choice([1, 2, 3])}

    def velociraptor(self):
        r = self.rng
        kw, opt = {}, {"keepfof": r.random() < 0.5}
        if opt["keepfof"] or r.random() < 0.3:
            kw["ikeepfof"] = int(opt["keepfof"]) * r.choice([1, 2])
        return "velociraptor", "formats.velociraptor.PropertiesFile", kw, opt, {"g": self.small(4), "head": r.choice([0, 1, 2, 12])}

    # -- cases ---------------------------------------------------------------

    FIXED = ("mpa.", "mxxl.SubDesc", "rockstar", "velociraptor")      # native byte order

    def case(self, made, fill="random", order=None, damage=""):
        fmt, cls, kw, opt, n = made
        if order is None:
            order = "<" if fmt.startswith(self.FIXED) else self.rng.choice("<>")
        c = {"fmt": fmt, "opt": opt or {"none": 0}, "n": n, "order": order, "vals": {"-": []}}
        s = {"op": "file", "c": c, "cls": cls, "kw": kw, "fill": fill, "damage": damage, "sane": fill == "zero"}
        if fill == "zero":
            self.consistent(s)
        return s

    def consistent(self, s):
        """values which make a catalogue otherwise full of zeros consistent"""
        c, r = s["c"], self.rng
        n, v = c["n"], c["vals"]
        fmt = c["fmt"]
        if "IDs" in fmt:
            v["GroupIDs"] = r.sample(range(1, 5000), n["ids"])
        elif fmt == "lg2.GroupTab":
            v["GroupLen"] = [r.randint(1, 9) for _ in range(n["g"])]
            v["GroupOffset"] = [sum(v["GroupLen"][:i]) for i in range(n["g"])]
            n["ids"] = sum(v["GroupLen"])
        elif fmt == "lg2.SubTab":
            if n["g"] == 0:
                n["s"] = 0
            v["NsubPerHalo"] = [0] * n["g"]
            for _ in range(n["s"]):
                v["NsubPerHalo"][r.randrange(n["g"])] += 1
            v["FirstSubOfHalo"] = [sum(v["NsubPerHalo"][:i]) for i in range(n["g"])]
            v["SubParentHalo"] = [i for i in range(n["g"]) for _ in range(v["NsubPerHalo"][i])]
        elif fmt.endswith("SubTab") and n["s"]:
            n["totg"] = max(1, n["totg"])
        s["c"]["vals"] = {k: x for k, x in v.items() if x} or {"-": []}

    def fillin(self, calls):
        """bytes of the files, laid out by the specification"""
        cases = [s["c"] for s in calls]
        cf = self.check.path("cases-%d.ndjson" % len(self.check._procs))
        with open(cf, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        segs = self.check.tlc_generate("GenFmt", cfg="SPECIFICATION Spec\n", env={"CASES": cf})
        for s, sg in zip(calls, segs):
            s["bytes"], s["at"] = self.bytes_of(sg, s.get("fill", "random")), sg
        return calls

    def bytes_of(self, segs, fill):
        r = self.rng
        out = []
        for g in segs:
            if g["free"] == 0:
                out += g["b"]
            elif g["k"] == "S":
                out += [r.randint(65, 90) for _ in range(g["free"])]
            elif fill == "zero":
                out += [0] * g["free"]
            else:
                out += list(r.randbytes(g["free"]))
        return out

    def damage(self, s):
        """damage the bytes of a file as s["damage"] says; False if it cannot be"""
        r, b, segs = self.rng, s["bytes"], s.pop("at")
        if s["damage"] == "size":
            k = r.choice([-8, -1, -4, 1, 4, 8, 100])
            if k < 0 and len(b) + k <= 8:
                k = 4
            s["bytes"] = b[:k] if k < 0 else b + [0] * k
        elif s["damage"] in ("cut", "marker", "markers", "record"):
            off, marks = 0, []
            for g in segs:
                n = g["free"] or len(g["b"])
                if g["k"] == "m":
                    marks.append(off)
                off += n
            if s["damage"] == "markers":
                # both markers of a record name the same wrong length
                i = r.choice(range(2 if s["c"]["fmt"] == "mxxl.Field" else 0, len(marks), 2))
                n = marks[i + 1] - marks[i] - 4 + r.choice([1, 2, 3])
                m = list(n.to_bytes(4, "big" if s["c"]["order"] == ">" else "little"))
                for j in (i, i + 1):
                    s["bytes"][marks[j]:marks[j] + 4] = m
            elif s["damage"] == "record":
                # a record, with markers which agree, which is longer than the multiple of 4 bytes it should be
                i = r.choice(range(2 if s["c"]["fmt"] == "mxxl.Field" else 0, len(marks), 2))
                k = r.choice([1, 2, 3])
                big = s["c"]["order"] == ">"
                n = marks[i + 1] - marks[i] - 4 + k
                m = list(n.to_bytes(4, "big" if big else "little"))
                s["bytes"] = b[:marks[i]] + m + b[marks[i] + 4:marks[i + 1]] + [r.choice([0, 255])] * k + m + b[marks[i + 1] + 4:]
            elif s["damage"] == "marker":
                m = r.choice(marks)
                if s["c"]["fmt"] == "mxxl.Field":
                    m = r.choice(marks[2:])      # the lengths of the header record are not looked at
                s["bytes"][m + (0 if s["c"]["order"] == "<" else 3)] ^= 1
            else:
                # inside a record: after its first marker, before the end of its last
                i = r.randrange(0, len(marks), 2)
                lo, hi = marks[i] + 4, marks[i + 1] + 3
                s["bytes"] = b[:r.randint(lo, hi)]
                if not s["bytes"]:
                    return False
        return True


def split(rng, n, parts, style=None):
    """n things over `parts` files: counts"""
    style = style or rng.choice(["even", "random", "lumpy", "front", "back"])
    if style == "even":
        return [n // parts + (i < n % parts) for i in range(parts)]
    if style in ("front", "back"):
        out = [0] * parts
        out[0 if style == "front" else -1] = n
        return out
    if style == "lumpy":
        out = [0] * parts
        where = rng.sample(range(parts), max(1, parts // 2))
        for _ in range(n):
            out[rng.choice(where)] += 1
        return out
    cuts = sorted(rng.randint(0, n) for _ in range(parts - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


class WorldGen(FmtGen):
    """Catalogues and snapshots split over files"""

    def vals(self, d):
        return {k: v for k, v in d.items() if v} or {"-": []}

    def snapfiles(self, total, w, order, isnap, basename, nfiles):
        """gadget files with total[t] particles of type t"""
        r = self.rng
        style = r.choice([None, "random", "lumpy"])
        per = [split(r, total[t], nfiles, style) for t in range(6)]
        out = []
        for i in range(nfiles):
            typ = [per[t][i] for t in range(6)]
            c = {"fmt": "gadget", "opt": {"w": w[:3] if sum(typ) else [], "extra": []},
                 "n": {"type": typ, "mass": [1] * 6, "tot": total, "files": nfiles}, "order": order, "vals": {"-": []}}
            out.append({"c": c, "name": "snapdir_%03d/%s_%03d.%d" % (isnap, basename, isnap, i)})
        return out

    def groups(self, types, nsubmax):
        """groups: particles of each type; subgroups: of each type, group"""
        r = self.rng
        ng = r.choice([1, 2, 3, 5, 8, 12])
        glen = [[r.choice([0, 0, 1, 2, 5]) if t in types else 0 for t in range(6)] for _ in range(ng)]
        for g in glen:
            if sum(g) == 0:
                g[r.choice(types)] = r.randint(1, 4)
        subs = []
        for i, g in enumerate(glen):
            left = list(g)
            for _ in range(r.choice([0, 0, 1, 2, 3][:nsubmax + 2])):
                s = [r.randint(0, x) for x in left]
                if sum(s):
                    left = [a - b for a, b in zip(left, s)]
                    subs.append((i, s))
        return glen, subs

    def world_g4(self):
        r = self.rng
        types = r.choice([[1], [0, 1], [0, 1, 4], list(range(6)), [1, 5]])
        glen, subs = self.groups(types, 3)
        if r.random() < 0.12:
            subs = []
        ng, ns = len(glen), len(subs)
        isnap, basename, order = r.choice([0, 7, 63, 123]), "snap_x", r.choice("<>")
        nt = r.choice([1, 1, 2, 3, 5])
        idw, dp = r.choice([4, 8]), r.choice([0, 1])
        gs, ss = split(r, ng, nt), split(r, ns, nt)
        first = [sum(1 for s in subs if s[0] < i) for i in range(ng)]
        nsubs = [sum(1 for s in subs if s[0] == i) for i in range(ng)]
        tabs, g0, s0 = [], 0, 0
        for i in range(nt):
            g, s = glen[g0:g0 + gs[i]], subs[s0:s0 + ss[i]]
            c = {"fmt": "g4.SubTab", "opt": {"id": idw}, "order": order,
                 "n": {"g": len(g), "s": len(s), "ids": 0, "totg": ng, "tots": ns, "totids": 0, "files": nt, "dp": dp},
                 "vals": self.vals({"GroupLenType": [x for y in g for x in y], "GroupLen": [sum(y) for y in g],
                                    "FirstSub": first[g0:g0 + gs[i]], "Nsubs": nsubs[g0:g0 + gs[i]],
                                    "SubLenType": [x for y in s for x in y[1]], "SubLen": [sum(y[1]) for y in s]})}
            tabs.append({"c": c, "name": "groups_%03d/fof_subhalo_tab_%03d.%d" % (isnap, isnap, i)})
            g0, s0 = g0 + gs[i], s0 + ss[i]
        total = [sum(g[t] for g in glen) + r.choice([0, 0, 1, 6]) for t in range(6)]
        snaps = self.snapfiles(total, [r.choice([4, 8]) for _ in range(3)], order, isnap, basename, r.choice([1, 2, 3, 4, 6]))
        cls = r.choice(["formats.subfind_gadget4", "sims.coco"])
        kw = {"id_bytes": idw} if idw != 8 or r.random() < 0.3 else {}
        prog = [{"op": "begin", "tabs": tabs, "snaps": snaps, "isnap": isnap, "basename": basename}]
        names = ["GroupLen", "GroupMass", "GroupPos", "GroupVel", "GroupLenType", "GroupMassType", "Halo_M_Mean200",
                 "Halo_R_Mean200", "Halo_M_Crit200", "Halo_R_Crit200", "Halo_M_TopHat200", "Halo_R_TopHat200", "Nsubs", "FirstSub",
                 "SubLen", "SubMass", "SubPos", "SubVel", "SubLenType", "SubMassType", "SubCofM", "SubSpin", "SubVelDisp",
                 "SubVmax", "SubRVmax", "SubHalfMassRad", "SubHalfMassRadType", "SubMassInRad", "SubMassInRadType",
                 "SubMostBoundID", "SubGrNr", "SubParent"]
        default = r.random() < 0.3
        prog.append({"op": "cat", "cls": cls + ".GroupCatalogue", "kw": kw, "default": default,
                     "datasets": names if default else r.sample(names, r.randint(1, 6))})
        prog.append({"op": "open", "cls": cls + ".GroupOrderedSnapshot", "kw": kw})
        order_ = list(range(ng))
        r.shuffle(order_)
        for gr in order_:
            e = {"op": "fof", "kind": "g4", "gr": gr, "form": r.choice(["int", "numpy"])}
            if r.random() < 0.4:
                f = next(i for i in range(nt) if sum(gs[:i]) <= gr < sum(gs[:i + 1]))
                e.update(infile=[f, gr - sum(gs[:f])], form=r.choice(["list", "tuple", "array"]))
            prog.append(e)
        return prog

    def world_pg3(self):
        r = self.rng
        glen, subs = self.groups([1], 3)
        ng, ns = len(glen), len(subs)
        isnap, basename, order = r.choice([0, 7, 63, 123]), "snap_x", r.choice("<>")
        nt = r.choice([1, 1, 2, 3, 5])
        opt = {"id": r.choice([4, 8]), "fl": r.choice([4, 8]), "veldisp": r.random() < 0.4}
        kw = {}
        if opt["id"] != 8 or r.random() < 0.3:
            kw["id_bytes"] = opt["id"]
        if opt["fl"] != 4 or r.random() < 0.3:
            kw["float_bytes"] = opt["fl"]
        if opt["veldisp"]:
            kw["SO_VEL_DISPERSIONS"] = True
        gs, ss = split(r, ng, nt), split(r, ns, nt)
        goff = [sum(g[1] for g in glen[:i]) for i in range(ng)]
        slen = [s[1][1] for s in subs]
        soff = [goff[s[0]] + sum(x[1][1] for x in subs[:i] if x[0] == s[0]) for i, s in enumerate(subs)]
        first = [sum(1 for s in subs if s[0] < i) for i in range(ng)]
        nsubs = [sum(1 for s in subs if s[0] == i) for i in range(ng)]
        tabs, g0, s0 = [], 0, 0
        for i in range(nt):
            a, b = g0 + gs[i], s0 + ss[i]
            c = {"fmt": "pg3.SubTab", "opt": opt, "order": order,
                 "n": {"g": gs[i], "s": ss[i], "ids": 0, "totg": ng, "tots": ns, "totids": 0, "files": nt},
                 "vals": self.vals({"GroupLen": [g[1] for g in glen[g0:a]], "GroupOffset": goff[g0:a], "Nsubs": nsubs[g0:a],
                                    "FirstSub": first[g0:a], "SubLen": slen[s0:b], "SubOffset": soff[s0:b]})}
            tabs.append({"c": c, "name": "groups_%03d/subhalo_tab_%03d.%d" % (isnap, isnap, i)})
            g0, s0 = a, b
        np1 = sum(g[1] for g in glen) + r.choice([0, 1, 6])
        total = [r.choice([0, 0, 3]), np1] + [r.choice([0, 0, 2]) for _ in range(4)]
        snaps = self.snapfiles(total, [r.choice([4, 8]) for _ in range(3)], order, isnap, basename, r.choice([1, 2, 3, 4, 6]))
        cls = r.choice(["formats.subfind_pgadget3", "sims.millennium2"])
        prog = [{"op": "begin", "tabs": tabs, "snaps": snaps, "isnap": isnap, "basename": basename}]
        names = ["GroupLen", "GroupOffset", "GroupMass", "GroupPos", "Halo_M_Mean200", "Halo_R_Mean200", "Halo_M_Crit200",
                 "Halo_R_Crit200", "Halo_M_TopHat200", "Halo_R_TopHat200", "ContaminationLen", "ContaminationMass", "Nsubs",
                 "FirstSub", "SubLen", "SubOffset", "SubParent", "SubMass", "SubPos", "SubVel", "SubCofM", "SubSpin", "SubVelDisp",
                 "SubVmax", "SubRVmax", "SubHalfMass", "SubMostBoundID", "SubGrNr"]
        if opt["veldisp"]:
            names += ["VelDisp_Mean200", "VelDisp_Crit200", "VelDisp_TopHat200"]
        default = r.random() < 0.3
        prog.append({"op": "cat", "cls": cls + ".GroupCatalogue", "kw": kw, "default": default,
                     "datasets": names if default else r.sample(names, r.randint(1, 6))})
        prog.append({"op": "open", "cls": cls + ".GroupOrderedSnapshot", "kw": kw})
        reads = [("fof", i) for i in range(ng)] + [("sub", i) for i in range(ns) if slen[i]]
        r.shuffle(reads)
        for op, i in reads:
            prog.append({"op": op, "kind": "pg3", "gr": i, "form": "int"})
        for _ in range(3):
            a = r.randrange(np1)
            prog.append({"op": "range", "kind": "pg3", "from": a, "count": r.randint(1, np1 - a)})
        for e in prog[3:]:
            if r.random() < 0.2:
                e["datasets"] = r.sample(["Coordinates", "Velocities", "ParticleIDs"], r.randint(1, 2))
        return prog

    def worlds_lg2(self, n):
        """n worlds of L-Gadget2 snapshots with hash tables"""
        r = self.rng
        ws, cases = [], []
        for _ in range(n):
            bits = r.choice([1, 1, 2, 2, 3])
            box = r.choice([8, 64, 48])
            k = r.choice([1, 5, 20, 40])
            style = r.choice(["any", "any", "corner", "walls"])
            def one():
                if style == "corner":
                    return r.choice([0, 1, box - 1])
                if style == "walls":
                    return r.choice([i * box // 2 ** bits + d for i in range(2 ** bits) for d in (0, 1)]) % box
                return r.randrange(box)
            pts = [[one() for _ in range(3)] for _ in range(k)]
            ws.append((bits, box, pts))
            cases.append({"bits": bits, "pts": [[x * 2 ** bits // box for x in p] for p in pts]})
        cf = self.check.path("keys-%d.ndjson" % len(self.check._procs))
        with open(cf, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        keys = self.check.tlc_generate("GenKeys", cfg="SPECIFICATION Spec\n", env={"CASES": cf})
        return [self.world_lg2(w, k) for w, k in zip(ws, keys)]

    def world_lg2(self, w, keys):
        r = self.rng
        bits, box, pts = w
        ncell = 2 ** bits
        order = r.choice("<>")
        nh = 8 ** bits
        nf = r.choice([1, 2, 3, min(8, nh)])
        per = [1] * nf                         # every file has at least one cell
        for x in split(r, nh - nf, nf, r.choice(["even", "random", "back"])), :
            per = [a + b for a, b in zip(per, x)]
        byc = sorted(range(len(pts)), key=lambda i: (keys[i], i))
        isnap, basename = r.choice([0, 7, 63]), "snap_millennium"
        totp = 2000000000 if r.random() < 0.5 else len(pts)
        clean = r.random() < 0.6
        pos = [list(p) for p in pts]
        ids = r.sample(range(1, len(pts) + 1), len(pts))
        vel = [[r.choice([0, 3, 1000, 999999]) for _ in range(3)] for _ in pts]
        fault = ""
        if clean and r.random() < 0.5:
            j, m = r.randrange(len(pts)), r.randrange(3)
            fault = r.choice(["cell", "cell", "wall", "box", "vel", "id", "nan"])
            if fault == "cell":
                pos[j] = [r.randrange(box) for _ in range(3)]
            elif fault == "wall":
                pos[j][m] = (pos[j][m] // (box // ncell) * (box // ncell) + r.choice([0, -1, box // ncell])) % box
            elif fault == "box":
                pos[j][m] = box + r.choice([0, 1, 7])
            elif fault == "vel":
                vel[j][m] = r.choice([1000000, 1000001, 16000000])
            elif fault == "id":
                ids[j] = totp + r.choice([0, 1])
        snaps, c0 = [], 0
        for i in range(nf):
            mine = [j for j in byc if c0 <= keys[j] < c0 + per[i]]
            block = [sum(1 for j in mine if keys[j] < c0 + m) for m in range(per[i])]
            more = {"PartType1/Velocities": [x for j in mine for x in vel[j]],
                    "PartType1/ParticleIDs": [ids[j] for j in mine]} if clean else {}
            c = {"fmt": "lg2.Snapshot", "opt": {"none": 0}, "order": order,
                 "n": {"p": len(mine), "totp": totp, "files": nf, "box": box, "hash": nh, "first": c0, "cells": per[i]},
                 "vals": self.vals({"PartType1/Coordinates": [x for j in mine for x in pos[j]], "blockid": block, **more})}
            snaps.append({"c": c, "name": "snapdir_%03d/%s_%03d.%d" % (isnap, basename, isnap, i)})
            c0 += per[i]
        cls = r.choice(["formats.subfind_lgadget2", "sims.millennium"])
        prog = [{"op": "begin", "tabs": [], "snaps": snaps, "isnap": isnap, "basename": basename},
                {"op": "open", "cls": cls + ".Snapshot", "kw": {}}]
        if clean:
            prog += [{"op": "sane", "cls": cls + ".SnapshotFile", "file": i, "nan": False} for i in range(nf)]
        if fault == "nan":
            i = next(i for i in range(nf) if snaps[i]["c"]["n"]["p"])
            prog[2 + i]["nan"] = True
            snaps[i]["nan"] = r.choice(["PartType1/Coordinates", "PartType1/Velocities"])
        if fault:
            return prog
        for _ in range(4):
            z = r.random()
            if z < 0.3:
                cells = [r.randrange(nh)]
            elif z < 0.5:
                a = r.randrange(nh)
                cells = list(range(a, min(nh, a + r.choice([1, 2, 9]))))
            elif z < 0.6:
                cells = list(range(nh))
            else:
                cells = [r.choice(keys) if r.random() < 0.5 else r.randrange(nh) for _ in range(r.choice([1, 2, 6]))]
            prog.append({"op": "cells", "cells": cells, "form": r.choice(["list", "array", "int32"])})
        for _ in range(5):
            b = []
            for _ in range(3):
                lo = r.randint(-box, 2 * box)
                width = r.choice([0, 1, 3, box // 2, box, 2 * box, 2 * box // ncell])
                b += [lo, lo + width]
            prog.append({"op": "region", "box": b, "form": r.choice(["list", "array", "int"])})
        return prog

    def lay(self, progs):
        """bytes of all files of the worlds"""
        files = [f for p in progs for f in p[0]["tabs"] + p[0]["snaps"]]
        self.fillin(files)
        for f in files:
            segs = f.pop("at")
            if "nan" in f:      # the first element of a block is not a number
                want = f["c"]["vals"][f.pop("nan")]
                off = 0
                for g in segs:
                    if g["k"] == "f" and len(g["b"]) == 4 * len(want) and g["b"] == f["bytes"][off:off + len(g["b"])]:
                        f["bytes"][off:off + 4] = [0, 0, 192, 127] if f["c"]["order"] == "<" else [127, 192, 0, 0]
                        break
                    off += g["free"] or len(g["b"])
        return progs
