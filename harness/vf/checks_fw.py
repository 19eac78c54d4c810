"""Checks of the Fortran HDF5 wrapper: C27 (round trips) and C28 (handles and histories)."""
import json
import os

from . import core

T = ["i4", "i8", "r4", "r8", "s"]
HDF5 = "/usr/lib/x86_64-linux-gnu/hdf5/serial"


def build(check):
    """The library from the current tree, and the program which calls it."""
    d = check.path("fw", "x")
    d = os.path.dirname(d)
    log = check.path("build.txt")
    script = """set -e
cd %(d)s
export CC=/usr/bin/gcc FC=/usr/bin/gfortran FFLAGS="-fallow-argument-mismatch -w"
/usr/bin/cmake -Wno-dev -Wno-deprecated -S %(repo)s/fortran/hdf5_wrapper -B b -DCMAKE_BUILD_TYPE=Debug -DCMAKE_LIBRARY_PATH=%(h)s >/dev/null
/usr/bin/cmake --build b --target hdfwrapper >/dev/null
%(py)s %(gen)s driver.f90
/usr/bin/gfortran -O0 -w -ffree-line-length-none -fallow-argument-mismatch -Ib/include -I/usr/include/hdf5/serial driver.f90 -o driver \
   -Lb/lib -lhdfwrapper -L%(h)s -lhdf5_fortran -lhdf5 -Wl,-rpath,%(d)s/b/lib
""" % {"d": d, "repo": core.REPO, "h": HDF5, "py": core.PY, "gen": os.path.join(core.HARNESS, "vf", "fw_gen.py")}
    p = check.spawn(["/bin/bash", "-c", script], env=core.base_env(), cwd=d, log=log)
    return p, os.path.join(d, "driver"), log


def built(check, b, timeout=400):
    p, binary, log = b
    if check.wait(p, timeout) != 0:
        raise core.MachineryError("the Fortran wrapper does not build:\n" + core.tail(log, 3000))
    return binary


def run_programs(check, progs, binary, procs=6, shards=6, timeout=500):
    n = max(1, min(procs, len(progs)))
    jobs = []
    for i in range(n):
        part = progs[i::n]
        pf, out, log = check.path("p%d.json" % i), check.path("trace%d.ndjson" % i), check.path("log%d.txt" % i)
        with open(pf, "w") as f:
            json.dump(part, f)
        cwd = os.path.dirname(check.path("work%d" % i, "x"))
        p = check.spawn([core.PY, os.path.join(core.HARNESS, "vf", "fw_driver.py"), pf, out, binary], env=core.base_env(), cwd=cwd, log=log)
        jobs.append((p, part, out, log))
    events, origin = [], {}
    for p, part, out, log in jobs:
        rc = check.wait(p, timeout)
        evs = core.read_ndjson(out)
        if rc != 0 or not evs or evs[-1]["op"] != "end":
            raise core.MachineryError("fw_driver: " + core.tail(log, 1500))
        k = -1
        for e in evs[:-1]:
            if e["op"] == "begin":
                k += 1
                first = e["first"]
            origin[id(e)] = part[first:k + 1]
            events.append(e)
    for e in events[1:4]:
        check.sample(e)
    for b in check.validate("FWrapTrace", events, shards=shards):
        e = b["event"]
        check.violation("%s:%s" % (e["op"], ",".join(b["clauses"])),
                        "%s violates %s: %s" % (e["op"], b["clauses"], json.dumps(e)[:900]), {"programs": origin[id(e)]})
    return events


# ---------------------------------------------------------------------------
def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


class Gen:
    """Programs; keeps the shapes of what it writes, so that most calls are carried out."""

    def __init__(self, rng, big=120):
        self.rng = rng
        self.v = 0
        self.big = big

    def begin(self, **kw):
        self.prog = [dict({"op": "begin"}, **kw)]
        self.v = self.rng.randint(0, 40)
        return self.prog

    def add(self, **c):
        self.prog.append(c)

    def values(self, n, t, slen):
        out = []
        for _ in range(n):
            self.v += 1
            out.append(self.v % (10 ** min(slen, 5)) if t == "s" else self.rng.choice([self.v, self.v, self.v, 0]))
        return out

    def dims(self, rank, zero=False):
        while True:
            d = [self.rng.choice([1, 2, 2, 3, 3, 4, 6, 9] + [0] * zero) for _ in range(rank)]
            if prod(d) <= self.big:
                return d

    def kind(self, t=None):
        t = t or self.rng.choice(T)
        return t, (self.rng.choice([1, 2, 4, 5, 8, 13, 13, 270]) if t == "s" else 1)

    def spellings(self, c):
        for k in ("szipspell", "extspell", "overspell"):
            c[k] = self.rng.choice(["absent", "false"])
        c["ns"] = self.rng.random() < 0.4
        c["strided"] = self.rng.random() < 0.25 and prod([2 * x + 2 for x in c["dims"]]) < 60000
        return c

    def array_for(self, sel, exact=False):
        """Dimensions of an array for a section of this size."""
        z = self.rng.random()
        grow = (lambda x: x) if exact else (lambda x: x + self.rng.choice([0, 0, 1, 2]))
        if z < 0.35 and len(sel) > 0:
            d = [grow(x) for x in sel]
        elif z < 0.6:
            d = list(sel)
        else:                              # dimensions of size one left out or added
            d = [grow(x) for x in sel if x != 1]
            while len(d) < 7 and self.rng.random() < 0.4:
                d.insert(self.rng.randint(0, len(d)), 1)
        return d if prod(d) <= 8 * self.big and len(d) <= 7 else list(sel)

    def section(self, dims, beyond=False):
        start, count = [], []
        for n in dims:
            m = n + (self.rng.choice([0, 0, 1, 2]) if beyond else 0)
            if n == 0 and m == 0:
                start.append(1)
                count.append(0)
                continue
            s = self.rng.randint(1, max(m, 1))
            start.append(s)
            count.append(self.rng.choice([1, m - s + 1, self.rng.randint(1, m - s + 1)]))
        return start, count

    def write(self, h, name, t, slen, dims, **kw):
        c = {"op": "write", "h": h, "name": name, "t": t, "slen": slen, "dims": dims, "vals": self.values(prod(dims), t, slen),
             "gzip": -1, "szip": False, "ext": False, "over": False, "hs": False, "hc": False, "start": [], "count": [],
             "hi": False, "init": [], "hk": False, "chunk": []}
        c.update(kw)
        if "start" in kw:
            c["hs"] = True
        if "count" in kw:
            c["hc"] = True
        if "init" in kw:
            c["hi"] = True
        if "chunk" in kw:
            c["hk"] = True
        self.prog.append(self.spellings(c))
        return c

    def storage(self, rank):
        kw = {}
        z = self.rng.random()
        if z < 0.3:
            kw["gzip"] = self.rng.choice([0, 1, 5, 9, 10, 11, 16, 19])
        elif z < 0.4:
            kw["szip"] = True
            kw["gzip"] = self.rng.choice([-1, 0])
        if self.rng.random() < 0.45:
            kw["ext"] = True
        if self.rng.random() < 0.3 and rank > 0:
            kw["chunk"] = [self.rng.choice([1, 2, 3, 100]) for _ in range(self.rng.randint(1, rank))]
        return kw

    def read(self, h, name, t, slen, dims, **kw):
        c = {"op": "read", "h": h, "name": name, "t": t, "slen": slen, "dims": dims, "hs": "start" in kw, "hc": "count" in kw,
             "start": kw.get("start", []), "count": kw.get("count", [])}
        self.prog.append(self.spellings(c))

    def read_whole(self, h, name, t, slen, dims):
        self.read(h, name, t, slen + (self.rng.choice([0, 0, 3]) if t == "s" else 0), self.array_for(dims))

    def read_part(self, h, name, t, slen, dims):
        s, n = self.section(dims)
        if self.rng.random() < 0.1 and dims:       # nothing
            n[self.rng.randrange(len(n))] = 0
        extra = self.rng.choice([0, 0, 2])
        self.read(h, name, t, slen + (self.rng.choice([0, 3]) if t == "s" else 0), self.array_for(n),
                  start=s + [1] * extra, count=n + [9] * extra)

    def wattr(self, h, name, t, slen, dims, over=False):
        c = {"op": "wattr", "h": h, "name": name, "t": t, "slen": slen, "dims": dims, "vals": self.values(prod(dims), t, slen), "over": over}
        self.prog.append(self.spellings(c))

    def rattr(self, h, name, t, slen, dims):
        d = list(dims)
        if len(d) == 1 and self.rng.random() < 0.4:
            d[0] += 2
        self.prog.append(self.spellings({"op": "rattr", "h": h, "name": name, "t": t, "slen": slen, "dims": d}))

    def ask(self, h, name):
        self.add(op="dims", h=h, name=name, ns=self.rng.random() < 0.3)
        self.add(op="type", h=h, name=name, ns=self.rng.random() < 0.3)

    def lists(self, h, name):
        for w in ("datasets", "groups", "attributes"):
            self.add(op="list", h=h, name=name, what=w, counted=self.rng.random() < 0.3)

    # -- a round trip of one kind and rank
    def round_trip(self, t, rank, zero=False):
        rng = self.rng
        self.begin()
        t, slen = self.kind(t)
        self.add(op="talk", v=rng.choice([0, 0, 0, 1, 2]))
        name = rng.sample(["a", "bb", "Group1", "x_y", "PartType0"], rng.choice([0, 0, 1, 1, 2, 4])) + ["Data"]
        self.add(op="create", f="A", sp=rng.choice([0, 0, 1, 2, 3]))
        kw = self.storage(rank)
        z = rng.random()
        dims = self.dims(rank, zero)
        if z < 0.2 and rank and not zero:          # the whole at an offset
            start = [rng.choice([1, 1, 2, 3]) for _ in dims]
            count = list(dims)
            dims = [s + n - 1 for s, n in zip(start, count)]
            if prod(dims) > 4 * self.big:
                start, dims = [1] * rank, list(count)
            arr = [n + rng.choice([0, 0, 1]) for n in count]
            self.write(1, name, t, slen, arr if prod(arr) < 4 * self.big else count, start=start, count=count, **kw)
        elif z < 0.35 and rank and not zero:       # larger at first
            full = [n + rng.choice([0, 1, 2]) for n in dims]
            if prod(full) > 4 * self.big:
                full = list(dims)
            start, count = self.section(full)
            arr = [n + rng.choice([0, 0, 1]) for n in count]
            self.write(1, name, t, slen, arr, start=start, count=count, init=full + [5] * rng.choice([0, 1]), **kw)
            dims = full
        else:
            self.write(1, name, t, slen, list(dims), **kw)
        self.read_whole(1, name, t, slen, dims)
        if rank:
            self.read_part(1, name, t, slen, dims)
        self.wattr(1, name[:-1] + ["att"], t, slen, self.dims(rank, zero and rng.random() < 0.5))
        at = self.prog[-1]["dims"]
        self.wattr(1, name + ["own"], t, slen, list(dims) if prod(dims) <= self.big else [])
        own = self.prog[-1]["dims"]
        self.rattr(1, name[:-1] + ["att"], t, slen, at)
        for _ in range(rng.choice([1, 2, 3])):
            if not rank:
                break
            if kw.get("ext") and rng.random() < 0.6 and prod([x + 2 for x in dims]) < 6 * self.big:
                s, n = self.section(dims, beyond=True)
                if 0 in n:
                    continue
                dims = [max(d, a + b - 1) for d, a, b in zip(dims, s, n)]
            else:
                s, n = self.section(dims)
                if 0 in n:
                    continue
            arr = self.array_for(n)
            self.write(1, name, t, slen if t != "s" else rng.choice([slen, max(1, slen - 1)]), arr, start=s, count=n)
            (self.read_whole if rng.random() < 0.5 else self.read_part)(1, name, t, slen, dims)
        if rng.random() < 0.3:
            t2, sl2 = self.kind()
            self.wattr(1, name + ["own"], t2, sl2, self.dims(rng.choice([0, 1, 3])), over=True)
            own, ot, osl = self.prog[-1]["dims"], t2, sl2
        else:
            ot, osl = t, slen
        self.add(op="close", h=1)
        self.add(op="open", f="A", ro=rng.random() < 0.7, sp=rng.choice([0, 1, 2]), spell=True)
        self.read_whole(1, name, t, slen, dims)
        if rank:
            self.read_part(1, name, t, slen, dims)
            self.read_part(1, name, t, slen, dims)
        self.rattr(1, name[:-1] + ["att"], t, slen, at)
        self.rattr(1, name + ["own"], ot, osl, own)
        for x in (name, name[:-1] + ["att"], name + ["own"]):
            self.ask(1, x)
        self.lists(1, name[:-1])
        self.add(op="list", h=1, name=name, what="attributes", counted=False)
        self.add(op="close", h=1)
        return self.prog

    def misfit(self, t, rank):
        """A call which does not fit what is there ends the program."""
        rng = self.rng
        self.begin()
        t, slen = self.kind(t)
        self.add(op="create", f="A", sp=0)
        dims = [rng.choice([2, 3, 4]) for _ in range(rank)]
        while prod(dims) > self.big:
            dims = [min(x, 2) for x in dims]
            if prod(dims) > self.big:
                break
        name = rng.choice([["d"], ["g", "d"]])
        ext = rng.random() < 0.3
        self.write(1, name, t, slen, dims, ext=ext)
        ones = [1] * rank
        z = rng.choice(["kind", "size", "small", "rank", "short", "half", "again", "grow", "path", "outside", "attr", "noattr", "noloc",
                        "two", "overgroup", "swap", "onlycount"])
        other = {"i4": ["r4", "i8", "r8", "s"], "i8": ["r8", "i4", "s"], "r4": ["i4", "r8"], "r8": ["i8", "r4", "s"], "s": ["i4", "r8"]}[t]
        u = rng.choice(other)
        k = rng.randrange(max(rank, 1))
        if z == "kind":
            if rng.random() < 0.5:
                self.read(1, name, u, 4, dims)
            else:
                self.write(1, name, u, 4, dims, start=ones, count=dims)
        elif z == "size" and t == "s":
            if rng.random() < 0.5 and slen > 1:
                self.read(1, name, t, slen - 1, dims)
            else:
                self.write(1, name, t, slen + 1, dims, start=ones, count=dims)
        elif z == "small" and rank:
            d = list(dims)
            d[k] -= 1
            if rng.random() < 0.5:
                self.read(1, name, t, slen, d)
            else:
                self.write(1, name, t, slen, d, start=ones, count=dims)
        elif z == "rank" and 0 < rank < 7:
            d = dims[:-1] if rng.random() < 0.5 else dims + [2]
            if rng.random() < 0.5:
                self.read(1, name, t, slen, d)
            else:
                self.write(1, name, t, slen, d, start=ones, count=dims)
        elif z == "short" and rank:
            if rng.random() < 0.5:
                self.read(1, name, t, slen, dims, start=ones[:-1], count=dims)
            else:
                self.write(1, name, t, slen, dims, start=ones, count=dims[:-1], over=rng.random() < 0.4)
        elif z == "half" and rank:
            if rng.random() < 0.5:
                self.read(1, name, t, slen, dims, start=ones)
            else:
                self.write(1, name, t, slen, dims, start=ones)
        elif z == "onlycount" and rank:
            if rng.random() < 0.5:
                self.read(1, name, t, slen, dims, count=dims)
            else:
                self.write(1, name, t, slen, dims, count=dims)
        elif z == "again":
            self.write(1, name, t, slen, dims)
        elif z == "grow" and rank:
            s = list(ones)
            s[k] += rng.choice([1, 2])
            self.write(1, name, t, slen, dims, start=s, count=dims)
            if ext:
                self.read_whole(1, name, t, slen, [d + a - 1 for d, a in zip(dims, s)])
        elif z == "path":
            self.write(1, name + ["below"], t, slen, dims)
        elif z == "outside" and rank:
            s = list(ones)
            s[k] = rng.choice([2, 0, dims[k] + 1])
            self.read(1, name, t, slen, dims, start=s, count=dims)
        elif z == "attr":
            self.wattr(1, name + ["x"], t, slen, dims)
            self.wattr(1, name + ["x"], t, slen, dims)
        elif z == "noattr":
            self.add(op="rattr", h=1, name=name + ["x"], t="i4", slen=1, dims=[])
        elif z == "noloc":
            if rng.random() < 0.5:
                self.wattr(1, ["none", "x"], t, slen, dims)
            else:
                self.add(op="rattr", h=1, name=["none", "x"], t="i4", slen=1, dims=[2])
        elif z == "two":
            self.write(1, ["e"], t, slen, dims, gzip=4, szip=True)
        elif z == "overgroup":
            self.add(op="group", h=1, name=["grp"])
            self.write(1, ["grp"], t, slen, dims, over=True)
        elif z == "swap" and rank > 1:
            d = list(dims)
            d[0], d[1] = d[1] - 1 if d[1] > 1 else 1, d[0] + 1
            self.read(1, name, t, slen, d)
        else:
            self.add(op=rng.choice(["dims", "type"]), h=1, name=["none"], ns=True)
        self.add(op="close", h=1)
        return self.prog

    def names(self):
        """Groups, deep and long names."""
        rng = self.rng
        self.begin()
        self.add(op="create", f="A", sp=0)
        word = lambda n: "".join(rng.choice("abcdefghijKLMN_019") for _ in range(n))
        base = [word(rng.choice([1, 3, 8])) for _ in range(rng.choice([1, 2, 5, 9, 10, 11, 12, 20]))]
        if rng.random() < 0.4:
            base = [word(rng.choice([40, 60, 90])) for _ in range(rng.choice([3, 5, 6]))]
        self.add(op="group", h=1, name=base, ns=rng.random() < 0.5, tail=rng.random() < 0.4)
        self.add(op="group", h=1, name=base[:1] + ["zz", "y"], ns=rng.random() < 0.5)
        self.add(op="group", h=1, name=base[:rng.randint(1, len(base))])
        self.write(1, base + ["d"], "i4", 1, [3])
        self.write(1, ["other"] + base + ["d"], "r8", 1, [2, 2])
        self.read(1, base + ["d"], "i4", 1, [3])
        self.read(1, ["other"] + base + ["d"], "r8", 1, [2, 2])
        self.wattr(1, base + ["att"], "r4", 1, [2])
        self.wattr(1, base + ["d", "att"], "i8", 1, [2, 3])
        self.wattr(1, ["att"], "s", 4, [2])
        self.rattr(1, base + ["att"], "r4", 1, [2])
        self.rattr(1, base + ["d", "att"], "i8", 1, [2, 3])
        self.rattr(1, ["att"], "s", 4, [2])
        for x in ([], base[:-1], base, base[:1], ["other"]):
            self.lists(1, x)
        for x in (base + ["d"], base + ["att"], base + ["d", "att"], ["att"]):
            self.ask(1, x)
        self.add(op="list", h=1, name=base + ["d"], what="attributes", counted=False)
        self.add(op="close", h=1)
        return self.prog

    def many_attributes(self):
        self.begin()
        rng = self.rng
        self.add(op="create", f="A", sp=0)
        self.write(1, ["g", "d"], "i4", 1, [3])
        names = ["n%d" % i for i in rng.sample(range(40), 12)]
        for n in names:
            loc = rng.choice([["g"], ["g", "d"], []])
            t, sl = self.kind()
            d = self.dims(rng.choice([0, 1, 2]))
            self.wattr(1, loc + [n], t, sl, d)
            self.rattr(1, loc + [n], t, sl, d)
            if rng.random() < 0.3:
                t, sl = self.kind()
                d = self.dims(rng.choice([0, 1, 2]))
                self.wattr(1, loc + [n], t, sl, d, over=True)
                self.rattr(1, loc + [n], t, sl, d)
        for x in ([], ["g"], ["g", "d"]):
            self.add(op="list", h=1, name=x, what="attributes", counted=False)
        self.add(op="close", h=1)
        return self.prog

    # -- histories over several files and handles
    def history(self, n):
        rng = self.rng
        self.begin()
        tab, files = {}, {}
        self.add(op="talk", v=rng.choice([0, 0, 0, 1]))
        sets = [["x"], ["y"], ["g", "x"]]
        for _ in range(n):
            free = next(h for h in range(1, 1000) if h not in tab)
            opened = {f for f, _ in tab.values()}
            wr = [h for h in tab if not tab[h][1]]
            z = rng.random()
            if z < 0.12 or not tab:
                f = rng.choice("ABC")
                if f in opened:
                    continue
                self.add(op="create", f=f, sp=rng.choice([0, 0, 1, 2, 3]))
                files[f] = {}
                tab[free] = (f, False)
            elif z < 0.27:
                if not files:
                    continue
                f = rng.choice(sorted(files))
                ro = rng.random() < 0.5
                if not ro and f in opened and not any(tab[h][0] == f and not tab[h][1] for h in tab):
                    continue
                self.add(op="open", f=f, ro=ro, sp=rng.choice([0, 0, 1, 2, 3]), spell=rng.random() < 0.5)
                tab[free] = (f, ro)
            elif z < 0.4:
                h = rng.choice(sorted(tab))
                self.add(op="close", h=h)
                del tab[h]
            elif z < 0.62 and wr:
                h = rng.choice(wr)
                f = files[tab[h][0]]
                nm = rng.choice(sets)
                key = "/".join(nm)
                if key in f and rng.random() < 0.5:
                    t, slen, dims, ext = f[key]
                    s, c = self.section(dims, beyond=ext)
                    if 0 in c:
                        continue
                    f[key] = (t, slen, [max(d, a + b - 1) for d, a, b in zip(dims, s, c)], ext)
                    self.write(h, nm, t, slen, c, start=s, count=c)
                else:
                    t, slen = self.kind(rng.choice(["i4", "i4", "r8", "s"]))
                    dims = [rng.choice([1, 2, 4])] if rng.random() < 0.7 else [2, rng.choice([2, 3])]
                    ext = rng.random() < 0.5
                    self.write(h, nm, t, slen, dims, over=key in f or rng.random() < 0.2, ext=ext)
                    f[key] = (t, slen, dims, ext)
            elif z < 0.9:
                h = rng.choice(sorted(tab))
                f = files[tab[h][0]]
                if not f:
                    continue
                key = rng.choice(sorted(f))
                t, slen, dims, ext = f[key]
                nm = key.split("/")
                (self.read_part if rng.random() < 0.3 else self.read_whole)(h, nm, t, slen, dims)
            elif z < 0.93 and wr:
                h = rng.choice(wr)
                f = files[tab[h][0]]
                self.wattr(h, [rng.choice("pqr")], "i4", 1, [2], over=True)
                self.rattr(h, list(self.prog[-1]["name"]), "i4", 1, [2])
            elif z < 0.97:
                h = rng.choice(sorted(tab))
                self.add(op="fileid", h=h)
                self.add(op="list", h=h, name=[], what="datasets", counted=False)
            elif wr:
                self.add(op="group", h=rng.choice(wr), name=["g"])
        if rng.random() < 0.6:
            self.misuse(tab, files)
        for h in sorted(tab):
            self.add(op="close", h=h)
        return self.prog

    def misuse(self, tab, files):
        rng = self.rng
        ro = [h for h in tab if tab[h][1]]
        bad = rng.choice([0, -1, 1001, max(tab, default=0) + 1, max(tab, default=0) + 2, 1000])
        gaps = [h for h in range(1, max(tab, default=0)) if h not in tab]
        if gaps and rng.random() < 0.6:
            bad = rng.choice(gaps)
        h = rng.choice(ro) if ro and rng.random() < 0.6 else bad
        z = rng.randrange(12)
        opened = {tab[x][0] for x in tab}
        if z == 0:
            self.add(op="close", h=bad)
        elif z == 1:
            self.write(h, ["x"], "i4", 1, [2], over=True)
        elif z == 2:
            self.wattr(h, ["att"], "i4", 1, [2], over=True)
        elif z == 3:
            self.add(op="group", h=h, name=["new"])
        elif z == 4:
            self.read(bad, ["x"], "i4", 1, [9])
        elif z == 5:
            self.add(op="rattr", h=bad, name=["p"], t="i4", slen=1, dims=[2])
        elif z == 6:
            self.add(op=rng.choice(["dims", "type"]), h=bad, name=["x"])
        elif z == 7:
            self.add(op="list", h=bad, name=[], what=rng.choice(["datasets", "groups", "attributes"]), counted=rng.random() < 0.5)
        elif z == 8:
            self.add(op="fileid", h=bad)
        elif z == 9 and opened:
            self.add(op="create", f=rng.choice(sorted(opened)), sp=rng.choice([0, 1, 2]))
        elif z == 10:
            self.add(op="open", f="N", ro=rng.random() < 0.5, sp=0, spell=True)
        elif tab:
            h = rng.choice(sorted(tab))
            c = rng.choice(["read", "rattr", "list", "dims", "type"])
            if c == "read":
                self.read(h, ["nothing"], "i4", 1, [3])
            elif c == "rattr":
                self.add(op="rattr", h=h, name=["nothing"], t="i4", slen=1, dims=[2])
            else:
                self.add(op=c, h=h, name=["nothing", "here"], what="groups", counted=False, ns=False)

    def unopened(self, k):
        """A call before any file is opened, or after all are closed."""
        self.begin(alone=True)
        if k % 2:
            self.add(op="create", f="A", sp=0)
            self.write(1, ["x"], "i4", 1, [2])
            self.read(1, ["x"], "i4", 1, [2])
            self.add(op="close", h=1)
        k //= 2
        h = self.rng.choice([1, 1, 2, 1000])
        if k == 0:
            self.add(op="fileid", h=h)
        elif k == 1:
            self.add(op="close", h=h)
        elif k == 2:
            self.read(h, ["x"], "i4", 1, [2])
        elif k == 3:
            self.write(h, ["x"], "i4", 1, [2])
        elif k == 4:
            self.add(op="group", h=h, name=["g"])
        elif k == 5:
            self.wattr(h, ["a"], "i4", 1, [2])
        elif k == 6:
            self.add(op="rattr", h=h, name=["a"], t="i4", slen=1, dims=[2])
        elif k == 7:
            self.add(op="list", h=h, name=[], what="datasets", counted=False)
        else:
            self.add(op="dims", h=h, name=["x"])
        return self.prog

    def from_model(self, hist):
        """A history enumerated by TLC: small datasets, one value per write."""
        self.begin()
        for o in hist:
            a = list(o)
            if a[0] == "create":
                self.add(op="create", f=a[1], sp=0)
            elif a[0] == "open":
                self.add(op="open", f=a[1], ro=a[2], sp=a[3], spell=True)
            elif a[0] == "close":
                self.add(op="close", h=a[1])
            elif a[0] == "put":
                self.write(a[1], [a[2]], "i4", 1, [2], over=True, ext=True)
            elif a[0] == "sec":
                self.write(a[1], [a[2]], "i4", 1, [1], start=[2], count=[1])
            elif a[0] == "grow":
                self.write(a[1], [a[2]], "i4", 1, [2], start=[3], count=[2])
            elif a[0] == "get":
                self.read(a[1], [a[2]], "i4", 1, [4])
        for c in self.prog:        # one spelling of the names, so that the cached dataset is used
            if "ns" in c:
                c["ns"] = False
                c["strided"] = False
        for h in range(1, 12):
            if self.open_at_end(hist, h):
                self.add(op="close", h=h)
        return self.prog

    @staticmethod
    def open_at_end(hist, h):
        tab = set()
        for o in hist:
            if o[0] in ("create", "open"):
                tab.add(next(k for k in range(1, 9) if k not in tab))
            elif o[0] == "close":
                tab.discard(o[1])
        return h in tab

    def table_full(self, n, files):
        self.begin(alone=True)
        self.add(op="create", f="A", sp=0)
        self.write(1, ["x"], "i4", 1, [2])
        self.add(op="close", h=1)
        for i in range(n):
            self.add(op="open", f="A", ro=True, sp=0, spell=True)
        for h in self.rng.sample(range(1, n + 1), 3):
            self.add(op="close", h=h)
            self.add(op="open", f="A", ro=True, sp=0, spell=True)
            self.read(h, ["x"], "i4", 1, [3])
        gaps = sorted(self.rng.sample(range(1, n + 1), 5))
        for h in gaps:
            self.add(op="close", h=h)
        for h in gaps:
            self.add(op="create", f="F%d" % h, sp=0)
            self.write(h, ["x"], "i4", 1, [3])
        for h in gaps + [1, n // 2, n]:
            self.read(h, ["x"], "i4", 1, [4])
        self.add(op="open", f="A", ro=True, sp=0, spell=True)
        return self.prog

    def loud(self, k):
        quiet = k % 2
        self.begin(alone=True, loud=not quiet, fails=(not quiet and k >= 2))
        if not quiet:
            self.add(op="quiet", v=0)
        if k >= 4:
            self.add(op="open", f="N", ro=k >= 6, sp=0, spell=True)
            return self.prog
        self.add(op="create", f="A", sp=0)
        if k >= 2:
            self.read(1, ["nothing"], "i4", 1, [2])
            return self.prog
        self.write(1, ["g", "x"], "i4", 1, [2])
        self.wattr(1, ["g", "a"], "i4", 1, [2], over=True)
        self.rattr(1, ["g", "a"], "i4", 1, [2])
        self.read(1, ["g", "x"], "i4", 1, [2])
        self.ask(1, ["g", "a"])
        self.lists(1, [])
        self.add(op="close", h=1)
        return self.prog


def c27(check):
    b = build(check)
    g = Gen(check.rng, check.pick(80, 160))
    progs = []
    for _ in range(check.pick(3, 160)):
        for t in T:
            for rank in range(8):
                progs.append(g.round_trip(t, rank))
    for _ in range(check.pick(1, 30)):
        for t in T:
            for rank in range(1, 8):
                progs.append(g.round_trip(t, rank, zero=True))
    progs += [g.names() for _ in range(check.pick(12, 500))]
    progs += [g.many_attributes() for _ in range(check.pick(6, 100))]
    for _ in range(check.pick(5, 200)):
        for t in T:
            for rank in range(8):
                progs.append(g.misfit(t, rank))
    run_programs(check, progs, built(check, b))
    check.notes["programs"] = len(progs)
    check.assumptions = ["an attribute is read into an array of its own shape (or a longer one-dimensional one) and kind, as documented",
                         "names do not contain blanks at their ends"]
    return check.finish()


def c28(check):
    b = build(check)
    models = [check.model("FWrapCache", cfg="SPECIFICATION Spec\nCONSTANTS\n Files = {\"A\", \"B\"}\n Spellings = {\"p\", \"q\"}\n Names = {\"x\", \"y\"}\n"
                          " H = %d\n MaxObj = %d\n DropOnWrite = TRUE\nINVARIANTS ReadsCurrent CacheInOpenFile ReadOnlyKept\nCHECK_DEADLOCK FALSE\n"
                          % check.pick((2, 4), (3, 5)), workers=2, timeout=800)]
    g = Gen(check.rng)
    hists = check.tlc_generate("GenFWrap", cfg="SPECIFICATION Spec\nCONSTANT L = %d\nCHECK_DEADLOCK FALSE\n" % check.pick(2, 3))
    check.notes["histories_enumerated_by_tlc"] = len(hists)
    hists = [h for h in hists]
    check.rng.shuffle(hists)
    progs = [g.from_model(h) for h in hists[:check.pick(900, 12000)]]
    progs += [g.history(check.rng.choice([10, 25, 40])) for _ in range(check.pick(250, 5000))]
    progs += [g.unopened(k) for k in range(18)]
    progs += [g.loud(k) for k in range(8)]
    progs += [g.table_full(n, 5) for n in check.pick([1000], [5, 999, 1000])]
    run_programs(check, progs, built(check, b))
    for m in models:
        m.done()
    check.notes["programs"] = len(progs)
    check.assumptions = ["files are not changed from outside while they are open"]
    return check.finish()


CHECKS = {"C27": c27, "C28": c28}


def replay(check, payload):
    run_programs(check, payload["programs"], built(check, build(check)), procs=1, shards=1)
    return check.finish()
