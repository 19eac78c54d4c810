"""
SWIFT snapshot and SOAP catalogue readers: swift_driver.py PROGRAMS.json OUT.ndjson
The working directory is scratch.  Files are written with h5py; what comes out of
the readers is converted to physical CGS units by the library the arrays belong to
and recorded as exact multiples of powers of two.
"""
import json
import math
import os
import sys
import warnings

import h5py
import numpy as np

warnings.simplefilter("ignore")
LETTERS = "LMtTI"
CONST = {"mpc": 60, "msun": 90, "G": -24}


def half(x):
    return 2.0 ** (x / 2)


def write_units(g, logs):
    for n, u in zip(("length", "mass", "time", "temperature", "current"), logs):
        g.attrs["Unit %s in cgs (U_%s)" % (n, LETTERS[("length", "mass", "time", "temperature", "current").index(n)])] = \
            np.asarray([2.0 ** u])


def phys_log(f, d):
    return sum(e * u for e, u in zip(d["exps"], f["units"])) + d["ea"] * f["a"] + d["eh"] * f["h"]


def array_of(d):
    n = int(np.prod(d["shape"], dtype=int))
    return np.arange(d["first"], d["first"] + n).reshape(d["shape"]).astype(d["dt"])


def write_file(name, f):
    with h5py.File(name, "w") as h:
        top = h if f["meta"] == "" else h.create_group(f["meta"])
        write_units(top.create_group("Units"), f["units"])
        if f["hascode"]:
            write_units(top.create_group("InternalCodeUnits"), f["code"])
        p = top.create_group("PhysicalConstants/CGS")
        for n, v in (("parsec", 2.0 ** f["mpc"] / 1e6), ("solar_mass", 2.0 ** f["msun"]), ("newton_G", 2.0 ** f["G"])):
            p.attrs[n] = np.asarray([v])
        c = top.create_group("Cosmology")
        av = 2.0 ** f["a"]
        for n, v in (("Scale-factor", av), ("Redshift", 1 / av - 1), ("h", 2.0 ** f["h"]), ("H0 [internal units]", 0.5),
                     ("Omega_m", f["om"] / 16), ("Omega_lambda", 1 - f["om"] / 16), ("Omega_b", 0.03125), ("Omega_k", 0.0),
                     ("Omega_r", 0.0), ("w_0", -1.0), ("w_a", 0.0), ("w", -1.0), ("Cosmological run", 1)):
            c.attrs[n] = np.asarray([v])
        for d in f["dsets"]:
            kw = {}
            if d["chunk"]:
                kw = {"chunks": tuple(max(1, min(3, x)) for x in d["shape"]), "compression": "gzip"}
            ds = h.create_dataset(d["path"], data=array_of(d), **kw)
            for letter, e in zip(LETTERS, d["exps"]):
                ds.attrs["U_%s exponent" % letter] = np.asarray([e / 2])
            ds.attrs["a-scale exponent"] = np.asarray([d["ea"] / 2])
            ds.attrs["h-scale exponent"] = np.asarray([d["eh"] / 2])
            extra = d["n"] / 4 * (1 + d["eps"] * 2.0 ** -26)
            plain = sum(e * u for e, u in zip(d["exps"], f["units"]))
            ds.attrs["Conversion factor to CGS (not including cosmological corrections)"] = np.asarray([extra * half(plain)])
            which = "Conversion factor to physical CGS (including cosmological corrections)"
            if d["oldname"]:
                which = "Conversion factor to CGS (including cosmological corrections)"
            ds.attrs[which] = np.asarray([extra * half(phys_log(f, d))])
            ds.attrs["Description"] = "dataset " + d["path"]


def powers(unit):
    """Twice the exponents of length, mass, time, temperature and current"""
    import unyt.dimensions as dim
    pd = unit.dimensions.as_powers_dict()
    known = [dim.length, dim.mass, dim.time, dim.temperature, dim.current_mks]
    out = []
    for k in known:
        x = 2 * float(pd.get(k, 0))
        out.append(int(round(x)) if abs(x - round(x)) < 1e-9 else -999)
    left = [k for k in pd if k not in known and k != 1 and float(pd[k]) != 0]
    return out if not left else [-998] * 5


def to_cgs(r):
    """Values in physical CGS units (and amperes)"""
    import unyt
    import unyt.dimensions as dim
    if getattr(r, "comoving", None):
        r = r.astype("f8").to_physical()    # (single precision arithmetic would show)
    r = unyt.unyt_array(np.asarray(r, dtype="f8"), r.units)
    if r.units.dimensions.has(dim.current_mks):
        p = powers(r.units)
        target = unyt.dimensionless
        for b, e in zip((unyt.cm, unyt.g, unyt.s, unyt.K, unyt.A), p):
            target = target * b ** (e / 2)
        return np.asarray(r.to(target))
    return np.asarray(r.in_cgs())


def outcome(r, f, d, units):
    """What has been read, as seen when it is converted now"""
    v = to_cgs(r)
    log = phys_log(f, d)
    q = np.ravel(v) / half(log) * 4
    rows = [int(x) if np.isfinite(x) and abs(x) < 2 ** 30 else -1 for x in np.rint(q)]
    eps = sorted({int(round((x / y - 1) * 2 ** 26)) if y != 0 and abs(x / y - 1) < 16 else 10 ** 9
                  for x, y in zip(q, np.rint(q))})
    cf = getattr(r, "cosmo_factor", None)
    res = {"log": log, "rows": rows, "eps": eps[:4], "shape": list(np.shape(r)), "dims": powers(r.units),
           "com": int(bool(getattr(r, "comoving", False))), "cf": -9999}
    res["ah"], res["plain"] = [-9999, -9999], []
    if cf is None:
        pd = {str(k): 2 * float(v) for k, v in r.units.expr.as_powers_dict().items()}
        plain = r.astype("f8") / (units[0] ** (d["ea"] / 2) * units[1] ** (d["eh"] / 2))
        want = half(log - d["ea"] * f["a"] - d["eh"] * f["h"]) / 4
        res["plain"] = [int(x) if np.isfinite(x) and abs(x) < 2 ** 30 else -1 for x in np.rint(np.ravel(to_cgs(plain)) / want)]
        res["ah"] = [int(round(pd.get(k, 0))) if abs(pd.get(k, 0) - round(pd.get(k, 0))) < 1e-9 else 9999 for k in "ah"]
    if cf is not None:
        x = 2 * math.log2(float(cf.a_factor))
        res["cf"] = int(round(x)) if abs(x - round(x)) < 1e-6 else 9999
    return res


def selection(sel, data):
    k = sel["k"]
    if k == "all":
        return Ellipsis if sel["how"] == "dots" else (slice(None) if sel["how"] == "slice" else ())
    if k == "slice":
        if sel["neg"]:     # counted from the end
            return slice(sel["start"] - data.shape[0], sel["stop"], sel["step"])
        return slice(sel["start"], sel["stop"], sel["step"])
    if k == "one":
        return sel["i"] - 1 if not sel["neg"] else sel["i"] - 1 - data.shape[0]
    if k == "list":
        x = [i - 1 for i in sel["rows"]]
        return x if not sel["neg"] else np.asarray(x, dtype=int)
    return np.asarray(sel["bits"], dtype=bool)


class Runner:
    def __init__(self, prog):
        self.prog, self.handles, self.held = prog, {}, {}
        for i, f in enumerate(prog["files"]):
            write_file("f%d.hdf5" % (i + 1), f)

    def open(self, s):
        from virgo.formats.swift import SwiftFile, SwiftSnapshot
        from virgo.formats.soap import SOAPCatalogue
        name, f = "f%d.hdf5" % s["f"], self.prog["files"][s["f"] - 1]
        kw = {} if s["mode"] == "default" else {"mode": s["mode"]}
        pos = {"r": [name, "r"], "plain": [name], "path": [os.path.abspath(name), "r"]}[s["how"]]
        if f["meta"] != "":
            h = SwiftFile("soap" if s["mode"] == "default" else s["mode"], f["meta"], *pos)
        else:
            h = (SwiftSnapshot if s["cls"] == "snap" else SOAPCatalogue)(*pos, **kw)
        self.handles[s["h"]] = (h, f)
        x = 2 * math.log2(float(h.expansion_factor))
        return {"a": int(round(x)), "om": int(round(float(h.cosmology.Om0) * 1600))}

    def find(self, s):
        h, f = self.handles[s["h"]]
        path = s["path"]
        parts = path.split("/")
        if s["via"] == "path" or len(parts) == 1 and s["via"] == "walk":
            obj = h[path]
        elif s["via"] == "slash":
            obj = h["/" + path]
        else:
            obj = h
            for p in parts:
                if s["via"] == "walk":
                    obj = obj[p]
                elif s["via"] == "get":
                    obj = obj.get(p)
                elif s["via"] == "items":
                    obj = dict(obj.items())[p]
                else:
                    obj = [v for k, v in zip(list(obj), obj.values()) if k == p][0]
        return obj, f

    def read(self, s):
        obj, f = self.find(s)
        d = next(d for d in f["dsets"] if d["path"] == s["path"])
        r = obj[selection(s["sel"], obj)]
        top = self.handles[s["h"]][0]
        units = [top.get_unit(x) for x in "ah"]
        if s["id"]:
            self.held[s["id"]] = (r, f, d, units)
            return {"shape": list(np.shape(r))}
        return outcome(r, f, d, units)

    def settle(self, s):
        if s["id"] not in self.held:
            return {"unread": True}
        return dict(outcome(*self.held[s["id"]]), unread=False)

    def close(self, s):
        self.handles[s["h"]][0].close()
        return {}

    def unit(self, s):
        u = self.handles[s["h"]][0].get_unit(s["name"])
        import unyt
        x = 2 * math.log2(float(to_cgs(unyt.unyt_array(np.asarray([1.0]), u))[0]))
        return {"log": int(round(x)) if abs(x - round(x)) < 1e-8 else 9999, "dims": powers(u)}

    def info(self, s):
        """Contents of a group, or shape of a dataset"""
        h, f = self.handles[s["h"]]
        obj = h if s["path"] == "" else h[s["path"]]
        if hasattr(obj, "shape"):
            return {"kind": "dataset", "shape": list(obj.shape), "names": [],
                    "n": len(obj) if len(obj.shape) else 0, "attrs": [int(round(2 * float(obj.attrs[k][0]))) for k in
                    ["U_%s exponent" % c for c in LETTERS] + ["a-scale exponent", "h-scale exponent"]]}
        names = list(obj)
        return {"kind": "group", "names": sorted(names), "n": len(obj), "shape": [], "attrs": [],
                "has": [x in h for x in s["ask"]], "keys": sorted(obj.keys()) == sorted(names)}


def main():
    progs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as out:
        def emit(e):
            out.write(json.dumps(e) + "\n")
            out.flush()
        for prog in progs:
            emit({"op": "begin", "files": prog["files"]})
            run = Runner(prog)
            for s in prog["steps"]:
                try:
                    res = dict(getattr(run, s["op"])(s), err="")
                except Exception as e:
                    res = {"err": type(e).__name__, "why": str(e)[:200]}
                emit(dict(s, res=res))
            for h, f in run.handles.values():
                try:
                    h.close()
                except Exception:
                    pass
            for i in range(len(prog["files"])):
                os.remove("f%d.hdf5" % (i + 1))
        emit({"op": "end"})


if __name__ == "__main__":
    main()
