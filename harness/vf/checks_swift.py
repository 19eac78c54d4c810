"""Check of the SWIFT snapshot and SOAP catalogue readers: C26."""
from .checks_bin import run_programs

DRIVER, MODULE = "swift_driver.py", "UnitsTrace"
PATHS = ["x", "g/x", "g/y", "g/sub/z", "PartType0/Coordinates", "PartType0/Velocities", "SO/200_crit/TotalMass", "BoundSubhalo/w"]
UNITS = ["snap_length", "snap_mass", "snap_time", "snap_temperature", "snap_current", "code_length", "code_mass", "code_time",
         "code_temperature", "code_current", "a", "h", "swift_mpc", "swift_msun", "newton_G"]


def dset(rng, path, base=None):
    if base is None:
        e = lambda pool: rng.choice(pool)
        base = {"exps": [e([-6, -2, 0, 0, 1, 2, 2, 4]), e([0, 0, 2, -2, 4]), e([0, 0, -2, -4, 2, 3]), e([0, 0, 0, 2, -2]),
                         e([0, 0, 0, 0, -2, 2, -4])], "ea": 0, "eh": 0}
        z = rng.random()
        if z < 0.45:
            base["ea"] = base["exps"][0]
        elif z < 0.7:
            base["ea"] = e([-6, -4, -2, -1, 1, 2, 3, 4])
        if rng.random() < 0.25:
            base["eh"] = e([-4, -2, 2, 4, 1])
    shape = rng.choice([[5], [7], [4, 3], [6, 2], [1], [3, 1], [0], [0, 3], []])
    z = rng.random()
    return dict(path=path, exps=list(base["exps"]), ea=base["ea"], eh=base["eh"], shape=shape,
                dt=rng.choice(["f8", "f4", "i4", "i8", ">f8", ">f4", "u8", "u1", "f8"]), first=rng.choice([1, 1, 2, 30, 100]),
                n=4 if rng.random() < 0.6 else rng.choice([1, 3, 5, 12, 20, 64]), eps=0 if z < 0.8 else rng.choice([1, 2, 10, 64, -3, 300]),
                oldname=rng.random() < 0.25, chunk=bool(shape) and 0 not in shape and rng.random() < 0.3)


def make_files(rng, n):
    """Files, often of the same simulation"""
    files = [make_file(rng)]
    for _ in range(n - 1):
        f = make_file(rng)
        z = rng.random()
        if z < 0.6:
            same = ["units", "code", "mpc", "msun", "G", "om"] + (["h"] if z < 0.3 else []) + (["a"] if z > 0.5 else [])
            for k in same:
                f[k] = files[0][k]
            if z < 0.3 and rng.random() < 0.5:
                f["dsets"] = [dict(d, first=d["first"] + 1) for d in files[0]["dsets"]]
                f["meta"], f["hascode"], f["paths"] = files[0]["meta"], files[0]["hascode"], files[0]["paths"]
        files.append(f)
    return files


def make_file(rng, dsets=None, meta=None):
    if dsets is None:
        dsets = [dset(rng, p) for p in rng.sample(PATHS, rng.randint(2, 5))]
    f = {"units": [rng.randint(-6, 14) for _ in range(5)], "code": [rng.randint(-6, 14) for _ in range(5)],
         "hascode": rng.random() < 0.6, "a": -rng.randint(0, 4), "h": -rng.choice([0, 1, 1, 2]), "om": rng.choice([2, 4, 5, 8]),
         "mpc": rng.randint(50, 80), "msun": rng.randint(50, 80), "G": -rng.randint(10, 30),
         "meta": (rng.choice(["", "", "", "SWIFT", "Header/swift"]) if meta is None else meta), "dsets": dsets}
    top = [] if f["meta"] == "" else f["meta"].split("/")
    meta_paths = [["Units"], ["Cosmology"], ["PhysicalConstants", "CGS"]] + ([["InternalCodeUnits"]] if f["hascode"] else [])
    f["paths"] = [d["path"].split("/") for d in dsets] + [top + p for p in meta_paths]
    return f


def selection(rng, d):
    if not d["shape"]:
        return {"k": "all", "how": rng.choice(["dots", "empty"])}
    n = d["shape"][0]
    k = rng.choice(["all", "all", "slice", "slice", "one", "list", "mask"])
    if k in ("one", "list") and n == 0:
        k = "all"
    if k == "mask" and n == 0:
        k = "slice"
    if k == "all":
        return {"k": k, "how": rng.choice(["dots", "slice", "empty"])}
    if k == "slice":
        a = rng.randint(0, n)
        b = rng.randint(a, n)
        return {"k": k, "start": a, "stop": b, "step": rng.choice([1, 1, 2, 3]), "neg": a < n and rng.random() < 0.2}
    if k == "one":
        return {"k": k, "i": rng.randint(1, n), "neg": rng.random() < 0.3}
    if k == "list":
        return {"k": k, "rows": sorted(rng.sample(range(1, n + 1), rng.randint(1, n))), "neg": rng.random() < 0.3}
    bits = [rng.random() < 0.5 for _ in range(n)]
    if not any(bits):
        bits[-1] = True
    return {"k": k, "bits": bits}


def opening(rng, prog, h, f, mode):
    meta = prog["files"][f - 1]["meta"]
    if mode == "soap" and rng.random() < 0.5:
        mode = "default"
    return {"op": "open", "h": h, "f": f, "mode": mode, "cls": "base" if meta else rng.choice(["snap", "soap"]),
            "how": rng.choice(["r", "plain", "path"])}


def reading(rng, prog, h, f, ident=0, d=None):
    d = d or rng.choice(prog["files"][f - 1]["dsets"])
    return {"op": "read", "h": h, "path": d["path"], "via": rng.choice(["path", "walk", "get", "items", "values", "slash"]),
            "sel": selection(rng, d), "id": ident}


def asking(rng, prog, h, f):
    file = prog["files"][f - 1]
    d = rng.choice(file["dsets"])
    z = rng.random()
    parts = [] if z < 0.3 else d["path"].split("/")[:(None if z < 0.6 else -1)]
    path = "/".join(parts)
    ask = [x["path"] for x in file["dsets"]] + ["nothing", "g", "g/sub", "Cosmology", "g/x", "x/y"]
    return {"op": "info", "h": h, "path": path, "gpath": parts, "isds": path == d["path"], "ask": ask,
            "askp": [a.split("/") for a in ask]}


def from_history(rng, hist, files):
    prog, at, k = {"files": files, "steps": []}, {}, 0
    for s in hist:
        if s["k"] == "open":
            prog["steps"].append(opening(rng, prog, s["h"], s["f"], s["m"]))
            at[s["h"]] = s["f"]
        elif s["k"] == "close":
            prog["steps"].append({"op": "close", "h": s["h"]})
        else:
            k += 1
            prog["steps"].append(reading(rng, prog, s["h"], at[s["h"]], k))
            if rng.random() < 0.3:
                prog["steps"].append(reading(rng, prog, s["h"], at[s["h"]]))
    for i in rng.sample(range(1, k + 1), k):
        prog["steps"].append({"op": "settle", "id": i})
    return prog


def all_of(rng, dsets):
    """Every dataset of a file, in both modes"""
    f = make_file(rng, [dset(rng, "g%d/d%d" % (i % 3, i), d) for i, d in enumerate(dsets)])
    prog = {"files": [f], "steps": []}
    for h, mode in ((1, "soap"), (2, "swiftsimio")):
        prog["steps"].append(opening(rng, prog, h, 1, mode))
        for d in f["dsets"]:
            prog["steps"].append(reading(rng, prog, h, 1, d=d))
    return prog


def random_program(rng, length):
    n = rng.choice([1, 2, 2, 3])
    prog = {"files": make_files(rng, n), "steps": []}
    steps, at, k, held = prog["steps"], {}, 0, []
    for _ in range(length):
        z = rng.random()
        if not at or (z < 0.12 and len(at) < 4):
            h = next(x for x in range(1, 6) if x not in at)
            mode = rng.choice(["soap", "soap", "swiftsimio", "swiftsimio", "swiftsimio", "other"])
            f = rng.randint(1, n)
            steps.append(opening(rng, prog, h, f, mode))
            if mode != "other":
                at[h] = f
            else:
                steps.append(reading(rng, prog, h, f))
                steps.append({"op": "close", "h": h})
            continue
        h = rng.choice(list(at))
        if z < 0.2:
            steps.append({"op": "close", "h": h})
            del at[h]
        elif z < 0.65:
            ident = 0
            if rng.random() < 0.3:
                k += 1
                ident = k
                held.append(k)
            steps.append(reading(rng, prog, h, at[h], ident))
        elif z < 0.75 and held:
            steps.append({"op": "settle", "id": held.pop(rng.randrange(len(held)))})
        elif z < 0.9:
            names = UNITS + ["a", "h"] * 3
            steps.append({"op": "unit", "h": h, "name": rng.choice(names)})
        else:
            steps.append(asking(rng, prog, h, at[h]))
    for i in held:
        steps.append({"op": "settle", "id": i})
    return prog


def cfg(n, small):
    return "SPECIFICATION Spec\nCONSTANTS\n N = %d\n Small = %s\nCHECK_DEADLOCK FALSE\n" % (n, small)


def model_cfg(wide, per_handle=True):
    return ("SPECIFICATION Spec\nCONSTANTS\n H = 2\n PerHandle = %s\n Wide = %s\nINVARIANT Declared\nCHECK_DEADLOCK FALSE\n"
            % (str(per_handle).upper(), str(wide).upper()))


def c26(check):
    rng = check.rng
    m = check.model("UnitsModel", cfg=model_cfg(check.pick(False, True)))
    gen = check.tlc_generate("GenUnits", cfg=cfg(check.pick(5, 6), check.pick("TRUE", "FALSE")))
    hist, dsets = gen["histories"], gen["dsets"]
    rng.shuffle(hist)
    rng.shuffle(dsets)
    progs = []
    for h in hist[:check.pick(120, 3000)]:
        progs.append(from_history(rng, h, make_files(rng, 2)))
    take = dsets[:check.pick(500, len(dsets))]
    for i in range(0, len(take), 25):
        progs.append(all_of(rng, take[i:i + 25]))
    for _ in range(check.pick(60, 1500)):
        progs.append(random_program(rng, rng.choice([6, 15, 30])))
    check.notes["generated"] = ("%d of %d two-file histories and %d of %d unit declarations generated from GenUnits; %d programs" %
                                (min(len(hist), check.pick(120, 3000)), len(hist), len(take), len(dsets), len(progs)))
    run_programs(check, progs, driver=DRIVER, module=MODULE, timeout=700)
    m.done()
    check.assumptions += ["unit values, scale factors and Hubble parameters are powers of two, so that the arithmetic is exact; "
                          "conversion to CGS is that of unyt and swiftsimio",
                          "datasets without any unit attributes are not read (the readers require the attributes)"]
    return check.finish()


CHECKS = {"C26": c26}


def replay(check, payload):
    run_programs(check, payload["programs"], driver=payload["driver"], module=payload["module"])
    return check.finish()
