"""Checks of the file formats: C21 to C25."""
from . import core
from .checks_util import serial
from .checks_bin import run_programs
from .gen_fmt import FmtGen, WorldGen

RECORDS = ("lg2.Snapshot", "g4.SubTab", "gadget", "mxxl.Field")
SIZED = ("lg3.SubTab", "lg3.SubIDs", "pg3.GroupIDs", "pg3.GroupTab", "pg3.SubTab", "pg3.SubIDs")
SANE = SIZED + ("lg2.GroupTab", "lg2.GroupIDs", "lg2.SubTab", "lg2.SubIDs", "rockstar")


def files(check, g, make, n):
    """n files of the kinds in `make`, some of them consistent, some damaged"""
    calls = []
    for i in range(n):
        made = make[i % len(make)]()
        fmt, r = made[0], check.rng.random()
        damage, fill = "", "random"
        if fmt in SANE and r < 0.3:
            fill = "zero"
            if fmt in SIZED and r < 0.15:
                damage = "size"
        elif fmt in RECORDS and r < 0.25:
            damage = check.rng.choice(["cut", "marker", "markers", "record"])
        elif "id" in made[3] and r > 0.95:
            made[2]["id_bytes"] = check.rng.choice([2, 16, 5])
            damage = "width"
        calls.append(g.case(made, fill=fill, damage=damage))
    g.fillin(calls)
    calls = [s for s in calls if g.damage(s)]
    return serial(check, "fmt_driver.py", calls, "FmtTrace", shards=6, procs=4,
                  key=lambda e: e["c"]["fmt"])


def c21(check):
    g = FmtGen(check)
    files(check, g, [g.gadget], check.pick(300, 4000))
    return check.finish()


def c22(check):
    g = FmtGen(check)
    make = [lambda k=k: g.lg2(k) for k in ("GroupTab", "GroupIDs", "SubTab", "SubIDs")]
    make += [lambda k=k: g.lg3(k) for k in ("SubTab", "SubIDs")]
    make += [lambda k=k: g.pg3(k) for k in ("GroupTab", "GroupIDs", "SubTab", "SubIDs")]
    make += [g.g4, g.lg2snap]
    files(check, g, make, check.pick(360, 4800))
    return check.finish()


def c25(check):
    g = FmtGen(check)
    make = [lambda k=k: g.mpa(k) for k in ("SubDesc", "TreeAux", "Tree")]
    make += [lambda k=k: g.mxxl(k) for k in ("SubDesc", "Field")]
    make += [g.rockstar, g.velociraptor]
    files(check, g, make, check.pick(210, 2800))
    return check.finish()


def c23(check):
    g = WorldGen(check)
    n = check.pick(50, 800)
    progs = g.lay([g.world_g4() for _ in range(n)] + [g.world_pg3() for _ in range(n)])
    run_programs(check, progs, "cat_driver.py", "CatTrace")
    check.assumptions = ["a catalogue has at least one group; datasets which no file of a catalogue has are not asked for",
                         "ranges which are read have at least one particle (P-Gadget3)"]
    return check.finish()


def c24(check):
    g = WorldGen(check)
    progs = g.lay(g.worlds_lg2(check.pick(80, 1000)))
    run_programs(check, progs, "cat_driver.py", "CatTrace")
    check.assumptions = ["the hash cells of the files cover the whole hash table; at least one cell is asked for"]
    return check.finish()


CHECKS = {"C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25}


def replay(check, payload):
    if "programs" in payload:
        run_programs(check, payload["programs"], payload["driver"], payload["module"])
    else:
        serial(check, payload["driver"], payload["calls"], payload["module"])
    return check.finish()
