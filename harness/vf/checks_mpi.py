"""Checks of the collective operations on distributed arrays (C01-C09)."""
import random

from . import core, gen_dist, mpi_run
from .mpi_run import Batch


def gen_cfg(kind, P, L, V):
    return ("SPECIFICATION Spec\nCONSTANTS\n Kind = \"%s\"\n P = %d\n MaxLen = %d\n Vals = {%s}\n" %
            (kind, P, L, ",".join(map(str, V))))


def enumerated(check, wants):
    """wants: [(kind, P, MaxLen, Vals)] -> {P: [programs]} enumerated by TLC"""
    procs = []
    for i, (kind, P, L, V) in enumerate(wants):
        out = check.path("gen%d.json" % i)
        procs.append((kind, P, out, check.tlc_start("GenDist", cfg=gen_cfg(kind, P, L, V),
                                                    env={"OUT": out}, tag="gen%d" % i)))
    res = {}
    total = 0
    for kind, P, out, p in procs:
        ok, gen, dis, text = check.tlc_finish(p, 400)
        progs = core.load_json_any(out)
        total += len(progs)
        for j, steps in enumerate(progs):
            res.setdefault(P, []).append({"id": "tlc-%s-%d-%d" % (kind, P, j), "comm": "world", "steps": steps})
    check.notes["programs_enumerated_by_tlc"] = check.notes.get("programs_enumerated_by_tlc", 0) + total
    return res


def exchange_models(check):
    """Start the design models every exchange relies on."""
    runs = []
    base = "SPECIFICATION Spec\nCONSTANTS\n P = %d\n MaxCount = %d\n Chunk = %d\n Method = \"%s\"\n Family = \"%s\"\n" \
           "INVARIANTS NoDeadlock Delivered InOrder Settled\n"
    cases = [(3, 2, 1, "hypercube", "lines"), (4, 2, 1, "hypercube", "lines"),
             (2, 3, 2, "hypercube", "all"), (2, 2, 1, "async", "all"), (3, 1, 1, "async", "lines")]
    if not check.quick:
        cases += [(5, 1, 1, "hypercube", "lines"), (3, 1, 1, "hypercube", "all"), (5, 2, 1, "hypercube", "lines"), (2, 3, 1, "async", "all"),
                  (6, 1, 1, "hypercube", "lines"), (3, 2, 1, "hypercube", "all")]
    for c in cases:
        runs.append(check.model("PairExchange", cfg=base % c, workers=2, tag="PairExchange-%d-%d-%d-%s-%s" % c,
                                timeout=800))
    return runs


def random_batches(check, kinds, n, nps=(1, 2, 3, 4, 8), big=False, jitter_np=(3,), eager_np=()):
    out = []
    for np in nps:
        g = gen_dist.Gen(random.Random("%s-%d-%d" % (check.prop, check.seed, np)), np, big)
        progs = [g.program(kinds[i % len(kinds)]) for i in range(n)]
        out.append(Batch(np, progs))
    for np in jitter_np:
        g = gen_dist.Gen(random.Random("%s-j%d-%d" % (check.prop, check.seed, np)), np, big)
        progs = [g.program(kinds[i % len(kinds)]) for i in range(max(10, n // 3))]
        out.append(Batch(np, progs, jitter=check.seed))
    for np in eager_np:
        g = gen_dist.Gen(random.Random("%s-e%d-%d" % (check.prop, check.seed, np)), np, True)
        progs = [g.program(kinds[i % len(kinds)]) for i in range(max(10, n // 3))]
        out.append(Batch(np, progs, eager=256))
    return out


ASSUME = ["Open MPI, mpi4py and numpy are trusted",
          "values are abstracted to small integers by strictly increasing codecs (int/uint/float dtypes)",
          "arrays handed to the code are contiguous and of native byte order"]


def run_dist(check, kinds, n_quick, n_thorough, enum_quick, enum_thorough, models=(), nps=(1, 2, 3, 4, 8),
             extra_batches=()):
    runs = [m() for m in models]
    flat = []
    for r in runs:
        flat += r if isinstance(r, list) else [r]
    progs = enumerated(check, check.pick(enum_quick, enum_thorough))
    batches = [Batch(P, ps) for P, ps in sorted(progs.items())]
    nps = nps if check.quick else tuple(sorted(set(nps + (5, 6, 7))))
    batches += random_batches(check, kinds, check.pick(n_quick, n_thorough), nps=nps, big=not check.quick,
                              jitter_np=check.pick((3,), (2, 4, 6)), eager_np=check.pick((4,), (2, 4, 5)))
    batches += list(extra_batches)
    mpi_run.run_and_validate(check, "DistTrace", batches, shards=check.pick(4, 8),
                             timeout=check.pick(240, 500))
    for m in flat:
        m.done()
    check.assumptions = list(ASSUME)
    return check.finish()


def psort_models(check):
    cfgs = ["SPECIFICATION Spec\nCONSTANTS\n P = %d\n MaxLen = %d\n V = {%s}\n"
            "INVARIANTS RoundsBounded SplitsRight Correct\n" % a for a in
            check.pick([(3, 2, "0,1,2"), (2, 3, "0,1,2")],
                       [(3, 2, "0,1,2"), (2, 4, "0,1,2"), (3, 3, "0,1"), (4, 2, "0,1,2")])]
    return [check.model("PSort", cfg=c, workers=2, tag="PSort-%d" % i, timeout=800) for i, c in enumerate(cfgs)]


def c01(check):
    return run_dist(check, ["sort", "sortfetch", "sort"], 120, 900,
                    [("sort", 3, 2, [0, 1]), ("sort", 2, 2, [0, 1, 2])],
                    [("sort", 4, 2, [0, 1]), ("sort", 2, 3, [0, 1, 2]), ("sort", 3, 2, [0, 1, 2])],
                    models=[lambda: psort_models(check)])


def c02(check):
    return run_dist(check, ["fetch", "repart", "fetch"], 120, 900,
                    [("repart", 3, 2, [0]), ("fetch", 3, 1, [0])],
                    [("repart", 3, 3, [0]), ("fetch", 3, 2, [0]), ("repart", 4, 2, [0])],
                    extra_batches=[Batch(3, big_blocks("repart"), tag="bigrep")])


def big_blocks(kind):
    """Messages longer than the 100 MB at which exchanges are split: blocks of
    2^20 8 byte elements stand for one abstract element each."""
    progs = []
    if kind == "alltoallv":
        for m in ("hypercube", "async"):
            for i, (n01, n10) in enumerate(((26, 13), (13, 27))):
                sc = [[0, n01], [n10, 1]]
                progs.append({"id": "big-%s-%d" % (m, i), "comm": "world", "steps": [
                    {"op": "new", "dst": "a", "codec": "blk",
                     "val": [list(range(1, n01 + 1)), list(range(41, 42 + n10))]},
                    {"op": "alltoallv", "a": "a", "dst": "b", "scount": sc, "soff": [[0, 0], [0, n10]],
                     "rcount": [[0, n10], [n01, 1]], "roff": [[0, 0], [0, n01]], "rlen": [n10, n01 + 1],
                     "fill": 0, "method": m}]})
        progs.append({"id": "big-sendrecv", "comm": "world", "steps": [
            {"op": "new", "dst": "a", "codec": "blk", "val": [list(range(1, 27)), list(range(40, 54))]},
            {"op": "sendrecv", "a": "a", "dst": "b", "peer": [1, 0], "fill": 0, "rlen": [14, 26]}]})
    else:
        progs.append({"id": "big-repart", "comm": "world", "steps": [
            {"op": "new", "dst": "a", "codec": "blk", "val": [list(range(1, 28)), [], [40, 41]]},
            {"op": "repart", "a": "a", "ndesired": [1, 26, 2], "dst": "b"}]})
    return progs


def c03(check):
    extra = [Batch(2, big_blocks("alltoallv"), tag="big")]
    return run_dist(check, ["alltoallv", "alltoallv", "sendrecv"], 150, 1200,
                    [("alltoallv", 3, 1, [0, 1]), ("alltoallv", 2, 2, [0, 1, 2])],
                    [("alltoallv", 3, 1, [0, 1]), ("alltoallv", 2, 2, [0, 1, 2, 3])],
                    models=[lambda: exchange_models(check)], nps=(1, 2, 3, 4, 5, 8), extra_batches=extra)


def c04(check):
    return run_dist(check, ["match"], 150, 900,
                    [("match", 3, 1, [0, 1]), ("match", 2, 2, [0, 1])],
                    [("match", 3, 1, [0, 1, 2]), ("match", 2, 2, [0, 1, 2])])


def c05(check):
    return run_dist(check, ["unique"], 150, 900,
                    [("unique", 3, 2, [0, 1])],
                    [("unique", 3, 2, [0, 1, 2]), ("unique", 4, 2, [0, 1])])


def c06(check):
    return run_dist(check, ["reduce", "bincount"], 160, 1000,
                    [("reduce", 3, 1, [0]), ("bincount", 3, 2, [0, 1])],
                    [("reduce", 3, 2, [0]), ("bincount", 3, 2, [0, 1, 2])])


def c07(check):
    return run_dist(check, ["gather", "gather", "gather2d", "nonezero"], 150, 900,
                    [], [])


def c08(check):
    return run_dist(check, ["groups"], 150, 900,
                    [("groups", 3, 2, [0, 2]), ("groups", 2, 3, [0, 1])],
                    [("groups", 3, 2, [0, 1, 2]), ("groups", 2, 3, [0, 1, 2])])


def c09(check):
    return run_dist(check, ["halos", "halos", "consistent"], 120, 900, [], [])


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06,
          "C07": c07, "C08": c08, "C09": c09}


def replay(check, payload):
    b = Batch(payload["np"], payload["programs"], jitter=payload.get("jitter"), eager=payload.get("eager"))
    mpi_run.run_and_validate(check, "DistTrace", [b])
    return check.finish()
