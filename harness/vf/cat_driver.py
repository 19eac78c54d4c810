"""
Catalogues and snapshots split over files: cat_driver.py PROGRAMS.json OUT.ndjson
The working directory is scratch.
"""
import json
import os
import shutil
import sys

import numpy as np

from virgo.util.exceptions import SanityCheckFailedException

from vf import fmt_driver as fd

HERE = os.getcwd()


class Runner:
    def op_begin(self, s):
        self.snap = None
        self.world = s
        for n in os.listdir(HERE):
            if n.startswith("world"):
                shutil.rmtree(os.path.join(HERE, n))
        self.n = getattr(self, "n", 0) + 1
        self.base = os.path.join(HERE, "world%d%s" % (self.n, ["", "", " 100% [x]", "{i}%(i)d"][self.n % 4]))
        for f in s["tabs"] + s["snaps"]:
            p = os.path.join(self.base, f["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as out:
                out.write(bytes(f["bytes"]))
        return {}

    def op_cat(self, s):
        kw = dict(s["kw"])
        if not s["default"]:
            kw["datasets"] = s["datasets"]
        c = fd.reader(s["cls"])(self.base, self.world["isnap"], **kw)
        got = [fd.column(k, False, c[k]) for k in c]
        if len(c) != len(got):
            raise RuntimeError("length of the catalogue")
        return {"got": [{k: v for k, v in x.items() if k != "a"} for x in got]}

    def op_open(self, s):
        args = [self.base, self.world["basename"], self.world["isnap"]]
        self.snap = fd.reader(s["cls"])(*args, **s["kw"])
        return {}

    def cols(self, d):
        return [{k: v for k, v in fd.column(n, False, a).items() if k != "a"} for n, a in d.items()]

    def op_fof(self, s):
        gr = s["gr"]
        if "infile" in s:
            gr = {"list": list, "tuple": tuple, "array": np.asarray}[s["form"]](s["infile"])
        elif s["form"] == "numpy":
            gr = np.int64(gr)
        if s["kind"] == "g4":
            return {"got": [self.cols(d) for d in self.snap.read_fof_group(gr)]}
        return {"got": self.cols(self.snap.read_fof_group(gr, **self.sets(s)))}

    def sets(self, s):
        return {"datasets": tuple(s["datasets"])} if "datasets" in s else {}

    def op_sub(self, s):
        return {"got": self.cols(self.snap.read_subfind_group(s["gr"], **self.sets(s)))}

    def op_range(self, s):
        return {"got": self.cols(self.snap.read_particle_range(s["from"], s["count"], **self.sets(s)))}

    def op_cells(self, s):
        a = {"list": list, "array": np.asarray, "int32": lambda x: np.asarray(x, dtype=np.int32)}[s["form"]](s["cells"])
        return {"got": self.cols3(self.snap.read_cells(a))}

    def cols3(self, r):
        return [{k: v for k, v in fd.column("", False, a).items() if k != "a"} for a in r]

    def op_region(self, s):
        box = [x / 2 for x in s["box"]]
        if s["form"] == "array":
            box = np.asarray(box)
        elif s["form"] == "int" and all(x % 2 == 0 for x in s["box"]):
            box = [x // 2 for x in s["box"]]
        return {"got": self.cols3(self.snap.read_region(box))}

    def op_sane(self, s):
        f = fd.reader(s["cls"])(os.path.join(self.base, self.world["snaps"][s["file"]]["name"]))
        try:
            f.sanity_check()
        except SanityCheckFailedException:
            return {"reported": True}
        return {"reported": False}


def main():
    progs = json.load(open(sys.argv[1]))
    r = Runner()
    with open(sys.argv[2], "w") as out:
        for prog in progs:
            for s in prog:
                e = dict(s)
                try:
                    e.update(getattr(r, "op_" + s["op"])(s))
                except Exception as ex:
                    e["err"] = type(ex).__name__
                    e["why"] = str(ex)[:200]
                out.write(json.dumps(e) + "\n")
            out.flush()
        out.write('{"op": "end"}\n')


if __name__ == "__main__":
    main()
