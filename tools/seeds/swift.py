S = "python/virgo/formats/swift.py"
HEAD = '''import os, sys, tempfile, shutil, warnings
warnings.simplefilter("ignore")
import h5py, numpy as np
from virgo.formats.swift import SwiftSnapshot
from virgo.formats.soap import SOAPCatalogue
where = tempfile.mkdtemp()
UNITS = (1024.0, 2.0 ** 20, 32.0, 2.0, 1.0)
def attr(x): return np.asarray([float(x)])
def make(name, a, h):
    f = h5py.File(os.path.join(where, name), "w")
    for n, l, u in zip(("length", "mass", "time", "temperature", "current"), "LMtTI", UNITS):
        f.require_group("Units").attrs["Unit %s in cgs (U_%s)" % (n, l)] = attr(u)
    for n in ("parsec", "solar_mass", "newton_G"):
        f.require_group("PhysicalConstants/CGS").attrs[n] = attr(3.0)
    for n, v in {"Scale-factor": a, "h": h, "Redshift": 1 / a - 1, "H0 [internal units]": 0.5, "Omega_m": 0.25,
                 "Omega_lambda": 0.75, "Omega_b": 0.03, "Omega_r": 0, "w_0": -1, "w_a": 0, "w": -1}.items():
        f.require_group("Cosmology").attrs[n] = attr(v)
    return f
def dataset(f, name, data, exps, ea, eh, extra=1.0, attribute="physical CGS"):
    d = f.create_dataset(name, data=data)
    c, a, h = extra, f["Cosmology"].attrs["Scale-factor"][0], f["Cosmology"].attrs["h"][0]
    for l, u in zip("LMtTI", UNITS):
        d.attrs["U_%s exponent" % l] = attr(exps.get(l, 0))
        c *= u ** exps.get(l, 0)
    d.attrs["a-scale exponent"], d.attrs["h-scale exponent"] = attr(ea), attr(eh)
    d.attrs["Conversion factor to CGS (not including cosmological corrections)"] = attr(c)
    d.attrs["Conversion factor to %s (including cosmological corrections)" % attribute] = attr(c * a ** ea * h ** eh)
    return c * a ** ea * h ** eh
def done(ok):
    shutil.rmtree(where)
    sys.exit(0 if ok else 1)
'''
SEEDS = [
 dict(id="s50", property="C26", files={S: [
   ("    factor = cgs_conversion_from_attrs / cgs_conversion_from_unyt\n    if np.isclose(factor, 1.0, atol=0.0, rtol=1.0e-9):\n        return unit\n",
    "    factor = cgs_conversion_from_attrs / cgs_conversion_from_unyt\n    if np.isclose(factor, 1.0):\n        return unit\n")]},
  needs="a catalogue quantity whose declared factor is within 1e-5 of the product of its base units",
  breaks="numbers are converted without the declared correction",
  demo=HEAD + '''f = make("x", 0.5, 0.5)
c = dataset(f, "d", np.arange(1.0, 4.0), {"L": 1}, 1, 0, extra=1 + 4e-6)
f.close()
r = SOAPCatalogue(os.path.join(where, "x"), "r")["d"][...].in_cgs()
print(r, c)
done(np.allclose(np.asarray(r), c * np.arange(1.0, 4.0), rtol=1e-8))
'''),
 dict(id="s51", property="C26", files={S: [
   ("def soap_unit_registry_from_snapshot(snap):\n", "_registries = {}\n\ndef soap_unit_registry_from_snapshot(snap):\n"),
   ("    # Create a new registry\n    reg = unyt.unit_registry.UnitRegistry()\n",
    "    # Creating registries is slow, so re-use any we already have for this unit system\n"
    "    key = tuple((group_name, name, float(value)) for group_name in (\"Units\", \"InternalCodeUnits\", \"PhysicalConstants/CGS\") if group_name in snap\n"
    "                for name, value in sorted(snap[group_name].attrs.items()))\n"
    "    if key in _registries:\n        return _registries[key]\n\n"
    "    # Create a new registry\n    reg = unyt.unit_registry.UnitRegistry()\n"),
   ("    return reg\n\n\ndef soap_units_from", "    _registries[key] = reg\n    return reg\n\n\ndef soap_units_from")]},
  needs="two snapshots of one simulation at different times read in the same program",
  breaks="the second uses the scale factor of the first in its units",
  demo=HEAD + '''ok = True
for name, a in (("x", 0.5), ("y", 0.25)):
    f = make(name, a, 0.5)
    c = dataset(f, "d", np.arange(1.0, 4.0), {"L": 1}, 1, 0)
    f.close()
    s = SwiftSnapshot(os.path.join(where, name), "r")
    r = s["d"][...]
    print(r.units, r.in_cgs(), c, s.get_unit("a").base_value)
    ok = ok and np.allclose(np.asarray(r.in_cgs()), c * np.arange(1.0, 4.0)) and s.get_unit("a").base_value == a and str(r.units) == "a*snap_length"
done(ok)
'''),
 dict(id="s52", property="C26", files={S: [
   ("        cgs_conversion_from_attrs = float(attrs[\"Conversion factor to CGS (including cosmological corrections)\"])\n",
    "        cgs_conversion_from_attrs = float(attrs[\"Conversion factor to CGS (not including cosmological corrections)\"])\n")]},
  needs="a file written by an older version, where the attribute has its old name, at a scale factor other than one",
  breaks="comoving quantities are converted without the powers of the scale factor",
  demo=HEAD + '''f = make("x", 0.5, 0.5)
c = dataset(f, "d", np.arange(1.0, 4.0), {"L": 1}, 1, 0, attribute="CGS")
f.close()
r = SwiftSnapshot(os.path.join(where, "x"), "r")["d"][...].in_cgs()
print(r, c)
done(np.allclose(np.asarray(r), c * np.arange(1.0, 4.0), rtol=1e-8))
'''),
 dict(id="s53", property="C26", files={S: [
   ("    def __init__(self, obj):\n        super(SwiftGroup, self).__init__(obj)\n\n    def __getitem__(self, key):\n        obj = self.obj[key]\n        if isinstance(obj, h5py.Dataset):\n            result = SwiftDataset(obj)\n        elif isinstance(obj, h5py.Group):\n            result = SwiftGroup(obj)\n",
    "    mode = \"soap\"\n\n    def __init__(self, obj):\n        super(SwiftGroup, self).__init__(obj)\n\n    def __getitem__(self, key):\n        obj = self.obj[key]\n        if isinstance(obj, h5py.Dataset):\n            result = SwiftDataset(obj, mode=self.mode)\n        elif isinstance(obj, h5py.Group):\n            result = SwiftGroup(obj)\n"),
   ("            result.mode = self.mode\n", "")]},
  needs="swiftsimio mode with datasets reached one group at a time",
  breaks="the arrays are not of the kind asked for",
  demo=HEAD + '''f = make("x", 0.5, 0.5)
c = dataset(f, "g/d", np.arange(1.0, 4.0), {"L": 1}, 1, 0)
f.close()
s = SwiftSnapshot(os.path.join(where, "x"), "r", mode="swiftsimio")
ok = True
for r in (s["g/d"][...], s["g"]["d"][...]):
    print(type(r), r)
    ok = ok and getattr(r, "comoving", None) is True
done(ok)
'''),
 dict(id="s54", property="C26", files={S: [
   ("        data = self.obj[key]\n        if self.mode", "        data = self.obj[key]\n        if np.size(data) == 0:\n            return data # nothing to convert\n        if self.mode")]},
  needs="a selection of no elements",
  breaks="the empty array has no units",
  demo=HEAD + '''f = make("x", 0.5, 0.5)
dataset(f, "d", np.arange(1.0, 4.0), {"L": 1}, 1, 0)
f.close()
ok = True
for mode in ("soap", "swiftsimio"):
    d = SwiftSnapshot(os.path.join(where, "x"), "r", mode=mode)["d"]
    for r in (d[:2], d[2:2], d[np.zeros(3, dtype=bool)]):
        print(r.shape, getattr(r, "units", None))
        ok = ok and hasattr(r, "units")
done(ok)
'''),
 dict(id="s55", property="C26", files={S: [
   ("            a_exponent = self.attrs[\"a-scale exponent\"][0]\n", "            a_exponent = int(self.attrs[\"a-scale exponent\"][0])\n")]},
  needs="swiftsimio mode and a dimension which is not a whole power of length",
  breaks="conversion to physical units uses the wrong power of the scale factor",
  demo=HEAD + '''f = make("x", 0.25, 0.5)
c = dataset(f, "d", np.arange(1.0, 4.0), {"L": 1.5, "t": -1}, 1.5, 0)
f.close()
r = SwiftSnapshot(os.path.join(where, "x"), "r", mode="swiftsimio")["d"][...].to_physical().in_cgs()
print(r, c)
done(np.allclose(np.asarray(r), c * np.arange(1.0, 4.0), rtol=1e-8))
'''),
]
