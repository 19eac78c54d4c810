E1 = "consistency_check/eagle/check_eagle_file_presence.py"
P1 = "consistency_check/p-gadget3/check_pgadget3_file_presence.py"
MK = '''mk() { /opt/venv/bin/python - "$@" <<'P'
import sys, os, h5py, numpy as np
name, n = sys.argv[1], int(sys.argv[2])
os.makedirs(os.path.dirname(name), exist_ok=True)
with h5py.File(name, "w") as f:
    g = f.create_group("Header")
    g.attrs["NumPart_ThisFile"] = np.zeros(6, dtype="i4")
    g.attrs["NumFilesPerSnapshot"] = np.int32(n)
    g.attrs["NTask"] = np.int32(n)
P
}
pg() { /opt/venv/bin/python - "$@" <<'P'
import sys, os, struct
name, n = sys.argv[1], int(sys.argv[2])
os.makedirs(os.path.dirname(name), exist_ok=True)
open(name, "wb").write(struct.pack("3iqi", 0, 0, 0, 0, n) + b"\\0" * 8)
P
}
'''
PRE = "cd - >/dev/null; HERE=$PWD; cd \"$W\" || exit 2\nexport PYTHONPATH=$HERE/python\n" + MK
SEEDS = [
 dict(id="s60", property="C30", files={E1: [
   ("            for ifile in range(nfiles):\n                fname = eagle_filename(basedir, dirbase, filebase, isnap, ifile)\n                if os.path.basename(fname) in fnames:\n                    files_ok += 1\n",
    "            stem = os.path.basename(fname)[:-len(\"0.hdf5\")]\n            files_ok = min(nfiles, sum(name.startswith(stem) for name in fnames))\n")]},
  needs="a directory where a file is missing and there is another one whose name begins in the same way",
  breaks="the directory is reported as complete",
  demo_sh=PRE + '''for i in 0 2; do mk r/snapshot_000_z020p000/snap_000_z020p000.$i.hdf5 3; done
touch r/snapshot_000_z020p000/snap_000_z020p000.1.hdf5.part
/opt/venv/bin/python $HERE/consistency_check/eagle/check_eagle_file_presence.py r 1 0 > out; cat out
grep -q "2 of 3 snap files" out
exit $?
'''),
 dict(id="s61", property="C30", files={E1: [
   ("    key = (simdir, dirbase, isnap)\n", "    key = (simdir, dirbase.split(\"_\")[0], isnap)\n")]},
  needs="a run with snapshots and snipshots of the same number at different redshifts",
  breaks="group files of the snipshots are looked for with the redshift of the snapshot",
  demo_sh=PRE + '''mk r/groups_000_z020p000/group_tab_000_z020p000.0.hdf5 1
mk r/groups_snip_000_z019p000/group_snip_tab_000_z019p000.0.hdf5 1
/opt/venv/bin/python $HERE/consistency_check/eagle/check_eagle_file_presence.py r 1 1 > out; cat out
grep -q "1 of 1 group_snip_tab files" out
exit $?
'''),
 dict(id="s62", property="C30", files={P1: [
   ("    for isnap in range(first_num, max_num+1, step):\n", "    for isnap in range(first_num, max_num - max_num % step + 1, step):\n")]},
  needs="a step greater than one from a first number which is not a multiple of it",
  breaks="the last output is left out of the report",
  demo_sh=PRE + '''/opt/venv/bin/python $HERE/consistency_check/p-gadget3/check_pgadget3_file_presence.py r snap 5 1 2 > out; cat out
grep -q "group_tab 005\\|groups 005" out
exit $?
'''),
 dict(id="s63", property="C30", files={P1: [
   ("        if not(check_dir(basedir, \"groups\", \"subhalo_ids\", isnap, get_nfiles_func)):\n            count_missing[\"subhalo_ids\"] += 1\n",
    "        if not(check_dir(basedir, \"groups\", \"subhalo_ids\", isnap, get_nfiles_func)):\n            count_missing[\"subhalo_ids\"] = count_missing[\"subhalo_tab\"] + 1\n")]},
  needs="a different number of incomplete directories for subhalo_tab and subhalo_ids",
  breaks="the summary has a wrong number for subhalo_ids",
  demo_sh=PRE + '''for n in 000 001 002; do pg r/groups_$n/subhalo_tab_$n.0 1; done
/opt/venv/bin/python $HERE/consistency_check/p-gadget3/check_pgadget3_file_presence.py r snap 2 > out; cat out
grep -q "subhalo_ids - 3 of 3" out
exit $?
'''),
]
