H = "consistency_check/hash/hash_dirs_mpi.py"
RUN = '''run() { timeout -k 5 60 mpirun --oversubscribe -np "$1" /opt/venv/bin/python "${@:2}"; }
S=$HERE/consistency_check/hash/hash_dirs_mpi.py
'''
PRE = "cd - >/dev/null; HERE=$PWD; cd \"$W\" || exit 2\n" + RUN
SEEDS = [
 dict(id="s56", property="C29", files={H: [
   ("                    cur = self.con.execute(\"select path, hash from hashes where basedir=? and hash_type=?\", (basedir, hash_type))\n",
    "                    cur = self.con.execute(\"select path, hash from hashes where basedir=? order by hash_type=?\", (basedir, hash_type))\n")]},
  needs="a job which resumes with a database that has checksums of another type",
  breaks="files which have only a checksum of the other type get that one",
  demo_sh=PRE + '''mkdir -p T/a T/b; echo 1 > T/a/x; echo 2 > T/b/y
run 1 $S T --database d.db --type md5
rm T/b/y
run 1 $S T --database d.db --type md5 >/dev/null
/opt/venv/bin/python - <<'P'
import sqlite3, hashlib
c = sqlite3.connect("d.db"); c.execute("insert into hashes values(?,?,?,?)", ("T", "b/y", "sha1", hashlib.sha1(b"2\\n").hexdigest())); c.commit()
P
echo 2 > T/b/y
run 2 $S T --database d.db --type sha1 --resume --outfile out
A=$(sha1sum < T/a/x | cut -d" " -f1); B=$(sha1sum < T/b/y | cut -d" " -f1)
cat out
grep -q "^$A a/x" out && grep -q "^$B b/y" out
exit $?
'''),
 dict(id="s57", property="C29", files={H: [
   ("    if comm_rank == 0:\n        while dirlist.process_requests():\n            pass\n",
    "    if comm_rank == 0:\n        while comm_size > 1 and comm.Iprobe():\n            dirlist.process_requests()\n")]},
  needs="a worker which is still busy when rank 0 has run out of directories",
  breaks="the results of the worker's last directory are missing, and it waits for ever",
  demo_sh=PRE + '''mkdir -p T/a T/b T/c; echo 1 > T/a/x; head -c 400000000 /dev/zero > T/b/y; echo 3 > T/c/z; head -c 400000000 /dev/zero > T/c/w
timeout -k 5 40 mpirun --oversubscribe -np 3 /opt/venv/bin/python $S T --type sha256 --outfile out || exit 1
cat out
test $(grep -vc "^#" out) = 4
exit $?
'''),
 dict(id="s58", property="C29", files={H: [
   ("                for name, val in hashes.items():\n                    # Don't store anything if file could not be read or hash was read from database \n                    if name not in self.cache and val is not None:\n",
    "                for name, val in hashes.items():\n                    # Don't store anything if hash was read from database \n                    if name not in self.cache:\n")] if False else [
   ("                if rel_path in dirlist.cache:\n", "                if name in dirlist.cache or rel_path in dirlist.cache:\n"),
   ("                    this_hash = dirlist.cache[rel_path]\n", "                    this_hash = dirlist.cache.get(rel_path, dirlist.cache.get(name))\n")]},
  needs="resuming with a file which was not done, in a directory, and one of the same name at the top which was",
  breaks="the file gets the checksum of the one at the top",
  demo_sh=PRE + '''mkdir -p T/a; echo 1 > T/x
run 1 $S T --database d.db
echo 2 > T/a/x
run 2 $S T --database d.db --resume --outfile out
cat out
B=$(md5sum < T/a/x | cut -d" " -f1)
grep -q "^$B a/x" out
exit $?
'''),
 dict(id="s59", property="C29", files={H: [
   ("        if all_dirs_file is not None and rel_path == os.path.normpath(os.path.relpath(all_dirs_file, basedir)):\n",
    "        if all_dirs_file is not None and rel_path == os.path.normpath(all_dirs_file):\n")]},
  needs="an output file below the directory which is there from a previous run",
  breaks="the old output file is taken for data",
  demo_sh=PRE + '''mkdir -p T/a; echo 1 > T/x; echo old > T/a/sums
run 2 $S T --outfile T/a/sums
cat T/a/sums
! grep -q "a/sums$" T/a/sums && grep -q " x$" T/a/sums
exit $?
'''),
]
