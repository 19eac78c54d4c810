------------------------------- MODULE Hashing -------------------------------
(***************************************************************************)
(* Checksums of the files of a directory tree.                             *)
(*                                                                         *)
(* A tree is a set of files [dir |-> path of the directory ("" at the top), *)
(* name, c |-> number of the content, or Unreadable] and the set of its     *)
(* directories.  A job names the files it wants by patterns for the path    *)
(* below the top; patterns have * (any characters, slashes too), ? (any     *)
(* character), and [ab] or [!ab] (one character in, or not in, the list).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Unreadable == -1
Path(f) == IF f.dir = "" THEN f.name ELSE f.dir \o "/" \o f.name
Char(s, i) == SubSeq(s, i, i)
RECURSIVE Glob(_, _)
Glob(p, s) ==
    IF Len(p) = 0 THEN Len(s) = 0
    ELSE LET c == Char(p, 1) rest == SubSeq(p, 2, Len(p)) IN
         CASE c = "*" -> \E i \in 0..Len(s) : Glob(rest, SubSeq(s, i + 1, Len(s)))
           [] c = "?" -> Len(s) > 0 /\ Glob(rest, SubSeq(s, 2, Len(s)))
           [] c = "[" -> LET close == CHOOSE i \in 1..Len(p) : Char(p, i) = "]" /\ \A j \in 1..i-1 : Char(p, j) # "]"
                             neg == Char(p, 2) = "!"
                             set == {Char(p, i) : i \in (IF neg THEN 3 ELSE 2)..(close - 1)}
                         IN Len(s) > 0 /\ ((Char(s, 1) \in set) # neg) /\ Glob(SubSeq(p, close + 1, Len(p)), SubSeq(s, 2, Len(s)))
           [] OTHER -> Len(s) > 0 /\ Char(s, 1) = c /\ Glob(rest, SubSeq(s, 2, Len(s)))

\* The files a job takes: its own output files are not among them
Own(job, f) == (job.outfile # "" /\ Path(f) = job.outfile) \/ (job.dirfile # "" /\ f.name = job.dirfile)
Matches(pats, f) == \E i \in DOMAIN pats : Glob(pats[i], Path(f))
Wanted(job, f) == ~Own(job, f) /\ (job.hasinc => Matches(job.include, f)) /\ ~(job.hasexc /\ Matches(job.exclude, f))

(***************************************************************************)
(* The database: a set of [base, path, type, c].  A job which resumes takes *)
(* the checksums it finds there as they are; one which does not starts with *)
(* an empty database.                                                      *)
(***************************************************************************)
Cached(db, job) == {r \in db : job.resume /\ job.hasdb /\ r.base = job.base /\ r.type = job.type}
Possible(db, job) == job.resume => Cached(db, job) # {}
Result(db, job, f) == LET hit == {r \in Cached(db, job) : r.path = Path(f)}
                      IN IF hit = {} THEN f.c ELSE (CHOOSE r \in hit : TRUE).c
Results(db, job, files) == {<<Path(f), Result(db, job, f)>> : f \in {g \in files : Wanted(job, g)}}
NewRows(db, job, files) == {[base |-> job.base, path |-> Path(f), type |-> job.type, c |-> f.c] :
                              f \in {g \in files : Wanted(job, g) /\ g.c # Unreadable /\ \A r \in Cached(db, job) : r.path # Path(g)}}
Kept(db, job) == IF job.resume THEN db ELSE {}
=============================================================================
