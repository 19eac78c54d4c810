----------------------------- MODULE HashTrace -----------------------------
(* Recorded jobs which compute the checksums of a tree, some of them killed *)
(* at some moment.  State: the tree and the database.                       *)
EXTENDS Hashing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Files(e) == ToSet(e.files)
Rows(e) == ToSet(e.res.db)
Lines(s) == {<<s[i].p, s[i].c>> : i \in DOMAIN s}
DirLines(job, d) == {<<f.name, Result(st.db, job, f)>> : f \in {g \in st.files : g.dir = d /\ Wanted(job, g)}}

\* Everything the job has to leave behind
Ended(e) ==
    Clause("exit-code", e.res.rc = 0)
    \cup (IF e.outfile = "" THEN {}
          ELSE IF ~e.res.hasout THEN {"output-missing"}
          ELSE Clause("output-files", {x[1] : x \in Lines(e.res.out)} = {x[1] : x \in Results(st.db, e, st.files)})
               \cup Clause("output-checksums", Lines(e.res.out) \subseteq Results(st.db, e, st.files))
               \cup Clause("output-once", Len(e.res.out) = Cardinality(Lines(e.res.out)))
               \cup Clause("output-sorted", e.res.sorted))
    \cup (IF e.dirfile = "" THEN Clause("directory-files", e.res.dirs = <<>>)
          ELSE Clause("directory-files", {x.d : x \in ToSet(e.res.dirs)} = st.dirs)
               \cup Clause("directory-checksums", \A x \in ToSet(e.res.dirs) : x.d \in st.dirs => Lines(x.lines) = DirLines(e, x.d))
               \cup Clause("directory-once", \A x \in ToSet(e.res.dirs) : Len(x.lines) = Cardinality(Lines(x.lines))))
    \cup (IF ~e.hasdb THEN {}
          ELSE Clause("database-rows", Rows(e) = Kept(st.db, e) \cup NewRows(st.db, e, st.files))
               \cup Clause("database-once", Len(e.res.db) = Cardinality(Rows(e))))
\* A killed job: the database has part of what is new, and all that was kept.
\* (Before the first transaction of a job which does not resume the old rows may still be there.)
Killed(e) ==
    IF ~e.hasdb THEN {}
    ELSE LET base == IF Kept(st.db, e) \subseteq Rows(e) /\ Rows(e) \ Kept(st.db, e) \subseteq NewRows(st.db, e, st.files) THEN TRUE ELSE Rows(e) = st.db
         IN Clause("database-after-kill", base) \cup Clause("database-once", Len(e.res.db) = Cardinality(Rows(e)))
Changed(e) == LET names == {<<f.dir, f.name>> : f \in ToSet(e.set)} \cup {<<f.dir, f.name>> : f \in ToSet(e.del)}
              IN {f \in st.files : <<f.dir, f.name>> \notin names} \cup ToSet(e.set)

OpBad(e) ==
    CASE e.op = "job" ->
           IF e.res.hung THEN {"hang"}
           ELSE IF e.res.killed THEN Killed(e)
           ELSE IF ~Possible(st.db, e) THEN Clause("resumed-from-nothing", ~e.res.hasout /\ e.res.dirs = <<>>) \cup Clause("database-rows", e.hasdb => Rows(e) = st.db)
           ELSE Ended(e)
      [] e.op = "wrong" -> IF e.res.hung THEN {"hang"} ELSE Clause("output-of-wrong-arguments", ~e.res.hasout)
      [] OTHER -> {}
\* The job's output files are taken away by whoever runs it
Without(e) == {f \in st.files : ~Own(e, f)}
Step(e) ==
    CASE e.op = "begin" -> [files |-> Files(e), dirs |-> ToSet(e.dirs), db |-> {}]
      [] e.op = "edit" -> [st EXCEPT !.files = Changed(e)]
      [] e.op = "job" -> [st EXCEPT !.db = IF e.hasdb THEN Rows(e) ELSE @, !.files = Without(e)]
      [] OTHER -> st
Init == l = 1 /\ st = [files |-> {}, dirs |-> {}, db |-> {}] /\ bad = <<>>
Next1 == /\ l <= Len(Trace)
         /\ \E e \in {Trace[l]} :
              /\ st' = Step(e)
              /\ \E b \in {OpBad(e)} : bad' = IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b])
         /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED <<bad, st>>
Next == Next1 \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
