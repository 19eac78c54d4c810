---------------------------- MODULE PresenceTrace ----------------------------
(* Recorded runs of the file presence checks over trees which are changed   *)
(* between them.  State: the tree.                                          *)
EXTENDS Presence, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tree, bad
vars == <<l, tree, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Key(x) == <<x.base, x.i, x.file>>
CheckBad(e) ==
    IF e.res.failed THEN {"failed"}
    ELSE LET rep == Report(IF e.there THEN tree ELSE [dirs |-> {}, files |-> {}], e)
             want == {y.line : y \in rep} got == ToSet(e.res.lines)
         IN Clause("outputs-reported", {Key(x) : x \in want} = {Key(x) : x \in got})
            \cup Clause("reported-once", Len(e.res.lines) = Cardinality({Key(x) : x \in got}))
            \cup Clause("complete-or-not", \A x \in got : \A y \in want : Key(x) = Key(y) => x.ok = y.ok)
            \cup Clause("numbers-of-files", got \subseteq want)
            \cup Clause("summary", ToSet(e.res.summary) = Summary(rep))
            \cup Clause("summary-once", Len(e.res.summary) = Cardinality(ToSet(e.res.summary)))
            \cup Clause("nothing-else", e.res.other = 0)
OpBad(e) == CASE e.op = "check" -> CheckBad(e)
              [] e.op = "wrong" -> Clause("wrong-arguments", e.res.failed /\ e.res.lines = <<>>)
              [] OTHER -> {}
Entry(x) == <<x.dir, x.name>>
Step(e) ==
    CASE e.op = "begin" -> [dirs |-> {}, files |-> {}]
      [] e.op = "edit" ->
           LET gone == ToSet(e.rmdirs) new == ToSet(e.files) names == {Entry(x) : x \in new} \cup {Entry(x) : x \in ToSet(e.del)} IN
           [dirs |-> (tree.dirs \ gone) \cup ToSet(e.dirs),
            files |-> {x \in tree.files : x.dir \notin gone /\ Entry(x) \notin names} \cup new]
      [] OTHER -> tree
Init == l = 1 /\ tree = [files |-> {}, dirs |-> {}] /\ bad = <<>>
Next1 == /\ l <= Len(Trace)
         /\ \E e \in {Trace[l]} :
              /\ tree' = Step(e)
              /\ \E b \in {OpBad(e)} : bad' = IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b])
         /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED <<bad, tree>>
Next == Next1 \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
