------------------------------ MODULE JobTrace -----------------------------
(***************************************************************************)
(* Whole MPI jobs given good or bad input.  Each event is one job: what    *)
(* every rank was given, what came of the call on every rank ("value",     *)
(* "error", "exit", or "stopped" if the rank was ended from outside), the  *)
(* exit code of the job, and whether it had to be killed (hung).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
e == Trace[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Ranks == DOMAIN e.how

Digits == {"0", "1", "7", "12", "-3", "100"}
LastOf(args, k, dflt) ==
    LET s == SelectSeq(args, LAMBDA a : a[1] = k) IN IF s = <<>> THEN dflt ELSE s[Len(s)][2]
Number(args, k) == Len(SelectSeq(args, LAMBDA a : a[1] = k))

\* the parser of the test: a positional integer, --nfiles INT, --mode a|b, --flag, --out STR (required)
Valid(args) ==
    /\ Number(args, "pos") = 1
    /\ Number(args, "out") >= 1
    /\ Number(args, "unknown") = 0
    /\ \A i \in DOMAIN args : args[i][1] \in {"pos", "nfiles"} => args[i][2] \in Digits
    /\ \A i \in DOMAIN args : args[i][1] = "mode" => args[i][2] \in {"a", "b"}
Help(args) == Number(args, "help") > 0
Parsed(args) ==
    [snap |-> LastOf(args, "pos", ""), nfiles |-> LastOf(args, "nfiles", "1"), mode |-> LastOf(args, "mode", "a"),
     flag |-> IF Number(args, "flag") > 0 THEN "yes" ELSE "no", out |-> LastOf(args, "out", "")]

NobodyGoesOn == Clause("rank-carried-on", \A r \in Ranks : e.how[r] # "value")

ParseBad ==
    IF Valid(e.args[1]) /\ ~Help(e.args[1])
    THEN Clause("good-arguments-refused", \A r \in Ranks : e.how[r] = "value")
         \cup Clause("arguments-differ-from-rank-0",
                     \A r \in Ranks : e.how[r] = "value" => e.val[r] = Parsed(e.args[1]))
         \cup Clause("exit-code", e.rc = 0)
    ELSE NobodyGoesOn

ErrchkBad ==
    IF \A r \in Ranks : e.raises[r] = "-"
    THEN Clause("value-lost", \A r \in Ranks : e.how[r] = "value" /\ e.val[r].v = ToString(r - 1 + 10))
         \cup Clause("exit-code", e.rc = 0)
    ELSE NobodyGoesOn \cup Clause("exit-code", e.rc # 0)

\* (the library aborts with error code 0 here, so the exit code says nothing)
AbortBad == NobodyGoesOn

Bad == IF e.hung THEN {"hang"}
       ELSE CASE e.op = "parse" -> ParseBad
              [] e.op = "errchk" -> ErrchkBad
              [] e.op = "abort" -> AbortBad
              [] OTHER -> {"unknown-operation"}

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ bad' = (LET b == Bad IN IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b]))
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
