---------------------------- MODULE FailTogether ---------------------------
(***************************************************************************)
(* Why input must be judged by all ranks together.                         *)
(*                                                                         *)
(* P ranks call a collective operation.  Each has an input which agrees    *)
(* with rank 1's or not (ok).  The operation checks the input and then     *)
(* enters K further collective steps.  With Agreed = TRUE the verdict is   *)
(* itself a collective step (a reduction over all ranks) and every rank    *)
(* takes the same branch; with Agreed = FALSE a rank acts on its own       *)
(* verdict, which is what collective_write did and which deadlocks:        *)
(* Together is then violated.                                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS P, K, Agreed
Ranks == 1..P
VARIABLES ok, pc, arrived, round
vars == <<ok, pc, arrived, round>>
\* pc[r] : "check", "verdict" (waiting for the others' opinion), "work", "done", "error"
Init == /\ ok \in [Ranks -> BOOLEAN] /\ ok[1]
        /\ pc = [r \in Ranks |-> "check"]
        /\ arrived = {}              \* ranks inside the current collective step
        /\ round = [r \in Ranks |-> 0]
Check(r) ==
    /\ pc[r] = "check"
    /\ pc' = [pc EXCEPT ![r] = IF Agreed THEN "verdict" ELSE IF ok[r] THEN "work" ELSE "error"]
    /\ arrived' = IF Agreed THEN arrived \cup {r} ELSE arrived
    /\ UNCHANGED <<ok, round>>
\* a collective step completes once every rank is in it
Verdict ==
    /\ arrived = Ranks /\ \A r \in Ranks : pc[r] = "verdict"
    /\ pc' = [r \in Ranks |-> IF \A q \in Ranks : ok[q] THEN "work" ELSE "error"]
    /\ arrived' = {}
    /\ UNCHANGED <<ok, round>>
Enter(r) ==
    /\ pc[r] = "work" /\ r \notin arrived /\ round[r] < K
    /\ arrived' = arrived \cup {r}
    /\ UNCHANGED <<ok, pc, round>>
Collective ==
    /\ arrived = Ranks /\ \A r \in Ranks : pc[r] = "work"
    /\ arrived' = {}
    /\ round' = [r \in Ranks |-> round[r] + 1]
    /\ UNCHANGED <<ok, pc>>
Leave(r) ==
    /\ pc[r] = "work" /\ r \notin arrived /\ round[r] = K
    /\ pc' = [pc EXCEPT ![r] = "done"]
    /\ UNCHANGED <<ok, arrived, round>>
Next == Verdict \/ Collective \/ \E r \in Ranks : Check(r) \/ Enter(r) \/ Leave(r)
Spec == Init /\ [][Next]_vars
Terminal(r) == pc[r] \in {"done", "error"}
\* no rank is left waiting: whenever nothing can happen any more, all have ended
NoHang == ~(ENABLED Next) => \A r \in Ranks : Terminal(r)
Together == \A r, q \in Ranks : pc[r] = "done" => pc[q] # "error"
AllOrNone == (\A r \in Ranks : Terminal(r)) =>
             ((\A r \in Ranks : pc[r] = "done") <=> (\A r \in Ranks : ok[r]))
=============================================================================
