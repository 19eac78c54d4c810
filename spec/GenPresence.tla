----------------------------- MODULE GenPresence -----------------------------
(* All small outputs: the number declared, the files there, the number of   *)
(* directories and whether the first file can be read.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils
CONSTANTS N
VARIABLE done
Cases == {[n |-> n, here |-> here, dirs |-> d, good |-> g] : n \in 1..N, here \in {SetToSeq(s) : s \in SUBSET (0..N)}, d \in 0..2, g \in BOOLEAN}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.OUT, [cases |-> SetToSeq(Cases)])
Spec == Init /\ [][Next]_done
=============================================================================
