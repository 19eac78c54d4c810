------------------------------- MODULE GenBin ------------------------------
\* All histories of L operations on the given objects: read, close, drop-and-reopen.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS Objs, L
VARIABLE done
Ops == {"get", "close", "drop"} \X Objs
Hist == {h \in [1..L -> Ops] : h[L][1] = "get" /\ h[1][1] = "get"}
Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.OUT, SetToSeq(Hist)) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
