------------------------------ MODULE GenTree ------------------------------
(* All forests of up to N nodes with branch masses 1..M.                    *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
CONSTANTS N, M
VARIABLE done
All == UNION {{[d |-> f, m |-> g] : f \in {h \in [1..n -> 0..n] : \A i \in 1..n : h[i] < i}, g \in [1..n -> 1..M]} : n \in 0..N}
Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.OUT, SetToSeq(All)) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
