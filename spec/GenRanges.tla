----------------------------- MODULE GenRanges -----------------------------
\* All small layouts of ranges over an array of up to N elements, valid and not.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS N, K
VARIABLE done
Pairs(n) == {p \in (0..n) \X (0..n) : p[1] + p[2] <= n}
Layouts(n, k) == UNION {[1..m -> Pairs(n)] : m \in 0..k}
All == UNION {{[n |-> n, off |-> [i \in DOMAIN f |-> f[i][1]], len |-> [i \in DOMAIN f |-> f[i][2]]]
               : f \in Layouts(n, K)} : n \in 0..N}
Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.OUT, SetToSeq(All)) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
