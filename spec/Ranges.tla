------------------------------- MODULE Ranges ------------------------------
(* Meaning of serial matching, range assignment and range sums. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

\* m is a valid matching of a against b (indices from 0, -1: none)
IsMatch(a, b, m) ==
    /\ Len(m) = Len(a)
    /\ \A i \in DOMAIN a :
         IF m[i] = -1 THEN \A j \in DOMAIN b : b[j] # a[i]
         ELSE m[i] >= 0 /\ m[i] < Len(b) /\ b[m[i] + 1] = a[i]

InRange(off, len, i) == i >= off /\ i < off + len
Sorted(off, len) == \A i \in 1..(Len(off) - 1) : off[i] + len[i] <= off[i + 1]
Inside(off, len, n) == \A i \in DOMAIN off : off[i] >= 0 /\ len[i] >= 0 /\ off[i] + len[i] <= n

Assigned(arr, off, len, val) ==
    [i \in DOMAIN arr |->
       LET k == {j \in DOMAIN off : InRange(off[j], len[j], i - 1)}
       IN IF k = {} THEN arr[i] ELSE val[CHOOSE j \in k : TRUE]]

\* arr is a sequence of rows (sequences of equal length); weights w
RangeSum(arr, w, off, len, j, c) ==
    FoldLeft(+, 0, [i \in 1..len[j] |-> arr[off[j] + i][c] * w[off[j] + i]])
RangeWeight(w, off, len, j) == FoldLeft(+, 0, [i \in 1..len[j] |-> w[off[j] + i]])
=============================================================================
