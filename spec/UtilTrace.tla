----------------------------- MODULE UtilTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the serial utilities (matching, ranges, Peano-Hilbert *)
(* keys) against their meaning.  The functions have no state; what they    *)
(* must leave alone (their inputs) is part of each event.                  *)
(***************************************************************************)
EXTENDS Ranges, Peano, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
e == Trace[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(f) == f \in DOMAIN e

MatchBad ==
    IF Has("err") THEN {"unexpected-error"}
    ELSE Clause("match", IsMatch(e.a, e.b, e.res)) \cup Clause("not-an-index", e.whole) \cup Clause("inputs-changed", e.same)

AssignBad ==
    IF Inside(e.off, e.len, Len(e.arr)) /\ Sorted(e.off, e.len)
    THEN IF Has("err") THEN {"unexpected-error"}
         ELSE Clause("assigned", e.res = Assigned(e.arr, e.off, e.len, e.val))
    ELSE Clause("overlap-not-reported", Has("err")) \cup Clause("changed-despite-error", e.res = e.arr)

\* results are fractions <<numerator, denominator>>
SumBad ==
    IF Has("err") THEN {"unexpected-error"}
    ELSE LET w == IF Has("weight") THEN e.weight ELSE [i \in DOMAIN e.arr |-> 1]
             cols == 1..e.ncol
             Right(j, c) ==
               LET s == RangeSum(e.arr, w, e.off, e.len, j, c)
                   t == RangeWeight(w, e.off, e.len, j)
                   r == e.res[j][c]
               IN IF e.len[j] = 0 THEN r[1] = 0 /\ r[2] # 0
                  ELSE IF ~Has("norm") THEN r = <<s, 1>>
                  ELSE IF Has("intres") THEN r = <<IF s >= 0 THEN s \div t ELSE -((-s) \div t), 1>>
                  ELSE r[2] > 0 /\ r[1] * t = s * r[2]
         IN Clause("number-of-sums", Len(e.res) = Len(e.off))
            \cup Clause("range-sum", Len(e.res) = Len(e.off) => \A j \in DOMAIN e.off : \A c \in cols : Right(j, c))
            \cup Clause("result-type", e.restype = e.wanttype)
            \cup Clause("inputs-changed", e.same)

----------------------------------------------------------------------------
KeysBad ==
    IF Has("err") THEN {"unexpected-error"}
    ELSE Clause("number-of-keys", Len(e.keys) = Len(e.cells))
         \cup Clause("key-of-cell", Len(e.keys) = Len(e.cells) =>
                \A i \in DOMAIN e.cells : e.keys[i] = Key(e.cells[i][1], e.cells[i][2], e.cells[i][3], e.bits))
InverseBad ==
    IF Has("err") THEN {"unexpected-error"}
    ELSE Clause("number-of-cells", Len(e.cells) = Len(e.keys))
         \cup Clause("inverse-of-key", Len(e.keys) = Len(e.cells) =>
                \A i \in DOMAIN e.cells :
                   /\ \A j \in 1..3 : e.cells[i][j] >= 0 /\ e.cells[i][j] < 2 ^ e.bits
                   /\ e.keys[i] = Key(e.cells[i][1], e.cells[i][2], e.cells[i][3], e.bits))
\* coordinates are e.m / 4 cell sizes
CoordsBad ==
    IF Has("err") THEN {"unexpected-error"}
    ELSE Clause("number-of-keys", Len(e.keys) = Len(e.m))
         \cup Clause("key-of-coordinates", Len(e.keys) = Len(e.m) =>
                \A i \in DOMAIN e.m :
                   e.keys[i] = Key(e.m[i][1] \div 4, e.m[i][2] \div 4, e.m[i][3] \div 4, e.bits))

\* all cells of one level: the properties themselves, on what was observed
RECURSIVE Num(_)
Num(k) == IF k = <<>> THEN 0 ELSE 8 * Num(SubSeq(k, 1, Len(k) - 1)) + k[Len(k)]
Abs(a) == IF a < 0 THEN -a ELSE a
LevelBad ==
    IF Has("err") THEN {"unexpected-error"}
    ELSE LET N == 8 ^ e.bits
             nums == {Num(e.keys[i]) : i \in DOMAIN e.keys}
         IN Clause("keys-fill-the-range", nums = 0..(N - 1) /\ Len(e.keys) = N)
            \cup Clause("neighbours-share-a-face",
                   \A k \in 1..(N - 1) :
                      Abs(e.curve[k][1] - e.curve[k+1][1]) + Abs(e.curve[k][2] - e.curve[k+1][2])
                      + Abs(e.curve[k][3] - e.curve[k+1][3]) = 1)
            \cup Clause("curve-visits-all", Cardinality({e.curve[k] : k \in 1..N}) = N)
            \cup KeysBad

Bad == CASE e.op = "match" -> MatchBad
         [] e.op = "assign" -> AssignBad
         [] e.op = "sum" -> SumBad
         [] e.op = "keys" -> KeysBad
         [] e.op = "inverse" -> InverseBad
         [] e.op = "coords" -> CoordsBad
         [] e.op = "level" -> LevelBad
         [] OTHER -> {"unknown-operation"}

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ bad' = (LET b == Bad IN IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b]))
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
