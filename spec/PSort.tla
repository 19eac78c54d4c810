------------------------------- MODULE PSort -------------------------------
(***************************************************************************)
(* Design of the parallel sort: local sort, iterative search for the       *)
(* splitting values by weighted medians of local medians, deterministic    *)
(* distribution of ties by instance number, exchange, local merge.         *)
(*                                                                         *)
(* Checked for every input within the constants: the search finds every    *)
(* splitting value in a bounded number of rounds (it terminates), the      *)
(* amount of data each rank ends with is the amount it started with, and   *)
(* the result is the stable sort that Dist.tla specifies, index included.  *)
(***************************************************************************)
EXTENDS Dist

CONSTANTS P, MaxLen, V

Locals == UNION { [1..n -> V] : n \in 1..MaxLen }     \* ranks without data are left out by design

VARIABLES orig,     \* the input
          arr,      \* locally sorted data: elements <<value, original global index>>
          imin, imax, done, res, minr, maxr,
          rounds, phase, out
vars == <<orig, arr, imin, imax, done, res, minr, maxr, rounds, phase, out>>

R == 1..P
Offset(d, r) == SumTo(Counts(d), r - 1)
LocalSort(d, r) ==
    LET p == TLCEval(ArgSort(d[r])) IN [i \in DOMAIN d[r] |-> <<d[r][p[i]], Offset(d, r) + p[i] - 1>>]

Init == /\ orig \in [R -> Locals]
        /\ arr = TLCEval([r \in R |-> TLCEval(LocalSort(orig, r))])
        \* per rank r and target t
        /\ imin = [r \in R |-> [t \in R |-> 0]]
        /\ imax = [r \in R |-> [t \in R |-> Len(orig[r]) - 1]]
        /\ done = [t \in R |-> FALSE]
        /\ res = [t \in R |-> 0] /\ minr = [t \in R |-> 0] /\ maxr = [t \in R |-> 0]
        /\ rounds = 0 /\ phase = "search" /\ out = <<>>

Target(t) == Offset(orig, t)        \* global rank of the first element of rank t
NLocal(r, t) == IF imax[r][t] - imin[r][t] + 1 > 0 THEN imax[r][t] - imin[r][t] + 1 ELSE 0
\* each rank proposes its local median, weighted by the size of its active range;
\* a rank with nothing active proposes 0 with weight 0
Proposals(t) ==
    [r \in R |-> IF NLocal(r, t) > 0
                 THEN <<arr[r][imin[r][t] + NLocal(r, t) \div 2 + 1][1], NLocal(r, t)>>
                 ELSE <<0, 0>>]
WeightedMedian(ps) ==     \* the first proposal with at most half the weight on either side
    LET before(i) == {j \in R : ps[j][1] < ps[i][1] \/ (ps[j][1] = ps[i][1] /\ j < i)}
        weight(S) == LET RECURSIVE w(_)
                         w(T) == IF T = {} THEN 0 ELSE LET j == CHOOSE x \in T : TRUE IN ps[j][2] + w(T \ {j})
                     IN w(S)
        ok == {i \in R : /\ 2 * weight(before(i)) <= weight(R)
                         /\ 2 * (weight(R) - weight(before(i)) - ps[i][2]) <= weight(R)}
        first == CHOOSE k \in ok : before(k) \cap ok = {}
    IN ps[first][1]
Less(r, v) == Cardinality({i \in DOMAIN arr[r] : arr[r][i][1] < v})
Leq(r, v) == Cardinality({i \in DOMAIN arr[r] : arr[r][i][1] <= v})
SumR(f) == SumSeq(f)

Search ==
    /\ phase = "search"
    /\ \E t \in R : ~done[t]
    /\ \E est \in {[t \in R |-> IF done[t] THEN 0 ELSE WeightedMedian(TLCEval(Proposals(t)))]} :
       \E fs \in {[t \in R |-> SumR([r \in R |-> Less(r, est[t])])]} :
       \E ls \in {[t \in R |-> SumR([r \in R |-> Leq(r, est[t])]) - 1]} :
       LET hit(t) == ~done[t] /\ Target(t) >= fs[t] /\ Target(t) <= ls[t]
       IN /\ done' = TLCEval([t \in R |-> done[t] \/ hit(t)])
          /\ res' = TLCEval([t \in R |-> IF hit(t) THEN est[t] ELSE res[t]])
          /\ minr' = TLCEval([t \in R |-> IF hit(t) THEN fs[t] ELSE minr[t]])
          /\ maxr' = TLCEval([t \in R |-> IF hit(t) THEN ls[t] ELSE maxr[t]])
          /\ imin' = TLCEval([r \in R |-> [t \in R |->
                IF ~done[t] /\ ls[t] < Target(t) /\ Leq(r, est[t]) > imin[r][t] THEN Leq(r, est[t]) ELSE imin[r][t]]])
          /\ imax' = TLCEval([r \in R |-> [t \in R |->
                IF ~done[t] /\ fs[t] > Target(t) /\ Less(r, est[t]) - 1 < imax[r][t] THEN Less(r, est[t]) - 1 ELSE imax[r][t]]])
    /\ rounds' = rounds + 1
    /\ UNCHANGED <<orig, arr, phase, out>>

\* which rank does instance i of rank r's sorted data go to?  An element goes to the
\* last rank whose splitting point is not after it; of the elements equal to a
\* splitting value, instances are numbered over ranks in rank order.
Dest(r, i) ==
    LET v == arr[r][i][1]
        inst(t) == SumSeq([q \in 1..(r - 1) |-> Leq(q, v) - Less(q, v)])
                   + Cardinality({j \in 1..(i - 1) : arr[r][j][1] = v})
        atOrAfter(t) == \/ v > res[t]
                        \/ v = res[t] /\ inst(t) >= Target(t) - minr[t]
    IN CHOOSE t \in R : atOrAfter(t) /\ \A u \in R : atOrAfter(u) => u <= t

Exchange2 ==
    /\ phase = "search"
    /\ \A t \in R : done[t]
    /\ \E dest \in {[r \in R |-> [i \in DOMAIN arr[r] |-> <<arr[r][i], Dest(r, i)>>]]} :
       \E recv \in {[q \in R |-> FlattenSeq([r \in R |-> SelectSeq(dest[r], LAMBDA x : x[2] = q)])]} :
         out' = TLCEval([q \in R |->
                    SortSeq([i \in DOMAIN recv[q] |-> <<recv[q][i][1], i>>],
                            LAMBDA x, y : IF x[1][1] = y[1][1] THEN x[2] < y[2] ELSE x[1][1] < y[1][1])])
    /\ phase' = "finished"
    /\ UNCHANGED <<orig, arr, imin, imax, done, res, minr, maxr, rounds>>

Next == Search \/ Exchange2
Spec == Init /\ [][Next]_vars

\* the search always makes progress: the candidates shrink every round
RoundsBounded == rounds <= P * MaxLen + 1
SplitsRight ==
    LET f == TLCEval(Flat(orig))  s == TLCEval(Sorted(f))
    IN \A t \in R : done[t] => /\ res[t] = s[Target(t) + 1]
                              /\ minr[t] = Cardinality({i \in DOMAIN f : f[i] < res[t]})
Correct == phase = "finished" =>
    /\ Counts(out) = Counts(orig)
    /\ [r \in R |-> [i \in DOMAIN out[r] |-> out[r][i][1][1]]] = SortResult(orig)
    /\ [r \in R |-> [i \in DOMAIN out[r] |-> out[r][i][1][2]]] = SortIndex(orig)
=============================================================================
