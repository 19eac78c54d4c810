-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Distributed arrays and the collective operations on them.               *)
(*                                                                         *)
(* A distributed array is a sequence over ranks 1..P of local sequences.   *)
(* An element is an integer, or a sequence of elements (a row of a multi   *)
(* dimensional array).  Global indexes are 0 based, as in the code: the    *)
(* elements of rank 1 come first, then those of rank 2, and so on.         *)
(*                                                                         *)
(* This module gives the *meaning* of each operation as a function or a    *)
(* relation of distributed arrays.  How the code gets there (splitting     *)
(* points, pairwise exchanges) is in PSort.tla and PairExchange.tla.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Ranks(d) == DOMAIN d
Flat(d) == TLCEval(FlattenSeq(d))
Counts(d) == [r \in DOMAIN d |-> Len(d[r])]
Total(d) == Len(FlattenSeq(d))
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, TLCEval(s))
SumTo(s, n) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(TLCEval(s), 1, n))
\* Cut the flat sequence f into local parts with the given counts.
Cut(f, counts) ==
    [r \in DOMAIN counts |->
        SubSeq(f, SumTo(counts, r - 1) + 1, SumTo(counts, r))]

(***************************************************************************)
(* Sorting.  The sort is stable: equal elements keep their global order.   *)
(***************************************************************************)
ArgSort(f) ==      \* 1-based positions of f in stable sorted order
    SortSeq([i \in 1..Len(f) |-> i],
            LAMBDA i, j : IF f[i] = f[j] THEN i < j ELSE f[i] < f[j])
Sorted(f) == LET p == TLCEval(ArgSort(f)) IN [i \in DOMAIN f |-> f[p[i]]]
SortIndex(d) ==    \* what return_index=True returns
    LET p == TLCEval(ArgSort(Flat(d))) IN Cut([i \in DOMAIN p |-> p[i] - 1], Counts(d))
SortResult(d) == Cut(TLCEval(Sorted(Flat(d))), Counts(d))

(***************************************************************************)
(* Fetching by global index, and moving elements between ranks.            *)
(***************************************************************************)
Fetch(a, ix) ==
    LET f == Flat(a) IN [r \in DOMAIN ix |-> [k \in DOMAIN ix[r] |-> f[ix[r][k] + 1]]]
Repartition(a, nd) == Cut(Flat(a), nd)

(***************************************************************************)
(* Matching: the global index of the first equal element, or -1.           *)
(***************************************************************************)
FirstIndex(f) ==   \* value -> first 0-based position
    FoldLeftDomain(LAMBDA m, i : IF f[i] \in DOMAIN m THEN m ELSE (f[i] :> (i - 1)) @@ m,
                   <<>>, f)
MatchOf(a, b) ==
    LET m == FirstIndex(Flat(b))
    IN [r \in DOMAIN a |-> [k \in DOMAIN a[r] |-> IF a[r][k] \in DOMAIN m THEN m[a[r][k]] ELSE -1]]

(***************************************************************************)
(* Unique values and multiplicities.                                       *)
(***************************************************************************)
UniqueFlat(a) == LET s == TLCEval(Sorted(Flat(a))) IN
                 SelectSeq([i \in DOMAIN s |-> <<i, s[i]>>],
                           LAMBDA p : p[1] = 1 \/ s[p[1] - 1] # p[2])
UniqueValues(a) == LET u == UniqueFlat(a) IN [i \in DOMAIN u |-> u[i][2]]
UniqueCounts(a) == LET u == UniqueFlat(a)
                       n == Total(a)
                   IN [i \in DOMAIN u |-> (IF i = Len(u) THEN n + 1 ELSE u[i + 1][1]) - u[i][1]]
Balanced(counts) == \A i, j \in DOMAIN counts : counts[i] - counts[j] \in -1..1

(***************************************************************************)
(* Reduction of updates into the elements they name.                       *)
(***************************************************************************)

LiftD(fn, x, y, nd) ==
    IF nd = 0 THEN CASE fn \in {"add", "SUM"} -> x + y
           [] fn \in {"maximum", "MAX"} -> IF x > y THEN x ELSE y
           [] fn \in {"minimum", "MIN"} -> IF x < y THEN x ELSE y
           [] fn \in {"multiply", "PROD"} -> x * y
    ELSE IF nd = 1 THEN [k \in DOMAIN x |->
           CASE fn \in {"add", "SUM"} -> x[k] + y[k]
             [] fn \in {"maximum", "MAX"} -> IF x[k] > y[k] THEN x[k] ELSE y[k]
             [] fn \in {"minimum", "MIN"} -> IF x[k] < y[k] THEN x[k] ELSE y[k]
             [] fn \in {"multiply", "PROD"} -> x[k] * y[k]]
    ELSE [k \in DOMAIN x |-> [l \in DOMAIN x[k] |->
           CASE fn \in {"add", "SUM"} -> x[k][l] + y[k][l]
             [] fn \in {"maximum", "MAX"} -> IF x[k][l] > y[k][l] THEN x[k][l] ELSE y[k][l]
             [] fn \in {"minimum", "MIN"} -> IF x[k][l] < y[k][l] THEN x[k][l] ELSE y[k][l]
             [] fn \in {"multiply", "PROD"} -> x[k][l] * y[k][l]]]

Reduce(a, upd, ix, fn, nd) ==
    LET f == Flat(a)  u == Flat(upd)  g == Flat(ix)
        r == FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![g[i] + 1] = LiftD(fn, @, u[i], nd)], f, g)
    IN Cut(r, Counts(a))

(***************************************************************************)
(* Histogram of non-negative integers.                                     *)
(***************************************************************************)
MaxOf(f) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, f)
BinCountFlat(x, w, nbins) ==
    FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![x[i] + 1] = @ + w[i]],
                   [b \in 1..nbins |-> 0], x)
NumBins(x, minlength) == LET m == MaxOf(x) + 1 IN IF minlength > m THEN minlength ELSE m

(***************************************************************************)
(* The exchange: rank q finds, at offset roff[q][r], the scount[r][q]      *)
(* elements which rank r holds at soff[r][q].  Elsewhere the receive       *)
(* buffer keeps what it had (fill).                                        *)
(***************************************************************************)
Exchange(a, scount, soff, roff, rlen, fill) ==
    [q \in DOMAIN a |->
        FoldLeftDomain(LAMBDA buf, r :
            [k \in DOMAIN buf |->
                IF k > roff[q][r] /\ k <= roff[q][r] + scount[r][q]
                THEN a[r][soff[r][q] + k - roff[q][r]]
                ELSE buf[k]],
            [k \in 1..rlen[q] |-> fill], a)]

(***************************************************************************)
(* Group membership: particle p (global) is in the group whose range       *)
(* [off, off+len) contains it; its rank is its position in that range.     *)
(***************************************************************************)
GroupOf(len, off, nids) ==
    LET l == Flat(len)  o == Flat(off)
        n == SumSeq(nids)
        f == FoldLeftDomain(LAMBDA acc, g :
                 [p \in DOMAIN acc |-> IF p - 1 >= o[g] /\ p - 1 < o[g] + l[g] THEN g - 1 ELSE acc[p]],
                 [p \in 1..n |-> -1], l)
    IN Cut(f, nids)
RankInGroup(len, off, nids) ==
    LET l == Flat(len)  o == Flat(off)
        n == SumSeq(nids)
        f == FoldLeftDomain(LAMBDA acc, g :
                 [p \in DOMAIN acc |-> IF p - 1 >= o[g] /\ p - 1 < o[g] + l[g] THEN p - 1 - o[g] ELSE acc[p]],
                 [p \in 1..n |-> -1], l)
    IN Cut(f, nids)

(***************************************************************************)
(* Halo matching.  Halo h of snapshot 1 is matched to the halo of snapshot *)
(* 2 which holds most of its particles, the lowest numbered one on a tie.  *)
(***************************************************************************)
HaloMatch(g1, i1, g2, i2, nlocal) ==
    LET gf1 == Flat(g1)  if1 == Flat(i1)  gf2 == Flat(g2)
        first2 == FirstIndex(Flat(i2))
        dest == [p \in DOMAIN gf1 |-> IF if1[p] \in DOMAIN first2 THEN gf2[first2[if1[p]] + 1] ELSE -1]
        nh == SumSeq(nlocal)
        Best(h) ==
            LET ps == {p \in DOMAIN gf1 : gf1[p] = h /\ dest[p] >= 0}
                ds == {dest[p] : p \in ps}
                n(d) == Cardinality({p \in ps : dest[p] = d})
            IN IF ds = {} THEN -1
               ELSE CHOOSE d \in ds : \A e \in ds : n(d) > n(e) \/ (n(d) = n(e) /\ d <= e)
    IN Cut([h \in 1..nh |-> Best(h - 1)], nlocal)

Consistent(m12, m21) ==
    LET f == Flat(m12)  b == Flat(m21)
    IN Cut([i \in DOMAIN f |-> IF f[i] >= 0 /\ b[f[i] + 1] = i - 1 THEN 1 ELSE 0], Counts(m12))
=============================================================================
