----------------------------- MODULE DistTrace -----------------------------
(***************************************************************************)
(* The state machine of a program over distributed arrays, and validation  *)
(* of recorded runs of the real code against it.                           *)
(*                                                                         *)
(* State: heap, the named distributed arrays.  Each operation is an action *)
(* which changes the arrays it creates (or is documented to change) and    *)
(* leaves every other one alone.  A recorded event gives the operation,    *)
(* its arguments and the arrays it touched as the code left them.  An      *)
(* event the specification does not allow is recorded in `bad' with the    *)
(* clauses it violates, and validation goes on from the recorded state.    *)
(***************************************************************************)
EXTENDS Dist, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, heap, bad
vars == <<l, heap, bad>>

Clause(name, ok) == IF ok THEN {} ELSE {name}

e == Trace[l]
H(n) == heap[n].v
Out(n) == e.res[n].v
Has(f) == f \in DOMAIN e
Flag(f) == Has(f)     \* options which are off are left out of the event

\* The arrays this step may change or create; the others must be as before.
Written ==
    CASE e.op = "sort" -> {e.a} \cup (IF Flag("index") THEN {e.index} ELSE {})
      [] e.op = "reduce" -> {e.a}
      [] e.op = "unique" -> {e.dst} \cup (IF Flag("counts") THEN {e.counts} ELSE {})
      [] e.op = "groups" -> {e.dst} \cup (IF Flag("rank") THEN {e.rank} ELSE {})
      [] e.op = "bincount" -> {e.dst} \cup (IF Flag("into") THEN {e.into} ELSE {})
      [] OTHER -> {e.dst}

Unchanged ==
    UNION { Clause("input-array-changed:" \o n,
                   n \notin DOMAIN heap \/ Out(n) = H(n)) : n \in DOMAIN e.res \ Written }
WellFormed ==
    UNION { Clause("result-malformed:" \o n, e.res[n].good) : n \in DOMAIN e.res }
\* number of dimensions of each array written, where it is determined by another
NDims ==
    LET same == CASE e.op \in {"fetch", "repart", "unique", "alltoallv", "sendrecv", "gather"} -> {<<e.dst, heap[e.a].nd>>}
                  [] e.op \in {"sort", "reduce"} -> {<<e.a, heap[e.a].nd>>}
                  [] e.op \in {"match", "groups", "halos", "consistent", "bincount"} -> {<<e.dst, <<1>>>>}
                  [] e.op = "gather2d" -> {<<e.dst, <<2>>>>}
                  [] OTHER -> {}
        idx == (IF e.op = "sort" /\ Flag("index") THEN {<<e.index, <<1>>>>} ELSE {})
               \cup (IF e.op = "unique" /\ Flag("counts") THEN {<<e.counts, <<1>>>>} ELSE {})
               \cup (IF e.op = "groups" /\ Flag("rank") THEN {<<e.rank, <<1>>>>} ELSE {})
    IN UNION { Clause("wrong-number-of-dimensions:" \o p[1], e.res[p[1]].nd = p[2]) : p \in same \cup idx }
NoError == Clause("unexpected-error", \A r \in DOMAIN e.err : e.err[r] = "")

\* n has the type, row shape and units of the array it derives from
Like(n, m) ==
    Clause("dtype-changed", e.res[n].dt = heap[m].dt)
    \cup Clause("units-changed", e.res[n].u = heap[m].u)
    \cup Clause("shape-changed", Len(Flat(Out(n))) = 0 \/ e.res[n].sh1 = heap[m].sh1)

Eq(clause, n, want) ==
    IF Counts(Out(n)) # Counts(want) THEN {clause \o "-counts-per-rank"}
    ELSE Clause(clause \o "-values", Out(n) = want)

NewBad == Clause("new-mismatch", Out(e.dst) = e.val)

SortBad ==
    Eq("sorted-array", e.a, SortResult(H(e.a))) \cup Like(e.a, e.a)
    \cup (IF Flag("index") THEN Eq("sort-index", e.index, SortIndex(H(e.a))) ELSE {})

FetchBad == Eq("fetched", e.dst, Fetch(H(e.a), H(e.index))) \cup (IF Flag("into") THEN {} ELSE Like(e.dst, e.a))

RepartBad == Eq("repartitioned", e.dst, Repartition(H(e.a), e.ndesired)) \cup Like(e.dst, e.a)

MatchBad == Eq("match-index", e.dst, MatchOf(H(e.a), H(e.b)))

UniqueBad ==
    Clause("unique-values", Flat(Out(e.dst)) = UniqueValues(H(e.a)))
    \cup Like(e.dst, e.a)
    \cup (IF Flag("repart") THEN Clause("unique-not-balanced", Balanced(Counts(Out(e.dst)))) ELSE {})
    \cup (IF Flag("counts")
          THEN Clause("unique-counts", Flat(Out(e.counts)) = UniqueCounts(H(e.a)))
               \cup Clause("unique-counts-partition", Counts(Out(e.counts)) = Counts(Out(e.dst)))
          ELSE {})

ReduceBad == Eq("reduced", e.a, Reduce(H(e.a), H(e.upd), H(e.index), e.fn, e.nd)) \cup Like(e.a, e.a)

BincountBad ==
    LET x == Flat(H(e.x))
        w == IF Flag("w") THEN Flat(H(e.w)) ELSE [i \in DOMAIN x |-> 1]
        ml == IF Has("minlength") THEN e.minlength ELSE 0
    IN IF Flag("into")
       THEN LET base == Flat(H(e.into))
                want == FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![x[i] + 1] = @ + w[i]], base, x)
            IN Eq("bincount-into", e.dst, Cut(want, Counts(H(e.into))))
               \cup Clause("bincount-result-not-updated-in-place", Out(e.into) = Out(e.dst))
       ELSE Clause("bincount-values", Flat(Out(e.dst)) = BinCountFlat(x, w, NumBins(x, ml)))
            \cup Clause("bincount-not-balanced", Balanced(Counts(Out(e.dst))))

AlltoallvBad == Eq("exchange", e.dst, Exchange(H(e.a), e.scount, e.soff, e.roff, e.rlen, e.fill)) \cup Like(e.dst, e.a)

SendrecvBad ==
    Eq("sendrecv", e.dst,
       [r \in DOMAIN e.peer |->
          IF e.peer[r] < 0 THEN [k \in 1..e.rlen[r] |-> e.fill]
          ELSE LET s == H(e.a)[e.peer[r] + 1]
               IN [k \in 1..e.rlen[r] |-> IF k <= Len(s) THEN s[k] ELSE e.fill]])

\* gathering: axis 0 concatenates, axis 1 concatenates the rows of each rank
GatherWant ==
    IF e.how = "first" \/ e.axis = 0 THEN Flat(H(e.a))
    ELSE LET a == H(e.a) IN [i \in DOMAIN a[1] |-> FlattenSeq([r \in DOMAIN a |-> a[r][i]])]
GatherBad ==
    UNION { IF e.how = "all" \/ (e.how = "root" /\ r = e.root + 1) \/ (e.how = "first" /\ r = 1)
            THEN Clause("gathered-values", ~e.res[e.dst].none[r] /\ Out(e.dst)[r] = GatherWant)
            ELSE Clause("gather-not-none-elsewhere", e.res[e.dst].none[r])
            : r \in DOMAIN e.err }
    \cup Clause("dtype-changed", e.res[e.dst].dt = heap[e.a].dt)

Gather2dBad == UNION { Clause("gather2d-values", Out(e.dst)[r] = H(e.a)) : r \in DOMAIN e.err }

GroupsBad ==
    Eq("group-index", e.dst, GroupOf(H(e.len), H(e.off), e.nids))
    \cup (IF Flag("rank") THEN Eq("rank-in-group", e.rank, RankInGroup(H(e.len), H(e.off), e.nids)) ELSE {})

NonezeroBad ==
    IF \A r \in DOMAIN e.none : e.none[r]
    THEN Clause("none-everywhere-stays-none", \A r \in DOMAIN e.err : e.res[e.dst].none[r])
    ELSE Clause("none-not-replaced", \A r \in DOMAIN e.err : ~e.res[e.dst].none[r])
         \cup Clause("replacement-not-empty",
                     Out(e.dst) = [r \in DOMAIN e.err |-> IF e.none[r] THEN <<>> ELSE H(e.a)[r]])
         \cup Clause("dtype-changed", e.res[e.dst].dt = heap[e.a].dt)
         \cup Clause("shape-changed", e.res[e.dst].sh1 = heap[e.a].sh1)

HalosBad == Eq("halo-match", e.dst, HaloMatch(H(e.g1), H(e.i1), H(e.g2), H(e.i2), e.nlocal))
ConsistentBad == Eq("consistent-match", e.dst, Consistent(H(e.m12), H(e.m21)))

Bad ==
    IF e.op \in {"begin", "end"} THEN {}
    ELSE IF \E r \in DOMAIN e.err : e.err[r] # "" THEN NoError
    ELSE IF WellFormed # {} THEN WellFormed
    ELSE IF NDims # {} THEN NDims
    ELSE Unchanged \cup
      CASE e.op = "new" -> NewBad
        [] e.op = "sort" -> SortBad
        [] e.op = "fetch" -> FetchBad
        [] e.op = "repart" -> RepartBad
        [] e.op = "match" -> MatchBad
        [] e.op = "unique" -> UniqueBad
        [] e.op = "reduce" -> ReduceBad
        [] e.op = "bincount" -> BincountBad
        [] e.op = "alltoallv" -> AlltoallvBad
        [] e.op = "sendrecv" -> SendrecvBad
        [] e.op = "gather" -> GatherBad
        [] e.op = "gather2d" -> Gather2dBad
        [] e.op = "groups" -> GroupsBad
        [] e.op = "nonezero" -> NonezeroBad
        [] e.op = "halos" -> HalosBad
        [] e.op = "consistent" -> ConsistentBad
        [] OTHER -> {"unknown-operation"}

NextHeap ==
    IF e.op = "begin" THEN <<>>
    ELSE IF e.op = "end" THEN heap
    ELSE [n \in DOMAIN heap \cup DOMAIN e.res |-> IF n \in DOMAIN e.res THEN e.res[n] ELSE heap[n]]

Init == l = 1 /\ heap = <<>> /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ bad' = (LET b == Bad IN IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b]))
        /\ heap' = NextHeap
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED <<heap, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
