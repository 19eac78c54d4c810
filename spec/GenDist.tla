------------------------------ MODULE GenDist ------------------------------
(***************************************************************************)
(* Behaviours of small distributed programs, enumerated exhaustively.  TLC *)
(* writes them as JSON; the driver replays each one on the real code and   *)
(* DistTrace decides the recorded outcome.                                 *)
(***************************************************************************)
EXTENDS Dist, Json, IOUtils

CONSTANTS Kind, P, MaxLen, Vals

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Darr(S, n) == [1..P -> Seqs(S, n)]
Shapes == [1..P -> 0..MaxLen]                       \* elements per rank
\* all ways of distributing n elements over P ranks
RECURSIVE Comp(_, _)
Comp(n, p) == IF p = 1 THEN {<<n>>}
              ELSE UNION { { <<k>> \o c : c \in Comp(n - k, p - 1) } : k \in 0..n }
\* the array with the given shape and values f
Fill(shape, f) == Cut(f, shape)
Iota(n, b) == [i \in 1..n |-> b + i]

New(d, v) == [op |-> "new", dst |-> d, val |-> v, codec |-> "raw"]

SortProgs == { <<New("a", d), [op |-> "sort", a |-> "a", index |-> "i"]>> : d \in Darr(Vals, MaxLen) }
RepartProgs ==
    UNION { { <<New("a", Fill(s, Iota(SumSeq(s), 10))),
                [op |-> "repart", a |-> "a", ndesired |-> c, dst |-> "b"]>> : c \in Comp(SumSeq(s), P) }
            : s \in Shapes }
FetchProgs ==
    UNION { LET n == SumSeq(s) IN
            { <<New("a", Fill(s, Iota(n, 10))), New("i", ix),
                [op |-> "fetch", a |-> "a", index |-> "i", dst |-> "b"]>> :
              ix \in IF n = 0 THEN {[r \in 1..P |-> <<>>]} ELSE Darr(0..(n - 1), 1) }
            : s \in Shapes }
MatchProgs ==
    { <<New("a", x), New("b", y), [op |-> "match", a |-> "a", b |-> "b", dst |-> "m"]>>
      : x \in Darr(Vals, 1), y \in Darr(Vals, MaxLen) }
UniqueProgs ==
    { <<New("a", d), [op |-> "unique", a |-> "a", counts |-> "c", dst |-> "u"],
        [op |-> "unique", a |-> "a", counts |-> "c", repart |-> TRUE, dst |-> "v"]>>
      : d \in Darr(Vals, MaxLen) }
ReduceProgs ==
    UNION { LET n == SumSeq(s) IN
            { <<New("a", Fill(s, Iota(n, 10))), New("i", ix),
                New("u", [r \in 1..P |-> [k \in 1..Len(ix[r]) |-> 100 * r + k]]),
                [op |-> "reduce", a |-> "a", upd |-> "u", index |-> "i", fn |-> "add", nd |-> 0]>> :
              ix \in IF n = 0 THEN {[r \in 1..P |-> <<>>]} ELSE Darr(0..(n - 1), 1) }
            : s \in Shapes }
BinProgs ==
    { <<New("x", d), [op |-> "bincount", x |-> "x", dst |-> "r"]>> : d \in Darr(Vals, MaxLen) }
\* groups: up to MaxLen groups with lengths in Vals, gaps in Vals, any distribution
GroupProgs ==
    UNION { UNION { UNION {
        LET ng == Len(lens)
            off == [g \in 1..ng |-> SumTo(lens, g - 1) + SumTo(gaps, g)]
            n == (IF ng = 0 THEN 0 ELSE off[ng] + lens[ng]) + extra
        IN { <<New("len", Cut(lens, gp)), New("off", Cut(off, gp)),
               [op |-> "groups", len |-> "len", off |-> "off", nids |-> ip, rank |-> "k", dst |-> "g"]>>
             : gp \in Comp(ng, P), ip \in Comp(n, P) }
        : extra \in 0..1 } : gaps \in [1..Len(lens) -> 0..1] } : lens \in Seqs(Vals, MaxLen) }
AlltoallProgs ==
    { LET off(row) == [q \in 1..P |-> SumTo(row, q - 1)]
          col(q) == [r \in 1..P |-> sc[r][q]]
      IN <<New("a", [r \in 1..P |-> [k \in 1..SumSeq(sc[r]) |-> 10 * r + k]]),
           [op |-> "alltoallv", a |-> "a", dst |-> "b", scount |-> sc,
            soff |-> [r \in 1..P |-> off(sc[r])],
            rcount |-> [q \in 1..P |-> col(q)],
            roff |-> [q \in 1..P |-> off(col(q))],
            rlen |-> [q \in 1..P |-> SumSeq(col(q))], fill |-> 5, method |-> m]>>
      : sc \in [1..P -> [1..P -> Vals]], m \in {"hypercube", "async"} }

Programs ==
    CASE Kind = "sort" -> SortProgs
      [] Kind = "repart" -> RepartProgs
      [] Kind = "fetch" -> FetchProgs
      [] Kind = "match" -> MatchProgs
      [] Kind = "unique" -> UniqueProgs
      [] Kind = "reduce" -> ReduceProgs
      [] Kind = "bincount" -> BinProgs
      [] Kind = "groups" -> GroupProgs
      [] Kind = "alltoallv" -> AlltoallProgs

VARIABLE pc
Init == pc = 0
Next == /\ pc = 0
        /\ JsonSerialize(IOEnv.OUT, SetToSeq(Programs))
        /\ pc' = 1
Spec == Init /\ [][Next]_pc
=============================================================================
