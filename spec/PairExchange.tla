---------------------------- MODULE PairExchange ----------------------------
(***************************************************************************)
(* Design of the all-to-all exchange behind every distributed operation.   *)
(*                                                                         *)
(* Each rank holds, for every rank, a list of items to deliver.  Items go  *)
(* in chunks of at most Chunk.  Two methods:                               *)
(*   "hypercube": in round g = 0, 1, .. 2^k-1 rank r exchanges with rank   *)
(*     r XOR g (if there is one) by synchronous send-receives, as many as  *)
(*     the longer of the two directions needs; rounds are not separated by *)
(*     barriers, so ranks can be in different rounds.                      *)
(*   "async": all receives and sends are posted at once, and messages      *)
(*     between a pair of ranks match in the order posted.                  *)
(* Checked: no rank waits for ever, every item arrives exactly once, in    *)
(* order, at its place, whatever the interleaving.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

CONSTANTS P, MaxCount, Chunk, Method, Family

Rank == 0..(P - 1)
Pow2 == CHOOSE n \in {1, 2, 4, 8, 16} : n >= P /\ \A m \in {1, 2, 4, 8, 16} : m >= P => m >= n
Partner(r, g) == r ^^ g
Min(a, b) == IF a < b THEN a ELSE b

Matrices ==
    IF Family = "all" THEN [Rank -> [Rank -> 0..MaxCount]]
    ELSE { [r \in Rank |-> [q \in Rank |-> (r * a + q * b + c) % (MaxCount + 1)]] :
             a \in 0..MaxCount, b \in 0..MaxCount, c \in 0..MaxCount }
         \cup { [r \in Rank |-> [q \in Rank |-> IF r = s /\ q = t THEN MaxCount ELSE 0]] :
             s \in Rank, t \in Rank }

VARIABLES cnt,    \* cnt[r][q]: how many items r has for q
          round,  \* round[r]: the round rank r is in (Pow2 when finished)
          sent,   \* sent[r][q]: items r has sent to q
          got,    \* got[q][r]: the items q has received from r, in order
          chan    \* async: chan[r][q], chunks on their way from r to q

vars == <<cnt, round, sent, got, chan>>

Items(r, q) == [k \in 1..cnt[r][q] |-> <<r, q, k>>]

Init == /\ cnt \in Matrices
        /\ round = [r \in Rank |-> 0]
        /\ sent = [r \in Rank |-> [q \in Rank |-> 0]]
        /\ got = [q \in Rank |-> [r \in Rank |-> <<>>]]
        /\ chan = [r \in Rank |-> [q \in Rank |-> <<>>]]

LeftToSend(r, q) == cnt[r][q] - sent[r][q]
LeftToRecv(r, q) == cnt[q][r] - Len(got[r][q])
Busy(r, q) == LeftToSend(r, q) > 0 \/ LeftToRecv(r, q) > 0

(* ---------------- hypercube ---------------- *)
\* the round is over for r: nothing left between r and its partner
NextRound(r) ==
    /\ Method = "hypercube"
    /\ round[r] < Pow2
    /\ LET q == Partner(r, round[r])
       IN q \in Rank => ~Busy(r, q)
    /\ round' = [round EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<cnt, sent, got, chan>>

\* both partners have reached their common round and take part
SendRecv(r) ==
    /\ Method = "hypercube"
    /\ round[r] < Pow2
    /\ LET q == Partner(r, round[r])
       IN /\ q \in Rank
          /\ r <= q
          /\ round[q] = round[r]
          /\ Busy(r, q)
          /\ Busy(q, r)
          /\ LET nrq == Min(Chunk, LeftToSend(r, q))
                 nqr == Min(Chunk, LeftToSend(q, r))
                 new(a, b, n) == SubSeq(Items(a, b), sent[a][b] + 1, sent[a][b] + n)
             IN /\ sent' = IF r = q THEN [sent EXCEPT ![r][q] = @ + nrq]
                           ELSE [sent EXCEPT ![r][q] = @ + nrq, ![q][r] = @ + nqr]
                /\ got' = IF r = q THEN [got EXCEPT ![q][r] = @ \o new(r, q, nrq)]
                          ELSE [got EXCEPT ![q][r] = @ \o new(r, q, nrq),
                                           ![r][q] = @ \o new(q, r, nqr)]
    /\ UNCHANGED <<cnt, round, chan>>

(* ---------------- async ---------------- *)
PostSend(r, q) ==
    /\ Method = "async"
    /\ LeftToSend(r, q) > 0
    /\ LET n == Min(Chunk, LeftToSend(r, q))
       IN /\ chan' = [chan EXCEPT ![r][q] = Append(@, SubSeq(Items(r, q), sent[r][q] + 1, sent[r][q] + n))]
          /\ sent' = [sent EXCEPT ![r][q] = @ + n]
    /\ UNCHANGED <<cnt, round, got>>
Deliver(r, q) ==
    /\ Method = "async"
    /\ chan[r][q] # <<>>
    /\ got' = [got EXCEPT ![q][r] = @ \o Head(chan[r][q])]
    /\ chan' = [chan EXCEPT ![r][q] = Tail(@)]
    /\ UNCHANGED <<cnt, round, sent>>
WaitAll(r) ==
    /\ Method = "async"
    /\ round[r] = 0
    /\ \A q \in Rank : LeftToSend(r, q) = 0 /\ chan[r][q] = <<>> /\ LeftToRecv(r, q) = 0
    /\ round' = [round EXCEPT ![r] = Pow2]
    /\ UNCHANGED <<cnt, sent, got, chan>>

Next == \E r \in Rank : NextRound(r) \/ SendRecv(r) \/ WaitAll(r)
                        \/ \E q \in Rank : PostSend(r, q) \/ Deliver(r, q)
Spec == Init /\ [][Next]_vars

AllDone == \A r \in Rank : round[r] = Pow2
NoDeadlock == AllDone \/ ENABLED Next
Delivered == AllDone => \A r, q \in Rank : got[q][r] = Items(r, q)
InOrder == \A r, q \in Rank : got[q][r] = SubSeq(Items(r, q), 1, Len(got[q][r]))
\* a rank which has left a round has settled everything with that partner
Settled == Method = "hypercube" =>
    \A r \in Rank : \A g \in 0..(round[r] - 1) :
        Partner(r, g) \in Rank => ~Busy(r, Partner(r, g))
=============================================================================
