------------------------------ MODULE GenUnits ------------------------------
(* Histories of up to N steps with two files and two handles - opening in   *)
(* either mode, closing, reading through a handle - and all datasets with   *)
(* small exponents.                                                        *)
EXTENDS Units, Json, IOUtils
CONSTANTS N, Small
VARIABLE done
Steps == {[k |-> "open", h |-> h, f |-> f, m |-> m] : h \in 1..2, f \in 1..2, m \in {"soap", "swiftsimio"}}
         \cup {[k |-> k, h |-> h, f |-> 0, m |-> ""] : k \in {"close", "read"}, h \in 1..2}
OpenAfter(s, h) == LET t == SelectSeq(s, LAMBDA x : x.h = h /\ x.k # "read") IN t # <<>> /\ Last(t).k = "open"
RECURSIVE Hist(_)
Hist(n) == IF n = 0 THEN {<<>>}
           ELSE {Append(p[1], p[2]) : p \in {q \in Hist(n - 1) \X Steps : (q[2].k = "open") # OpenAfter(q[1], q[2].h)}}
Wanted(s) == Last(s).k = "read" /\ s[1].h = 1 /\ s[1].f = 1 /\ Cardinality({s[i].h : i \in DOMAIN s}) = 2
Histories == {s \in Hist(N) : Wanted(s)}
X == IF Small THEN {-2, 0, 2} ELSE {-6, -2, 0, 1, 2, 4}
C == IF Small THEN {-2, 0, 2} ELSE {-6, 0, 1, 2}
Dsets == {[exps |-> <<x, m, t, T, i>>, ea |-> a, eh |-> h] :
             x \in X, m \in {-2, 0, 2}, t \in {-4, 0}, T \in {0, 2}, i \in {-2, 0}, a \in C, h \in {-2, 0, 2}}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.OUT, [histories |-> SetToSeq(Histories), dsets |-> SetToSeq(Dsets)])
Spec == Init /\ [][Next]_done
=============================================================================
