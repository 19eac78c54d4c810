------------------------------ MODULE GenFWrap ------------------------------
(* Histories of the wrapper's state machine: from two files with a dataset  *)
(* each (one read and so left open), every sequence of L calls and a read. *)
(* Calls which would stop the program are left out.                        *)
EXTENDS FWrap, Json, IOUtils
CONSTANT L
VARIABLES hist, wst
Vals(n) == [i \in 1..n |-> i]
W(h, d) == [op |-> "write", h |-> h, name |-> <<d>>, t |-> "i4", slen |-> 1, dims |-> <<2>>, vals |-> Vals(2), gzip |-> -1, szip |-> FALSE,
            ext |-> TRUE, over |-> TRUE, hs |-> FALSE, hc |-> FALSE, start |-> <<>>, count |-> <<>>, hi |-> FALSE, init |-> <<>>, hk |-> FALSE, chunk |-> <<>>]
Sec(h, d, s, n) == [W(h, d) EXCEPT !.over = FALSE, !.ext = FALSE, !.hs = TRUE, !.hc = TRUE, !.start = <<s>>, !.count = <<n>>, !.dims = <<n>>, !.vals = Vals(n)]
\* the call an abstract operation stands for
Call(o) == CASE o[1] = "create" -> [op |-> "create", f |-> o[2]]
             [] o[1] = "open" -> [op |-> "open", f |-> o[2], ro |-> o[3]]
             [] o[1] = "close" -> [op |-> "close", h |-> o[2]]
             [] o[1] = "put" -> W(o[2], o[3])
             [] o[1] = "sec" -> Sec(o[2], o[3], 2, 1)
             [] o[1] = "grow" -> Sec(o[2], o[3], 3, 2)
             [] o[1] = "get" -> [op |-> "read", h |-> o[2], name |-> <<o[3]>>, t |-> "i4", slen |-> 1, dims |-> <<4>>, hs |-> FALSE, hc |-> FALSE,
                                 start |-> <<>>, count |-> <<>>]
Hs == 1..3
Gets == {"get"} \X Hs \X {"x", "y"}
Ops == ({"create"} \X {"A", "B"}) \cup ({"open"} \X {"A", "B"} \X BOOLEAN \X {0, 1}) \cup ({"close"} \X Hs)
       \cup ({"put", "sec", "grow"} \X Hs \X {"x"}) \cup ({"put"} \X Hs \X {"y"}) \cup Gets
Beginnings == {<< <<"create", "A">>, <<"put", 1, "x">>, <<"create", "B">>, <<"put", 2, "x">>, <<"get", 1, "x">> >>,
               << <<"create", "A">>, <<"put", 1, "x">>, <<"put", 1, "y">>, <<"open", "A", TRUE, 0>>, <<"get", 2, "x">> >>,
               << <<"create", "A">>, <<"put", 1, "x">>, <<"open", "A", FALSE, 1>>, <<"get", 1, "x">>, <<"get", 2, "x">> >>}
RECURSIVE After(_, _)
After(st, h) == IF h = <<>> THEN st ELSE After(Step(st, Call(h[1])).st, Tail(h))
\* all <<history, state>> after n more calls
RECURSIVE Grow(_, _)
Grow(S, n) == IF n = 0 THEN S
              ELSE Grow(UNION {{<<Append(p[1], o), Step(p[2], Call(o)).st>> : o \in {q \in Ops : Step(p[2], Call(q)).ok}} : p \in S}, n - 1)
All == {Append(p[1], o) : p \in Grow({<<b, After(Start, b)>> : b \in Beginnings}, L), o \in Gets}
Kept == {h \in All : Step(After(Start, SubSeq(h, 1, Len(h) - 1)), Call(Last(h))).ok}
Init == hist = <<>> /\ wst = Start
Next == hist = <<>> /\ hist' = <<"done">> /\ JsonSerialize(IOEnv.OUT, SetToSeq(Kept)) /\ UNCHANGED wst
Spec == Init /\ [][Next]_<<hist, wst>>
=============================================================================
