----------------------------- MODULE FmtTrace -----------------------------
(* Files of known formats as the readers showed them, against Formats.     *)
EXTENDS Formats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
e == Trace[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}
ToSet(s) == {s[i] : i \in DOMAIN s}
Given(f) == f \in DOMAIN e
Err == Given("err")

\* damage: "" | "size" (bytes added or missing) | "cut" (ends inside a record)
\* | "marker" (a record marker altered) | "record" (a record of impossible length) | "width" (impossible width asked for)
ValuesBad ==
    LET want == TLCEval(ToSet(Values(e.c, e.bytes)))
        got == TLCEval(ToSet(e.got))
    IN IF want = got THEN {} ELSE
       LET wn == {<<x.n, x.a>> : x \in want}
           gn == {<<x.n, x.a>> : x \in got}
           Same(P(_, _)) == \A x \in want : \A y \in got : (x.n = y.n /\ x.a = y.a) => P(x, y)
       IN Clause("block-missing", wn \subseteq gn) \cup Clause("unknown-block", gn \subseteq wn)
          \cup Clause("type", Same(LAMBDA x, y : x.t = y.t))
          \cup Clause("shape", Same(LAMBDA x, y : x.d = y.d))
          \cup Clause("value", Same(LAMBDA x, y : (x.t = y.t /\ x.d = y.d) => x.e = y.e))
FileBad ==
    CASE e.damage = "" ->
            Clause("file-rejected", ~Err)
            \cup (IF Err THEN {} ELSE ValuesBad
                  \cup Clause("consistent-file-fails-sanity-check", (e.fill = "zero" /\ e.sanity # "none") => e.sanity = "ok"))
      [] e.damage = "size" ->
            IF e.c.fmt \in SizeChecked THEN Clause("wrong-size-not-reported", Err \/ e.sanity = "reported") ELSE {}
      [] e.damage \in {"cut", "marker", "markers", "record"} -> Clause("damaged-record-accepted", Err)
      [] e.damage = "width" -> Clause("impossible-width-accepted", Err)

Bad == CASE e.op = "file" -> FileBad
         [] OTHER -> {"unknown-operation"}

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ \E b \in {Bad} : bad' = IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
