---------------------------- MODULE NamesTrace ----------------------------
(* Calls of the file name and multi-file utilities, against Names.         *)
EXTENDS Names, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
e == Trace[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Given(f) == f \in DOMAIN e
Err == Given("err")

\* outs: the text after each stage, as far as they went
RECURSIVE Stages(_, _)
Stages(t, gs) ==
    IF gs = <<>> THEN <<>>
    ELSE IF Fails(t, Head(gs)) THEN <<>>
    ELSE LET u == TLCEval(Partial(t, Head(gs))) IN <<Text(u)>> \o Stages(u, Tail(gs))
TemplateBad ==
    LET want == Stages(e.parts, e.stages)
        fails == Len(want) < Len(e.stages)
    IN Clause("machinery-template-text", e.text = Text(e.parts))
       \cup Clause("missing-value-accepted", fails => Err)
       \cup Clause("template-rejected", ~fails => ~Err)
       \cup Clause("template-text", \A i \in DOMAIN e.outs : i \in DOMAIN want => e.outs[i] = want[i])

EagleBad ==
    LET want == Eagle(e.files, e.queries, {})
    IN Clause("eagle-file-name", e.outs = want)
CosmaBad == Clause("cosma-file-name", ~Err /\ e.out = CosmaPath(e.type, e.isnap, e.i))
OpensBad == Clause("file-opened", ~Err /\ e.out = e.prefix \o (IF e.cosma THEN CosmaPath(0, e.isnap, e.i)
            ELSE "/" \o e.dir \o "_" \o ZPad(e.isnap, 3) \o "/" \o e.name \o "_" \o ZPad(e.isnap, 3) \o "." \o ToString(e.i)))
MultiBad ==
    Clause("files-not-read", ~Err)
    \cup (IF Err THEN {} ELSE
          Clause("datasets-returned", DOMAIN e.got = {e.datasets[i] : i \in DOMAIN e.datasets})
          \cup Clause("joined-values", \A i \in DOMAIN e.datasets :
                 e.datasets[i] \in DOMAIN e.got => e.got[e.datasets[i]] = JoinFiles(e.files, e.idx, e.datasets[i], e.axis)))

Bad == CASE e.op = "template" -> TemplateBad
         [] e.op = "eagle" -> EagleBad
         [] e.op = "cosma" -> CosmaBad
         [] e.op = "opens" -> OpensBad
         [] e.op = "multi" -> MultiBad
         [] OTHER -> {"unknown-operation"}

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ \E b \in {Bad} : bad' = IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
