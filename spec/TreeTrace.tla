----------------------------- MODULE TreeTrace -----------------------------
(* Recorded calls of the merger tree indexing and of the table export.     *)
EXTENDS Tree, Table, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
e == Trace[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Err == "err" \in DOMAIN e

IndexClauses(d, mb, df, end, last) ==
    IF \E x \in {df, end, last} : Len(x) # Len(d) THEN {"number-of-nodes"}
    ELSE IF ~Numbers(d, df) THEN {"numbered-once"}
    ELSE LET p == Progs(d) IN
         Clause("progenitors-consecutive", ProgenitorsFollow(d, p, df, last))
         \cup Clause("heaviest-first", HeaviestFirst(p, df, mb))
         \cup Clause("last-progenitor", LastIsLast(p, df, last))
         \cup Clause("end-of-main-branch", EndsMainBranch(p, df, end))
IndexOpBad ==
    IF Err THEN {"unexpected-error"}
    ELSE IndexClauses(Descs(e.id, e.desc), e.mb, e.df, e.end, e.last) \cup Clause("inputs-changed", e.same)

MassBad ==
    IF Err THEN {"unexpected-error"}
    ELSE LET p == Progs(Descs(e.id, e.desc)) IN
         Clause("number-of-nodes", Len(e.branch) = Len(e.id) /\ Len(e.tree) = Len(e.id))
         \cup Clause("branch-mass", Len(e.branch) = Len(e.id) => BranchMass(p, e.m, e.branch))
         \cup Clause("tree-mass", Len(e.tree) = Len(e.id) => TreeMass(p, e.m, e.tree))
         \cup Clause("inputs-changed", e.same)
MainBad ==
    IF Err THEN {"unexpected-error"}
    ELSE LET p == Progs(Descs(e.id, e.desc)) IN
         Clause("number-of-nodes", Len(e.main) = Len(e.id) /\ Len(e.ntie) = Len(e.id))
         \cup Clause("main-progenitor", Len(e.main) = Len(e.id) =>
                \A i \in DOMAIN e.id : e.main[i] = MainProgenitor(p, e.id, e.snap, e.mb, i))
         \cup Clause("ties", Len(e.ntie) = Len(e.id) => \A i \in DOMAIN e.id : e.ntie[i] = Ties(p, e.mb, i))
         \cup Clause("inputs-changed", e.same)

----------------------------------------------------------------------------
TypesBad == Clause("type-of-sql-type", ~Err /\ e.back = e.t) \cup Clause("sql-type", ~Err /\ e.sql = SqlType(e.t))
BadTypeBad == Clause("type-accepted", Err)

ReadBack(cs, n) ==
    Clause("columns-declared", Len(e.back) = Len(cs))
    \cup Clause("values-read-back", Len(e.back) = Len(cs) =>
           \A i \in DOMAIN cs : e.back[i].n = cs[i].n /\ e.back[i].t = cs[i].t /\ e.back[i].v = cs[i].v)
TableClauses ==
    LET n == Len(e.cols[1].v) IN
    IF ~Regular(e.cols, n) \/ e.strange THEN Clause("bad-columns-accepted", Err)
    ELSE IF Err THEN {"unexpected-error"}
    ELSE LET cs == Columns(e.cols) IN
         Clause("data-file", e.data = Bytes(cs, n))
         \cup Clause("script", e.script = Script(e.name, cs))
         \cup ReadBack(cs, n)
         \cup Clause("inputs-changed", e.same)

\* Export: the columns of the files' datasets, joined, in some order; then four more
ExportBad ==
    IF Err THEN {"unexpected-error"}
    ELSE LET cs == Columns(e.cols)
             n == Len(e.id)
             names == [i \in DOMAIN e.back |-> e.back[i].n]
             more == {"mBranch", "depthFirst", "endMainBranch", "lastProgenitor"}
             want == {cs[i].n : i \in DOMAIN cs}
             At(x) == CHOOSE i \in DOMAIN e.back : e.back[i].n = x
         IN Clause("columns-declared", Len(names) = Cardinality(want) + 4 /\ {names[i] : i \in DOMAIN names} = want \cup more)
            \cup Clause("rows", e.rows = n /\ e.rest = 0)
            \cup Clause("values-read-back", \A i \in DOMAIN cs : cs[i].n \in {names[j] : j \in DOMAIN names} =>
                     e.back[At(cs[i].n)].t = cs[i].t /\ e.back[At(cs[i].n)].v = cs[i].v)
            \cup (IF Len(e.branch) # n THEN {"rows"}
                  ELSE Clause("branch-mass", BranchMass(Progs(Descs(e.id, e.desc)), e.m, e.branch)))
            \cup IndexClauses(Descs(e.id, e.desc), e.branch, e.df, e.end, e.last)

Bad == CASE e.op = "index" -> IndexOpBad
         [] e.op = "mass" -> MassBad
         [] e.op = "main" -> MainBad
         [] e.op = "types" -> TypesBad
         [] e.op = "badtype" -> BadTypeBad
         [] e.op = "table" -> TableClauses
         [] e.op = "export" -> ExportBad
         [] OTHER -> {"unknown-operation"}

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ \E b \in {Bad} : bad' = IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b])
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
