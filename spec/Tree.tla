-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Merger trees.  Node i of a table has the identity id[i] and names its   *)
(* descendant by identity; a node whose descendant is not in the table is  *)
(* the root of a tree.  Everything is stated at each node in terms of its  *)
(* progenitors; TreeModel shows that this determines the numbering up to   *)
(* the order of equal branches, and that a subtree is then an interval.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NoNode == 0
DescOf(id, desc, i) == LET S == {j \in DOMAIN id : id[j] = desc[i]} IN IF S = {} THEN NoNode ELSE CHOOSE j \in S : TRUE
\* The descendants and the progenitors of all nodes, evaluated once
Descs(id, desc) == TLCEval([i \in DOMAIN id |-> DescOf(id, desc, i)])
Progs(d) == TLCEval([i \in DOMAIN d |-> {j \in DOMAIN d : d[j] = i}])
Roots(d) == {i \in DOMAIN d : d[i] = NoNode}

RECURSIVE Subtree(_, _)
Subtree(p, i) == {i} \cup UNION {Subtree(p, j) : j \in p[i]}

----------------------------------------------------------------------------
\* Depth first numbers.
ByNumber(S, df) == SetToSortSeq(S, LAMBDA a, b : df[a] < df[b])
\* the trees s[1], s[2], ... are numbered one after the other from `first`
OneAfterOther(s, first, df, last) ==
    \A k \in DOMAIN s : df[s[k]] = IF k = 1 THEN first ELSE last[s[k-1]] + 1
Heaviest(s, mb) == \A k \in 1..(Len(s)-1) : mb[s[k]] >= mb[s[k+1]]

Numbers(d, df) == Cardinality({df[i] : i \in DOMAIN d}) = Len(d) /\ \A i \in DOMAIN d : df[i] \in 1..Len(d)
ProgenitorsFollow(d, p, df, last) ==
    /\ OneAfterOther(ByNumber(Roots(d), df), 1, df, last)
    /\ \A i \in DOMAIN d : OneAfterOther(ByNumber(p[i], df), df[i] + 1, df, last)
HeaviestFirst(p, df, mb) == \A i \in DOMAIN p : Heaviest(ByNumber(p[i], df), mb)
LastIsLast(p, df, last) ==
    \A i \in DOMAIN p : last[i] = IF p[i] = {} THEN df[i] ELSE LET s == ByNumber(p[i], df) IN last[s[Len(s)]]
EndsMainBranch(p, df, end) ==
    \A i \in DOMAIN p : end[i] = IF p[i] = {} THEN df[i] ELSE end[ByNumber(p[i], df)[1]]

----------------------------------------------------------------------------
\* Masses.
BranchMass(p, m, mb) == \A i \in DOMAIN p : mb[i] = m[i] + (IF p[i] = {} THEN 0 ELSE Max({mb[j] : j \in p[i]}))
SumOver(S, f) == FoldSet(LAMBDA j, acc : acc + f[j], 0, S)
TreeMass(p, m, tm) == \A i \in DOMAIN p : tm[i] = m[i] + SumOver(p[i], tm)

\* The progenitor with the largest branch; of equal ones the earliest, then the greatest identity
MainProgenitor(p, id, snap, mb, i) ==
    IF p[i] = {} THEN -1
    ELSE LET top == Max({mb[j] : j \in p[i]})
             A == {j \in p[i] : mb[j] = top}
             B == {j \in A : snap[j] = Min({snap[k] : k \in A})}
         IN Max({id[j] : j \in B})
\* the number of other progenitors which are as heavy, to one part in a hundred thousand
SameMass(m, top) == top - m < 20000 /\ (top - m) * 100000 < m
Ties(p, mb, i) ==
    IF p[i] = {} THEN 0
    ELSE LET top == Max({mb[j] : j \in p[i]}) IN Cardinality({j \in p[i] : SameMass(mb[j], top)}) - 1

=============================================================================
