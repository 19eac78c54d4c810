----------------------------- MODULE TreeModel -----------------------------
(***************************************************************************)
(* Walking a forest depth first, for every forest of up to N nodes and     *)
(* every order of its branch masses (ties included: any of the heaviest    *)
(* unvisited progenitors may come next).  The states are the walk's: the   *)
(* path from the current root to the current node, and the numbers given.  *)
(***************************************************************************)
EXTENDS Tree
CONSTANTS N, M
VARIABLES d, mb, p, path, df, last, end, nxt
vars == <<d, mb, p, path, df, last, end, nxt>>
Nodes == DOMAIN d

\* Forests are taken with the descendant's index smaller: every shape occurs, the
\* order of the table does not matter to what is stated.
Init == /\ \E n \in 0..N : /\ d \in {f \in [1..n -> 0..n] : \A i \in 1..n : f[i] < i}
                           /\ mb \in [1..n -> 1..M]
        /\ p = Progs(d)
        /\ path = <<>>
        /\ df = [i \in DOMAIN d |-> 0]
        /\ last = [i \in DOMAIN d |-> 0]
        /\ end = [i \in DOMAIN d |-> 0]
        /\ nxt = 1

Here == path[Len(path)]
Unvisited(S) == {i \in S : df[i] = 0}
Next1(S) == {i \in S : \A j \in S : mb[i] >= mb[j]}
Visit(i) == /\ df' = [df EXCEPT ![i] = nxt]
            /\ nxt' = nxt + 1
            /\ path' = Append(path, i)
            /\ UNCHANGED <<d, mb, p, last, end>>
NewTree == path = <<>> /\ \E i \in Unvisited(Roots(d)) : Visit(i)
Down == path # <<>> /\ \E i \in Next1(Unvisited(p[Here])) : Visit(i)
\* a finished node knows the last number given, and the end of its first progenitor's branch
Up == /\ path # <<>> /\ Unvisited(p[Here]) = {}
      /\ last' = [last EXCEPT ![Here] = nxt - 1]
      /\ end' = [end EXCEPT ![Here] = IF p[Here] = {} THEN df[Here] ELSE end[ByNumber(p[Here], df)[1]]]
      /\ path' = SubSeq(path, 1, Len(path) - 1)
      /\ UNCHANGED <<d, mb, p, df, nxt>>
Next == NewTree \/ Down \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == path = <<>> /\ Unvisited(Nodes) = {}
Stated == /\ Numbers(d, df) /\ ProgenitorsFollow(d, p, df, last) /\ HeaviestFirst(p, df, mb)
          /\ LastIsLast(p, df, last) /\ EndsMainBranch(p, df, end)
\* The walk gives what the statements at each node say ...
WalkIsStated == Done => Stated
\* ... which means that a node and everything before it have consecutive numbers,
SubtreeIsInterval == Done => \A i \in Nodes : {df[j] : j \in Subtree(p, i)} = df[i]..last[i]
\* and the main branch is the numbers up to its end, each node the descendant of the next.
MainBranchIsInterval ==
    Done => \A i \in Nodes : /\ \A j, k \in Nodes : df[j] \in df[i]..end[i] /\ df[k] = df[j] + 1 /\ df[k] <= end[i] => d[k] = j
                             /\ \A j \in Nodes : df[j] = end[i] => p[j] = {}
Finishes == <>Done
=============================================================================
