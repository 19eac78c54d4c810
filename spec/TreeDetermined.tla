--------------------------- MODULE TreeDetermined ---------------------------
(***************************************************************************)
(* What Tree states at each node determines the numbers: without ties and  *)
(* with the roots in a fixed order there is exactly one numbering, one     *)
(* branch mass and one tree mass, out of all possible assignments.         *)
(***************************************************************************)
EXTENDS Tree
CONSTANT N
VARIABLES d, mb
Init == \E n \in 1..N : /\ d \in {f \in [1..n -> 0..n] : \A i \in 1..n : f[i] < i}
                        /\ mb \in {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Next == UNCHANGED <<d, mb>>
Spec == Init /\ [][Next]_<<d, mb>>
n0 == Len(d)
Fits(df, last, end) ==
    LET p == Progs(d) IN
    /\ Numbers(d, df) /\ ProgenitorsFollow(d, p, df, last) /\ HeaviestFirst(p, df, mb)
    /\ LastIsLast(p, df, last) /\ EndsMainBranch(p, df, end)
    /\ Heaviest(ByNumber(Roots(d), df), mb)
One == Cardinality({x \in [1..n0 -> 1..n0] \X [1..n0 -> 1..n0] \X [1..n0 -> 1..n0] : Fits(x[1], x[2], x[3])}) = 1
OneMass == Cardinality({x \in [1..n0 -> 1..(2*n0+1)] : BranchMass(Progs(d), [i \in 1..n0 |-> 1 + (i % 2)], x)}) = 1
           /\ Cardinality({x \in [1..n0 -> 1..(2*n0+1)] : TreeMass(Progs(d), [i \in 1..n0 |-> 1 + (i % 2)], x)}) = 1
=============================================================================
