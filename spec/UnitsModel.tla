----------------------------- MODULE UnitsModel -----------------------------
(***************************************************************************)
(* Several files with different unit systems, scale factors and Hubble      *)
(* parameters, open at once through handles of either mode.  Each handle    *)
(* remembers the unit system it was opened with; units attached to numbers  *)
(* read refer to it by name.  Checked: numbers read and converted to        *)
(* physical CGS units are those declared by the dataset, whatever was       *)
(* opened or closed since the handle was opened, and even if the numbers   *)
(* are converted later.  PerHandle = FALSE is the tempting design where     *)
(* there is one table of units, filled when a file is opened: it fails.    *)
(***************************************************************************)
EXTENDS Units
CONSTANTS H, PerHandle, Wide
VARIABLES files, handles, table, got
vars == <<files, handles, table, got>>
Vals == IF Wide THEN {-1, 0, 2} ELSE {-1, 2}
Exps == IF Wide THEN {-6, -2, 0, 1, 2, 4} ELSE {-6, 0, 1, 2}
CosmoExps == Exps
None == [none |-> TRUE]
Some(x) == x # None
FileSet == {[units |-> <<u, 3, 1, 0, 0>>, a |-> a, h |-> -1] : u \in Vals, a \in Vals}
DsetSet == {[exps |-> <<x, 2, t, 0, 0>>, ea |-> a, eh |-> h] : x \in Exps, t \in {0, -4}, a \in CosmoExps, h \in {0, -2}}
Init == /\ files \in [1..2 -> FileSet] /\ files[1] # files[2]
        /\ handles = [i \in 1..H |-> None] /\ table = None /\ got = {}
Open(i, f, m) == /\ ~Some(handles[i])
                 /\ handles' = [handles EXCEPT ![i] = [file |-> f, mode |-> m]]
                 /\ table' = files[f]
                 /\ UNCHANGED <<files, got>>
Close(i) == Some(handles[i]) /\ handles' = [handles EXCEPT ![i] = None] /\ UNCHANGED <<files, table, got>>
Read(i, d) == /\ Some(handles[i]) /\ Cardinality(got) < 1
              /\ Acceptable(handles[i].mode, d)
              /\ got' = got \cup {[f |-> handles[i].file, mode |-> handles[i].mode, d |-> d]}
              /\ UNCHANGED <<files, handles, table>>
Next == \E i \in 1..H : Close(i) \/ (\E f \in 1..2, m \in {"soap", "swiftsimio"} : Open(i, f, m)) \/ (\E d \in DsetSet : Read(i, d))
Spec == Init /\ [][Next]_vars
\* Numbers read, converted now
SystemUsed(g) == IF PerHandle THEN files[g.f] ELSE table
Converted(g) == AttachedLog(g.mode, SystemUsed(g), g.d) + RemainingLog(g.mode, SystemUsed(g), g.d)
Declared == \A g \in got : Converted(g) = PhysLog(files[g.f], g.d)
\* A dataset refused in swiftsimio mode is one which marks can not express: for
\* some file neither mark gives the declared factor
Expressible(d) == \E e \in {0, d.exps[1]} : \A f \in FileSet : PlainLog(f, d) + e * f.a = PhysLog(f, d)
ASSUME \A d \in DsetSet : Acceptable("swiftsimio", d) <=> Expressible(d)
=============================================================================
