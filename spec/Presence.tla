------------------------------ MODULE Presence ------------------------------
(***************************************************************************)
(* Which output files of a simulation are there.                           *)
(*                                                                         *)
(* A tree is a set of directories (names) and a set of entries [dir, name,  *)
(* n, t]: n is what the header says of the number of files (No if the entry *)
(* cannot be read as an output file), by the attribute or block which is    *)
(* read: n for NumFilesPerSnapshot, t for NTask.                            *)
(*                                                                         *)
(* The files of one output are numbered from zero; the first says how many  *)
(* there should be.  A report has a line for every output: the number there *)
(* and the number expected, or none if the first cannot be read; a summary  *)
(* has, for every type of output, how many are not complete.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
No == -1
Digits(i) == IF i < 10 THEN "00" \o ToString(i) ELSE IF i < 100 THEN "0" \o ToString(i) ELSE ToString(i)
Ch(s, i) == SubSeq(s, i, i)

\* How many of n files, whose names are Name(i), are in a directory
Line(tree, base, i, file, dir, Name(_), attr) ==
    LET first == {x \in tree.files : x.dir = dir /\ x.name = Name(0)}
        n == IF dir = "" \/ first = {} THEN No ELSE LET f == CHOOSE x \in first : TRUE IN IF attr = "NTask" THEN f.t ELSE f.n
        here == {x.name : x \in {y \in tree.files : y.dir = dir}}
        have == IF n = No THEN No ELSE Cardinality({k \in 0..(n - 1) : Name(k) \in here})
    IN [base |-> base, i |-> i, file |-> file, ok |-> n # No /\ have = n, have |-> have, n |-> n]

(***************************************************************************)
(* Eagle: directories <base>_<nnn>_z<ddd>p<ddd>.  The output is not there   *)
(* if there is no such directory, nor if there are several.                 *)
(***************************************************************************)
Labelled(d, base, i) == LET p == base \o "_" \o Digits(i) \o "_z"
                        IN Len(d) = Len(p) + 7 /\ SubSeq(d, 1, Len(p)) = p /\ Ch(d, Len(p) + 4) = "p"
EagleLine(tree, base, file, attr, i) ==
    LET ds == {d \in tree.dirs : Labelled(d, base, i)}
        d == IF Cardinality(ds) = 1 THEN CHOOSE x \in ds : TRUE ELSE ""
        z == IF d = "" THEN "" ELSE SubSeq(d, Len(d) - 7, Len(d))
        Name(k) == file \o "_" \o Digits(i) \o "_" \o z \o "." \o ToString(k) \o ".hdf5"
    IN Line(tree, base, i, file, d, Name, attr)
EagleTypes(o) ==
    LET s == IF o = "snap" THEN "" ELSE "_snip" f == IF o = "snap" THEN "" ELSE "snip_"
    IN {[type |-> o, base |-> o \o "shot", file |-> o, attr |-> "NumFilesPerSnapshot"],
        [type |-> "group_" \o f \o "tab", base |-> "groups" \o s, file |-> "group_" \o f \o "tab", attr |-> "NTask"],
        [type |-> "eagle_subfind_" \o f \o "particles", base |-> "particledata" \o s, file |-> "eagle_subfind_" \o f \o "particles", attr |-> "NumFilesPerSnapshot"],
        [type |-> "eagle_subfind_" \o f \o "tab", base |-> "groups" \o s, file |-> "eagle_subfind_" \o f \o "tab", attr |-> "NTask"]}
Eagle(tree, snaps, snips) ==
    UNION {UNION {{[type |-> t.type, line |-> EagleLine(tree, t.base, t.file, t.attr, i)] : t \in EagleTypes(o)} :
                  i \in 0..((IF o = "snap" THEN snaps ELSE snips) - 1)} : o \in {"snap", "snip"}}

(***************************************************************************)
(* P-Gadget3: directories <base>_<nnn>.                                     *)
(***************************************************************************)
PgLine(tree, base, file, attr, i) ==
    LET d == base \o "_" \o Digits(i)
        Name(k) == file \o "_" \o Digits(i) \o "." \o ToString(k) \o (IF file = "500_dm" THEN ".hdf5" ELSE "")
    IN Line(tree, base, i, file, IF d \in tree.dirs THEN d ELSE "", Name, attr)
PgTypes(snapbase) == {[type |-> "snapshot", base |-> "snapdir", file |-> snapbase, attr |-> "NumFilesPerSnapshot"]}
                     \cup {[type |-> f, base |-> "groups", file |-> f, attr |-> "NTask"] : f \in {"group_tab", "group_ids", "subhalo_tab", "subhalo_ids"}}
Numbers(first, last, step) == {i \in 0..last : i >= first /\ (i - first) % step = 0}
PGadget(tree, snapbase, first, last, step) ==
    UNION {{[type |-> t.type, line |-> PgLine(tree, t.base, t.file, t.attr, i)] : t \in PgTypes(snapbase)} : i \in Numbers(first, last, step)}

Report(tree, e) == IF e.kind = "eagle" THEN Eagle(tree, e.snaps, e.snips) ELSE PGadget(tree, e.snapbase, e.first, e.last, e.step)
Summary(rep) == {x \in {[type |-> y.type, missing |-> Cardinality({z \in rep : z.type = y.type /\ ~z.line.ok}),
                        all |-> Cardinality({z \in rep : z.type = y.type})] : y \in rep} : x.missing > 0}
=============================================================================
