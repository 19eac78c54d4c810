------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* SWIFT snapshots and SOAP catalogues: files whose datasets declare the    *)
(* unit of their numbers by exponents of the file's base units, of the     *)
(* scale factor a and of the Hubble parameter h, and handles through which  *)
(* they are read.                                                          *)
(*                                                                         *)
(* Quantities are exact: every unit and parameter of a file is a power of   *)
(* two, written as its logarithm; exponents are counted in halves.  A       *)
(* dataset's declared conversion factor is extra.n/4 * 2^(log/2) *          *)
(* (1 + extra.eps * 2^-26), where log follows from the exponents and extra  *)
(* is the part which is not a power of the base units.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Bases == <<"L", "M", "t", "T", "I">>
SumTo(f, n) == FoldLeft(LAMBDA x, i : x + f[i], 0, [i \in 1..n |-> i])
\* Twice the logarithm of the unit in CGS, without and with cosmological factors
PlainLog(file, d) == SumTo([i \in 1..5 |-> d.exps[i] * file.units[i]], 5)
CosmoLog(file, d) == d.ea * file.a + d.eh * file.h
PhysLog(file, d) == PlainLog(file, d) + CosmoLog(file, d)

(***************************************************************************)
(* What a reader makes of a dataset: in soap mode everything is expressed   *)
(* by the unit; in swiftsimio mode the scale factor is expressed by a mark  *)
(* that the numbers are comoving, which can only be said if they vary with  *)
(* a as their dimension in length does, and h can not be expressed at all.  *)
(***************************************************************************)
Acceptable(mode, d) ==
    CASE mode = "soap" -> TRUE
      [] mode = "swiftsimio" -> d.eh = 0 /\ (d.ea = 0 \/ d.ea = d.exps[1])
      [] OTHER -> FALSE
Comoving(mode, d) == IF mode = "swiftsimio" THEN d.ea # 0 ELSE FALSE
\* Twice the logarithm of the unit attached, and of the factor still to be
\* applied for physical numbers
AttachedLog(mode, file, d) == IF mode = "soap" THEN PhysLog(file, d) ELSE PlainLog(file, d)
RemainingLog(mode, file, d) == IF Comoving(mode, d) THEN d.exps[1] * file.a ELSE 0

(***************************************************************************)
(* Selections of the rows of a dataset.                                    *)
(***************************************************************************)
Rows(n, sel) ==
    CASE sel.k = "all" -> [i \in 1..n |-> i]
      [] sel.k = "slice" -> LET idx == {i \in 1..n : i > sel.start /\ i <= sel.stop /\ (i - 1 - sel.start) % sel.step = 0}
                            IN SetToSortSeq(idx, LAMBDA x, y : x < y)
      [] sel.k = "one" -> <<sel.i>>
      [] sel.k = "list" -> sel.rows
      [] sel.k = "mask" -> SetToSortSeq({i \in 1..n : sel.bits[i]}, LAMBDA x, y : x < y)
\* The numbers of one row, in the order in which they are stored
RowValues(d, i) == LET w == IF Len(d.shape) = 1 THEN 1 ELSE d.shape[2] IN [j \in 1..w |-> d.first + (i - 1) * w + (j - 1)]
Selected(d, sel) ==
    IF Len(d.shape) = 0 THEN <<d.first>>
    ELSE FlattenSeq([k \in 1..Len(Rows(d.shape[1], sel)) |-> RowValues(d, Rows(d.shape[1], sel)[k])])
ShapeOf(d, sel) ==
    IF Len(d.shape) = 0 THEN <<>>
    ELSE (IF sel.k = "one" THEN <<>> ELSE <<Len(Rows(d.shape[1], sel))>>) \o Tail(d.shape)

(***************************************************************************)
(* Units by name.                                                          *)
(***************************************************************************)
Named(file, name) ==
    CASE name = "snap_length" -> 2 * file.units[1]
      [] name = "snap_mass" -> 2 * file.units[2]
      [] name = "snap_time" -> 2 * file.units[3]
      [] name = "snap_temperature" -> 2 * file.units[4]
      [] name = "snap_current" -> 2 * file.units[5]
      [] name = "code_length" -> 2 * file.code[1]
      [] name = "code_mass" -> 2 * file.code[2]
      [] name = "code_time" -> 2 * file.code[3]
      [] name = "code_temperature" -> 2 * file.code[4]
      [] name = "code_current" -> 2 * file.code[5]
      [] name = "a" -> 2 * file.a
      [] name = "h" -> 2 * file.h
      [] name = "swift_mpc" -> 2 * file.mpc     \* of the unit used for reporting
      [] name = "swift_msun" -> 2 * file.msun
      [] name = "newton_G" -> 2 * file.G
NamedDim(name) ==
    CASE name \in {"snap_length", "code_length", "swift_mpc"} -> <<2, 0, 0, 0, 0>>
      [] name \in {"snap_mass", "code_mass", "swift_msun"} -> <<0, 2, 0, 0, 0>>
      [] name \in {"snap_time", "code_time"} -> <<0, 0, 2, 0, 0>>
      [] name \in {"snap_temperature", "code_temperature"} -> <<0, 0, 0, 2, 0>>
      [] name \in {"snap_current", "code_current"} -> <<0, 0, 0, 0, 2>>
      [] name \in {"a", "h"} -> <<0, 0, 0, 0, 0>>
      [] name = "newton_G" -> <<6, -2, -4, 0, 0>>
Defined(file, name) == name \in {"snap_length", "snap_mass", "snap_time", "snap_temperature", "snap_current", "a", "h",
                                 "swift_mpc", "swift_msun", "newton_G"}
                       \/ (file.hascode /\ name \in {"code_length", "code_mass", "code_time", "code_temperature", "code_current"})
=============================================================================
