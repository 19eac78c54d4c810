------------------------------ MODULE ParHdf5 ------------------------------
(***************************************************************************)
(* Meaning of the collective HDF5 operations.                              *)
(*                                                                         *)
(* A file is a sequence of entries, sorted by path:                        *)
(*   [p |-> path, k |-> element kind, o |-> byte order, rs |-> row shape,  *)
(*    rows |-> sequence of rows, attrs |-> sequence of <<name, value>>]    *)
(* Groups which carry attributes are entries with k = "group".             *)
(* A distributed array is a sequence over ranks of sequences of rows.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Concat(parts) == FlattenSeq(parts)

Lens(parts) == [r \in DOMAIN parts |-> Len(parts[r])]

\* n rows over P ranks, as equally as possible, the first ranks taking the rest
EqualSplit(n, P) == [r \in 1..P |-> (n \div P) + (IF r <= n % P THEN 1 ELSE 0)]

HasPath(f, p) == \E i \in DOMAIN f : f[i].p = p
Entry(f, p) == f[CHOOSE i \in DOMAIN f : f[i].p = p]

\* contents as a set: the order of entries in a dump carries no meaning
Content(f) == {f[i] : i \in DOMAIN f}

\* file f with entry d put at its path
Put(f, d) == SelectSeq(f, LAMBDA x : x.p # d.p) \o <<d>>

Rows(f, p) == IF HasPath(f, p) THEN Entry(f, p).rows ELSE <<>>

\* the rows of dataset p over a sequence of files
AllRows(fs, p) == FlattenSeq([i \in DOMAIN fs |-> Rows(fs[i], p)])
\* the file index of each of those rows
RowFile(fs, idx, p) == FlattenSeq([i \in DOMAIN fs |-> [j \in 1..Len(Rows(fs[i], p)) |-> idx[i]]])
Somewhere(fs, p) == \E i \in DOMAIN fs : HasPath(fs[i], p)
Holders(fs, p) == {Entry(fs[i], p) : i \in {j \in DOMAIN fs : HasPath(fs[j], p)}}
\* the files of a set disagree about p
Disagree(fs, p) == Cardinality({<<d.k, d.rs>> : d \in Holders(fs, p)}) > 1

SumSeq(s) == FoldLeft(+, 0, s)

\* rows i's slice when a global sequence is cut into consecutive pieces n[1], n[2], ...
SliceOf(s, n, i) ==
    LET before == SumSeq(SubSeq(n, 1, i - 1)) IN SubSeq(s, before + 1, before + n[i])
=============================================================================
