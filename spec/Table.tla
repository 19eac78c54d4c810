------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Tables for bulk loading: the data file holds the rows one after the     *)
(* other, a row its columns in order without padding or separators, each   *)
(* value in the native (little endian) layout of its type.  A column is    *)
(* [n |-> name, t |-> type, vec |-> three components?, v |-> per row the   *)
(* bytes of the value, or of the three values].                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* Types: [k |-> kind, s |-> bytes]
Supported(t) == t.k = "S" \/ <<t.k, t.s>> \in {<<"i", 4>>, <<"i", 8>>, <<"f", 4>>, <<"f", 8>>}
SqlType(t) == CASE t.k = "S" -> "char(" \o ToString(t.s) \o ")"
                [] t.k = "i" /\ t.s = 4 -> "integer"
                [] t.k = "i" /\ t.s = 8 -> "bigint"
                [] t.k = "f" /\ t.s = 4 -> "real"
                [] t.k = "f" /\ t.s = 8 -> "float"

Suffix == <<"x", "y", "z">>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* a column of vectors is three columns of numbers
Split(c) == IF c.vec THEN [j \in 1..3 |-> [n |-> c.n \o "_" \o Suffix[j], t |-> c.t, v |-> [i \in DOMAIN c.v |-> c.v[i][j]]]]
            ELSE <<[n |-> c.n, t |-> c.t, v |-> c.v]>>
Columns(cols) == TLCEval(Flat([i \in DOMAIN cols |-> Split(cols[i])]))
Row(cs, r) == Flat([i \in DOMAIN cs |-> cs[i].v[r]])
Bytes(cs, n) == Flat([r \in 1..n |-> Row(cs, r)])
Script(name, cs) == <<"create table " \o name \o " (">> \o
                    [i \in DOMAIN cs |-> "  " \o cs[i].n \o " " \o SqlType(cs[i].t) \o " NOT NULL,"] \o <<")">>
\* Can these columns be a table of n rows?
Regular(cols, n) == \A i \in DOMAIN cols : Len(cols[i].v) = n /\ Supported(cols[i].t)
=============================================================================
