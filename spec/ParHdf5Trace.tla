--------------------------- MODULE ParHdf5Trace ----------------------------
(***************************************************************************)
(* State machine of a set of HDF5 files under collective operations, and   *)
(* validation of recorded runs.  State: the content of every file.  Each   *)
(* write replaces exactly what it names; a read returns what the state     *)
(* says and changes nothing.  Operations whose input is inconsistent       *)
(* between ranks or files fail on every rank.                              *)
(***************************************************************************)
EXTENDS ParHdf5, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, files, bad
vars == <<l, files, bad>>

e == Trace[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(f) == f \in DOMAIN e
P == Len(e.err)
Ranks == 1..P

\* what a dump says of the files, against what it should say
Dump(k) == e.dump[k]
SameFiles(want) ==
    UNION { Clause("file-content", Content(Dump(k)) = Content(want[k])) : k \in DOMAIN want }
    \cup Clause("files-present", DOMAIN e.dump = DOMAIN want)

Path(g, n) == IF g = "/" THEN "/" \o n ELSE g \o "/" \o n

AllErr == \A r \in Ranks : e.err[r] # ""
NoErr == \A r \in Ranks : e.err[r] = ""
MustWork == Clause("unexpected-error", NoErr)
MustFail == Clause("not-every-rank-failed", AllErr)

----------------------------------------------------------------------------
With(k, f) == [x \in DOMAIN files \cup {k} |-> IF x = k THEN f ELSE files[x]]
Old(k) == IF k \in DOMAIN files THEN files[k] ELSE <<>>

MakeFiles == With(e.file, e.dsets)

\* collective write of parts (one per rank) to one dataset
CwriteOK == Cardinality({<<e.kinds[r], e.shapes[r]>> : r \in Ranks}) = 1
CwriteFiles ==
    IF ~CwriteOK THEN With(e.file, Old(e.file))    \* no partial success
    ELSE LET p == Path(e.group, e.name)
             new == [p |-> p, k |-> e.kinds[1], o |-> e.ord, rs |-> e.shapes[1], rows |-> Concat(e.parts), attrs |-> <<>>]
             \* filling an existing dataset replaces its rows and nothing else
             filled == [Entry(Old(e.file), p) EXCEPT !.rows = new.rows]
         IN With(e.file, Put(Old(e.file), IF Has("fill") THEN filled ELSE new))
CwriteBad == (IF CwriteOK THEN MustWork ELSE MustFail) \cup SameFiles(CwriteFiles)

CreadBad ==
    LET d == Entry(files[e.file], Path(e.group, e.name))
    IN IF ~NoErr THEN MustWork
       ELSE Clause("read-values", Concat([r \in Ranks |-> e.res[r].rows]) = d.rows)
            \cup Clause("read-partition", [r \in Ranks |-> Len(e.res[r].rows)] = EqualSplit(Len(d.rows), P))
            \cup Clause("read-type", \A r \in Ranks : e.res[r].k = d.k)
            \cup Clause("read-shape", \A r \in Ranks : e.res[r].rs = d.rs)

\* multi-file read of several names from the files of a set
SetFiles == [i \in DOMAIN e.set |-> files[e.set[i]]]
MfreadOne(n, fs) ==
    LET p == Path(e.group, n)
        got == [r \in Ranks |-> e.res[r][n]]
    IN IF ~Somewhere(fs, p)
       THEN Clause("missing-dataset-not-none", \A r \in Ranks : got[r].none)
       ELSE IF \E r \in Ranks : got[r].none THEN {"dataset-lost"}
       ELSE LET d == CHOOSE x \in Holders(fs, p) : TRUE
                rows == [r \in Ranks |-> got[r].rows]
                ei == {i \in DOMAIN e.epf[1] : e.epf[1][i].name = n}
                \* elements per file on rank r: <<file index, count>> pairs
                epf == [r \in Ranks |-> IF ei = {} THEN <<>> ELSE e.epf[r][CHOOSE i \in ei : TRUE].n]
            IN Clause("multi-read-values", Concat(rows) = AllRows(fs, p))
               \cup Clause("multi-read-type", \A r \in Ranks : got[r].k = d.k)
               \cup Clause("multi-read-byte-order", \A r \in Ranks : got[r].o # ">")
               \cup Clause("multi-read-shape", \A r \in Ranks : got[r].rs = d.rs)
               \cup (IF Has("attrs")
                     THEN Clause("multi-read-attributes",
                                 \A r \in Ranks : \E x \in Holders(fs, p) : got[r].attrs = x.attrs)
                     ELSE {})
               \cup (IF Has("fnr") /\ n \in ToSet(e.fnr)
                     THEN Clause("file-numbers", Concat([r \in Ranks |-> e.fres[r][n]]) = RowFile(fs, e.idx, p))
                          \cup Clause("file-numbers-partition",
                                 \A r \in Ranks : Len(e.fres[r][n]) = Len(rows[r]))
                     ELSE {})
               \cup Clause("elements-per-file",
                      \A i \in DOMAIN fs :
                        SumSeq([r \in Ranks |-> SumSeq([j \in DOMAIN epf[r] |-> IF epf[r][j][1] = e.idx[i]
                                                                           THEN epf[r][j][2] ELSE 0])])
                        = Len(Rows(fs[i], p)))
               \cup Clause("elements-per-file-on-rank",
                      \A r \in Ranks : SumSeq([j \in DOMAIN epf[r] |-> epf[r][j][2]]) = Len(rows[r]))
MfreadBad ==
    LET fs == SetFiles
    IN IF \E i \in DOMAIN e.names : Disagree(fs, Path(e.group, e.names[i])) THEN MustFail
       ELSE IF ~NoErr THEN MustWork
       ELSE UNION { MfreadOne(e.names[i], fs) : i \in DOMAIN e.names }

\* multi-file write: e.parts[name][r] are rank r's rows; epf[r] its <<file index, count>> pairs
FileCount(i) ==
    SumSeq([r \in Ranks |-> SumSeq([j \in DOMAIN e.epf[r] |-> IF e.epf[r][j][1] = e.idx[i] THEN e.epf[r][j][2] ELSE 0])])
MfwriteFiles ==
    LET n == [i \in DOMAIN e.out |-> FileCount(i)]
        Entries(i) ==
          [j \in DOMAIN e.data |->
             LET d == e.data[j]
             IN [p |-> Path(e.group, d.name), k |-> d.k, o |-> d.o, rs |-> d.rs,
                 rows |-> SliceOf(Concat(d.parts), n, i), attrs |-> d.attrs]]
        base(i) == IF e.mode = "w" THEN <<>> ELSE Old(e.out[i])
    IN [x \in DOMAIN files \cup ToSet(e.out) |->
          IF x \in ToSet(e.out)
          THEN LET i == CHOOSE j \in DOMAIN e.out : e.out[j] = x
               IN FoldLeft(Put, base(i), Entries(i))
          ELSE files[x]]
MfwriteBad == IF ~NoErr THEN MustWork ELSE SameFiles(MfwriteFiles)

Bad == CASE e.op \in {"begin", "end"} -> {}
         [] e.op = "make" -> SameFiles(MakeFiles)
         [] e.op = "cwrite" -> CwriteBad
         [] e.op = "cread" -> CreadBad
         [] e.op = "mfread" -> MfreadBad
         [] e.op = "mfwrite" -> MfwriteBad
         [] OTHER -> {"unknown-operation"}

NextFiles == CASE e.op = "begin" -> <<>>
               [] "dump" \in DOMAIN e -> e.dump
               [] OTHER -> files

Init == l = 1 /\ files = <<>> /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ bad' = (LET b == Bad IN IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b]))
        /\ files' = NextFiles
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED <<files, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
