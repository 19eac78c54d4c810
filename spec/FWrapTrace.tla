----------------------------- MODULE FWrapTrace -----------------------------
(* Recorded runs of programs which call the Fortran HDF5 wrapper.          *)
EXTENDS FWrap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}

Expected(e, r) ==
    CASE e.op \in {"create", "open"} -> Clause("handle", e.res = r.res)
      [] e.op \in {"read", "rattr"} -> Clause("values-read", e.res = r.res)
      [] e.op = "dims" -> Clause("dimensions", e.res = r.res)
      [] e.op = "type" -> Clause("type", <<e.class, e.size>> = r.res)
      [] e.op = "list" -> Clause("number-listed", e.n = Cardinality(r.res))
                          \cup Clause("names-listed", e.counted \/ (ToSet(e.names) = r.res /\ Len(e.names) = e.n))
      [] e.op = "fileid" -> Clause("file-id", e.res = r.res)
      [] OTHER -> {}

\* What is in the files after the program has ended
Aimed(f, p) == <<f, p>> \in st.aim
AimedIn(f, g) == \E a \in st.aim : a[1] = f /\ g \in Ancestors(a[2])
AimedAttr(f, loc, name) == Aimed(f, Append(loc, name)) \/ Aimed(f, loc)
FileBad(x) ==
    IF ~x.exists THEN Clause("file-missing", x.f \notin DOMAIN st.files)
    ELSE IF x.f \notin DOMAIN st.files THEN {"file-made"}
    ELSE LET file == st.files[x.f]
             groups == ToSet(x.groups)
             dsets == {d.path : d \in ToSet(x.dsets)}
             attrs == {<<a.loc, a.name>> : a \in ToSet(x.attrs)}
         IN Clause("groups", file.groups \subseteq groups /\ \A g \in groups \ file.groups : AimedIn(x.f, g))
            \cup Clause("datasets", \A p \in dsets \cup DOMAIN file.dsets : (p \in dsets /\ p \in DOMAIN file.dsets) \/ Aimed(x.f, p))
            \cup Clause("attributes", \A k \in attrs \cup DOMAIN file.attrs :
                              (k \in attrs /\ k \in DOMAIN file.attrs) \/ AimedAttr(x.f, k[1], k[2]))
            \cup UNION {LET m == file.dsets[d.path] IN
                        Clause("dataset-type", d.t = m.t /\ d.slen = m.slen)
                        \cup Clause("dataset-shape", d.dims = m.dims /\ d.ext = m.ext)
                        \cup Clause("dataset-storage", d.gz = m.gz /\ d.sh = m.sh /\ d.chunk = m.chunk)
                        \cup Clause("dataset-values", d.vals = m.vals)
                        : d \in {y \in ToSet(x.dsets) : y.path \in DOMAIN file.dsets /\ ~Aimed(x.f, y.path)}}
            \cup UNION {LET m == file.attrs[<<a.loc, a.name>>] IN
                        Clause("attribute-type", a.t = m.t /\ a.slen = m.slen)
                        \cup Clause("attribute-values", a.dims = m.dims /\ a.vals = m.vals)
                        : a \in {y \in ToSet(x.attrs) : <<y.loc, y.name>> \in DOMAIN file.attrs /\ ~AimedAttr(x.f, y.loc, y.name)}}
FinalBad(e) == UNION {FileBad(x) : x \in ToSet(e.files)}
\* Messages of the HDF5 library are only to be seen if the program asked for them
NoiseBad(e) == Clause("hdf5-messages", e.suppress => ~e.noise) \cup Clause("no-hdf5-messages", e.fails => e.noise)

OpBad(e, r) ==
    CASE e.op = "begin" -> {}
      [] e.op = "final" -> FinalBad(e)
      [] e.op = "noise" -> NoiseBad(e)
      [] OTHER -> IF e.crash THEN {"crash"}
                  ELSE IF e.stop THEN Clause("unexpected-error", ~r.ok)
                  ELSE IF ~r.ok THEN {"error-accepted"} ELSE Expected(e, r)

Init == l = 1 /\ st = Start /\ bad = <<>>
Next1 == /\ l <= Len(Trace)
         /\ \E e \in {Trace[l]} : \E r \in {IF e.op \in {"begin", "final", "noise"} THEN Done(st, <<>>) ELSE Step(st, e)} :
              /\ st' = IF e.op = "begin" THEN Start ELSE IF e.op \in {"final", "noise"} \/ (r.ok /\ e.stop) THEN st ELSE r.st
              /\ \E b \in {OpBad(e, r)} : bad' = IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b])
         /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED <<bad, st>>
Next == Next1 \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
