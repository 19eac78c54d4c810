----------------------------- MODULE UnitsTrace -----------------------------
(* Recorded use of SWIFT snapshots and SOAP catalogues.                     *)
EXTENDS Units, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Start == [files |-> <<>>, handles |-> <<>>, held |-> <<>>]

Mode(m) == IF m = "default" THEN "soap" ELSE m
Known(m) == m \in {"soap", "swiftsimio"}
Dset(file, path) == CHOOSE d \in ToSet(file.dsets) : d.path = path
\* Dimensions of the unit: swiftsimio's current is that of CGS units
Dims(mode, d) == IF mode = "soap" THEN d.exps
                 ELSE <<d.exps[1] + ((3 * d.exps[5]) \div 2), d.exps[2] + (d.exps[5] \div 2), d.exps[3] - 2 * d.exps[5], d.exps[4], 0>>
ReadBad(r, g) ==
    LET file == st.files[g.f] d == Dset(file, g.path) IN
    IF ~Acceptable(g.mode, d) THEN Clause("accepted", r.err # "")
    ELSE IF r.err # "" THEN {"unexpected-error"}
    ELSE Clause("harness", r.log = PhysLog(file, d))
         \cup Clause("physical-values", r.rows = [i \in 1..Len(Selected(d, g.sel)) |-> d.n * Selected(d, g.sel)[i]])
         \cup Clause("physical-precision", r.rows = <<>> \/ r.eps = <<d.eps>>)
         \cup Clause("shape", r.shape = ShapeOf(d, g.sel) \/ (ShapeOf(d, g.sel) = <<>> /\ r.shape = <<1>>))
         \cup Clause("dimensions", r.dims = Dims(g.mode, d))
         \cup Clause("comoving", (d.ea = 0 /\ d.exps[1] = 0) \/ r.com = (IF Comoving(g.mode, d) THEN 1 ELSE 0))
         \cup Clause("values-without-a-and-h", g.mode # "soap" \/ r.plain = r.rows)
         \cup Clause("powers-of-a-and-h", g.mode # "soap" \/ r.ah = <<d.ea, d.eh>>)
         \cup Clause("cosmo-factor", g.mode # "swiftsimio" \/ r.cf = d.ea * file.a)

\* Contents of a group of the file
Under(g, path) == IF g = "" THEN <<path>> ELSE <<>>
Names(file, g) == {p[Len(g) + 1] : p \in {q \in ToSet(file.paths) : Len(q) > Len(g) /\ SubSeq(q, 1, Len(g)) = g}}
InfoBad(e, file) ==
    IF e.res.err # "" THEN {"unexpected-error"}
    ELSE IF e.isds THEN LET d == Dset(file, e.path) IN
            Clause("kind", e.res.kind = "dataset")
            \cup Clause("dataset-shape", e.res.shape = d.shape /\ (d.shape = <<>> \/ e.res.n = d.shape[1]))
            \cup Clause("attributes", e.res.attrs = d.exps \o <<d.ea, d.eh>>)
    ELSE Clause("kind", e.res.kind = "group")
         \cup Clause("group-members", e.res.kind = "group" => (ToSet(e.res.names) = Names(file, e.gpath) /\ e.res.n = Cardinality(Names(file, e.gpath)) /\ e.res.keys))
         \cup Clause("membership", e.res.kind = "group" => e.res.has = [i \in 1..Len(e.askp) |-> \E q \in ToSet(file.paths) : Len(q) >= Len(e.askp[i]) /\ SubSeq(q, 1, Len(e.askp[i])) = e.askp[i]])

Handle(e) == st.handles[e.h]
OpBad(e) ==
    CASE e.op = "begin" -> {}
      [] e.op = "open" -> IF ~Known(Mode(e.mode)) THEN {}      \* may be refused here, or when reading
                          ELSE IF e.res.err # "" THEN {"unexpected-error"}
                          ELSE Clause("scale-factor", e.res.a = 2 * st.files[e.f].a)
                               \cup Clause("cosmology", e.res.om = 100 * st.files[e.f].om)
      [] e.op = "close" -> {}
      [] e.op = "read" -> LET g == [f |-> Handle(e).f, mode |-> Mode(Handle(e).mode), path |-> e.path, sel |-> e.sel] IN
                          IF e.id = 0 THEN ReadBad(e.res, g)
                          ELSE IF Acceptable(g.mode, Dset(st.files[g.f], g.path)) THEN Clause("unexpected-error", e.res.err = "")
                          ELSE Clause("accepted", e.res.err # "")
      [] e.op = "settle" -> IF e.res.err # "" THEN {"unexpected-error"}
                            ELSE IF e.res.unread THEN {}
                            ELSE ReadBad(e.res, st.held[e.id])
      [] e.op = "unit" -> IF Defined(st.files[Handle(e).f], e.name)
                          THEN IF e.res.err # "" THEN {"unexpected-error"}
                               ELSE Clause("named-unit", e.res.log = Named(st.files[Handle(e).f], e.name))
                                    \cup Clause("named-unit-dimensions", e.res.dims = NamedDim(e.name))
                          ELSE Clause("undefined-unit", e.res.err # "")
      [] e.op = "info" -> InfoBad(e, st.files[Handle(e).f])

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Step(e) ==
    CASE e.op = "begin" -> [files |-> e.files, handles |-> <<>>, held |-> <<>>]
      [] e.op = "open" -> [st EXCEPT !.handles = Put(@, e.h, [f |-> e.f, mode |-> e.mode])]
      [] e.op = "read" /\ e.id # 0 -> [st EXCEPT !.held = Put(@, e.id, [f |-> Handle(e).f, mode |-> Mode(Handle(e).mode), path |-> e.path, sel |-> e.sel])]
      [] OTHER -> st

Init == l = 1 /\ st = Start /\ bad = <<>>
Next1 == /\ l <= Len(Trace)
         /\ \E e \in {Trace[l]} :
              /\ st' = Step(e)
              /\ \E b \in {OpBad(e)} : bad' = IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b])
         /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED <<bad, st>>
Next == Next1 \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
