------------------------------- MODULE Names -------------------------------
(* File names: templates which are filled in stages, the naming schemes of
   the simulations, and the joining of the files which they name.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
RepC(c, n) == Cat([i \in 1..n |-> c])
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Hex(_)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex(v) == IF v < 16 THEN HexDigit[v + 1] ELSE Hex(v \div 16) \o HexDigit[(v % 16) + 1]
\* %0nd
ZPad(v, n) == LET s == ToString(v) IN RepC("0", Max2(0, n - Len(s))) \o s

---------------------------------------------------------------------------
(* Templates: sequences of parts, [lit |-> text] or a field
   [arg, path, conv, spec]: {arg path !conv :spec}; arg is a name, or an
   index of a positional argument, as text; at: which positional argument
   it refers to (0: a name).  spec: [fill, align, zero, w, prec, type].    *)
SpecText(s) == s.fill \o s.align \o s.zero \o (IF s.w = 0 THEN "" ELSE ToString(s.w))
               \o (IF s.prec = 0 THEN "" ELSE "." \o ToString(s.prec)) \o s.type
FieldText(f) == "{" \o f.arg \o f.path \o (IF f.conv = "" THEN "" ELSE "!" \o f.conv)
                \o (IF SpecText(f.spec) = "" THEN "" ELSE ":" \o SpecText(f.spec)) \o "}"
IsLit(p) == "lit" \in DOMAIN p
PartText(p) == IF IsLit(p) THEN p.lit ELSE FieldText(p)
Text(t) == Cat([i \in DOMAIN t |-> PartText(t[i])])

(* Values: [k |-> "i", v] integers, "s" strings, "f" v eighths, "o" objects
   with the items v (from path to value).                                  *)
Padded(s, body, sign, dflt) ==
    LET n == Max2(0, s.w - Len(body) - Len(sign))
        al == IF s.align # "" THEN s.align ELSE dflt
        fc == IF s.fill # "" THEN s.fill ELSE " "
    IN CASE s.zero # "" /\ s.align = "" -> sign \o RepC("0", n) \o body
         [] al = "<" -> sign \o body \o RepC(IF s.zero # "" THEN "0" ELSE fc, n)
         [] al = ">" -> RepC(IF s.zero # "" THEN "0" ELSE fc, n) \o sign \o body
         [] al = "^" -> RepC(fc, n \div 2) \o sign \o body \o RepC(fc, n - n \div 2)
Eighths == <<"000", "125", "250", "375", "500", "625", "750", "875">>
FormatInt(s, v) == Padded(s, IF s.type = "x" THEN Hex(Abs(v)) ELSE ToString(Abs(v)), IF v < 0 THEN "-" ELSE "", ">")
FormatStr(s, v) == Padded([s EXCEPT !.zero = ""], v, "", "<")
FormatFloat(s, v) ==
    Padded(s, ToString(Abs(v) \div 8) \o "." \o Eighths[(Abs(v) % 8) + 1] \o RepC("0", s.prec - 3), IF v < 0 THEN "-" ELSE "", ">")
Repr(x) == CASE x.k = "i" -> ToString(x.v) [] x.k = "s" -> "'" \o x.v \o "'"
Str(x) == CASE x.k = "i" -> ToString(x.v) [] x.k = "s" -> x.v
Format(f, x0) ==
    LET x == IF f.path = "" THEN x0 ELSE x0.v[f.path]
    IN CASE f.conv = "r" -> FormatStr(f.spec, Repr(x))
         [] f.conv = "s" -> FormatStr(f.spec, Str(x))
         [] x.k = "i" -> FormatInt(f.spec, x.v)
         [] x.k = "s" -> FormatStr(f.spec, x.v)
         [] x.k = "f" -> FormatFloat(f.spec, x.v)

(* One stage: given (values by name, k = "none" for a name which is to be
   left), pos (positional values), and whether missing names are left.     *)
Left(f, g) == f.at = 0 /\ \/ f.arg \in DOMAIN g.given /\ g.given[f.arg].k = "none"
                          \/ f.arg \notin DOMAIN g.given /\ g.ignore
Missing(f, g) == f.at = 0 /\ f.arg \notin DOMAIN g.given /\ ~g.ignore
Fails(t, g) == \E i \in DOMAIN t : ~IsLit(t[i]) /\ Missing(t[i], g)
Fill(p, g) == IF IsLit(p) \/ Left(p, g) THEN p
              ELSE [lit |-> Format(p, IF p.at = 0 THEN g.given[p.arg] ELSE g.pos[p.at])]
Partial(t, g) == [i \in DOMAIN t |-> Fill(t[i], g)]

---------------------------------------------------------------------------
(* Eagle: directory and file carry a redshift label which is found in the
   file system.  files: sequence of [base, name, isnap, z, i].  A state is
   the labels known so far.                                                *)
EagleDir == [eagle_subfind_tab |-> "groups", eagle_subfind_snip_tab |-> "groups_snip", group_tab |-> "groups",
             group_snip_tab |-> "groups_snip", eagle_subfind_particles |-> "particledata",
             eagle_subfind_snip_particles |-> "particledata_snip", snapshot |-> "snapshot", snipshot |-> "snipshot"]
EaglePath(q, z) == q.base \o "/" \o EagleDir[q.name] \o "_" \o ZPad(q.isnap, 3) \o "_" \o z
                   \o "/" \o q.name \o "_" \o ZPad(q.isnap, 3) \o "_" \o z \o "." \o ToString(q.i) \o ".hdf5"
Same(f, q) == f.base = q.base /\ f.name = q.name /\ f.isnap = q.isnap /\ f.i = q.i
EagleKey(q) == <<q.base, q.name, q.isnap>>
\* expected results of queries: paths, or "" for an error
RECURSIVE Eagle(_, _, _)
Eagle(files, qs, known) ==
    IF qs = <<>> THEN <<>>
    ELSE LET q == Head(qs)
             here == {k \in known : k.key = EagleKey(q)}
             found == {j \in DOMAIN files : Same(files[j], q)}
         IN CASE q.name \notin DOMAIN EagleDir -> <<"">> \o Eagle(files, Tail(qs), known)
              [] q.name \in DOMAIN EagleDir /\ here # {} ->
                   <<EaglePath(q, (CHOOSE k \in here : TRUE).z)>> \o Eagle(files, Tail(qs), known)
              [] q.name \in DOMAIN EagleDir /\ here = {} /\ Cardinality(found) # 1 ->
                   <<"">> \o Eagle(files, Tail(qs), known)
              [] OTHER ->
                   LET z == files[CHOOSE j \in found : TRUE].z
                   IN <<EaglePath(q, z)>> \o Eagle(files, Tail(qs), known \cup {[key |-> EagleKey(q), z |-> z]})

\* Millennium files on Cosma: 14 disks, types 0 to 4
CosmaType == <<<<"snapshot", "snap_millennium">>, <<"group_tab", "group_tab">>, <<"sub_tab", "sub_tab">>,
               <<"sub_ids", "sub_ids">>, <<"group_ids", "group_ids">>>>
CosmaPath(type, isnap, i) ==
    "/milli" \o ZPad((i + 3 * (63 - isnap)) % 14, 2) \o "/d" \o ZPad(isnap, 2) \o "/" \o CosmaType[type + 1][1]
    \o "/" \o CosmaType[type + 1][2] \o "_" \o ZPad(isnap, 3) \o "." \o ToString(i)

---------------------------------------------------------------------------
(* Joining arrays [d |-> dimensions, e |-> elements] along an axis          *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Join(as, axis) ==
    LET outer == Prod(SubSeq(as[1].d, 1, axis))
        inner(a) == Prod(SubSeq(a.d, axis + 1, Len(a.d)))
        piece(a, o) == SubSeq(a.e, (o - 1) * inner(a) + 1, o * inner(a))
    IN [d |-> [as[1].d EXCEPT ![axis + 1] = Sum([i \in DOMAIN as |-> as[i].d[axis + 1]])],
        e |-> Flat([o \in 1..outer |-> Flat([i \in DOMAIN as |-> piece(as[i], o)])])]
\* files: from index (as text) to record of datasets; those which have the dataset, in the order of idx
JoinFiles(files, idx, name, axis) ==
    LET of(i) == files[ToString(i)]
        has == SelectSeq(idx, LAMBDA i : name \in DOMAIN of(i))
    IN Join([i \in DOMAIN has |-> of(has[i])[name]], axis)
=============================================================================
