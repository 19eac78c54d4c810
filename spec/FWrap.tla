------------------------------- MODULE FWrap -------------------------------
(***************************************************************************)
(* The Fortran HDF5 wrapper as a state machine: the files with their groups, *)
(* datasets and attributes, and the table of handles.  Step(st, c) is the  *)
(* effect of one call: whether it is carried out (otherwise the program     *)
(* stops with an error and no file changes), the new state and the result. *)
(*                                                                         *)
(* Handles are numbered by the programs, lowest free first; that each stands *)
(* for a number of the wrapper's own which no other open file has is the result *)
(* <<1>> of opening.                                                        *)
(* Paths are sequences of names.  Arrays are given by their dimensions and *)
(* their elements with the first dimension varying fastest.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Untouched(t) == IF t = "s" THEN -999999 ELSE 7777      \* what the elements of an array hold before a read
MaxFiles == 1000

RECURSIVE ProdUpTo(_, _)
ProdUpTo(s, n) == IF n = 0 THEN 1 ELSE s[n] * ProdUpTo(s, n - 1)
Prod(s) == ProdUpTo(s, Len(s))
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
Without1(s) == SelectSeq(s, LAMBDA x : x # 1)
RECURSIVE SumUpTo(_, _)
SumUpTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumUpTo(s, n - 1)

Strides(dims) == [i \in DOMAIN dims |-> ProdUpTo(dims, i - 1)]
\* coordinates, from 0, of element p (from 1) of an array
Coords(dims, strides, p) == [i \in DOMAIN dims |-> ((p - 1) \div strides[i]) % dims[i]]
Position(strides, c) == 1 + SumUpTo([i \in DOMAIN c |-> c[i] * strides[i]], Len(c))

\* A section of size sel fits an array: dimension by dimension, or, failing that,
\* once the dimensions of size one are left out of both.
Direct(adims, sel) == Len(adims) = Len(sel) /\ \A i \in DOMAIN sel : adims[i] >= sel[i]
Fits(adims, sel) ==
    Direct(adims, sel)
    \/ (Len(Without1(adims)) = Len(Without1(sel)) /\ \A i \in DOMAIN Without1(sel) : Without1(adims)[i] >= Without1(sel)[i])
\* Dimensions of the array, and indices of the dimensions of the section, that correspond
ArrayDims(adims, sel) == IF Direct(adims, sel) THEN adims ELSE Without1(adims)
SectDims(adims, sel) == IF Direct(adims, sel) THEN [i \in DOMAIN sel |-> i]
                        ELSE SelectSeq([i \in DOMAIN sel |-> i], LAMBDA i : sel[i] # 1)

\* Dataset contents after elements of arr are written to the section at start
WriteSection(old, olddims, newdims, start, sel, arr, adims) ==
    LET ad == ArrayDims(adims, sel)
        sd == SectDims(adims, sel)
        as == Strides(ad)
        ns == Strides(newdims)
        os == Strides(olddims)
        Val(j) == LET c == Coords(newdims, ns, j) IN
                  IF \A i \in DOMAIN c : c[i] >= start[i] - 1 /\ c[i] < start[i] - 1 + sel[i]
                  THEN arr[Position(as, [k \in DOMAIN ad |-> c[sd[k]] - (start[sd[k]] - 1)])]
                  ELSE IF \A i \in DOMAIN c : c[i] < olddims[i] THEN old[Position(os, c)] ELSE 0
    IN [j \in 1..Prod(newdims) |-> Val(j)]
\* Contents of the array after the section at start is read into it
ReadSection(vals, dims, start, sel, adims, rest) ==
    LET ad == ArrayDims(adims, sel)
        sd == SectDims(adims, sel)
        as == Strides(ad)
        ds == Strides(dims)
        Val(p) == LET a == Coords(ad, as, p) IN
                  IF (\A i \in DOMAIN sel : sel[i] > 0) /\ \A k \in DOMAIN a : a[k] < sel[sd[k]]
                  THEN vals[Position(ds, [i \in DOMAIN dims |-> (start[i] - 1) + (IF \E k \in DOMAIN sd : sd[k] = i
                                                                             THEN a[CHOOSE k \in DOMAIN sd : sd[k] = i] ELSE 0)])]
                  ELSE rest
    IN [p \in 1..Prod(adims) |-> Val(p)]

----------------------------------------------------------------------------
EmptyFile == [groups |-> {<<>>}, dsets |-> <<>>, attrs |-> <<>>]
\* aim: what the call that stopped the program was to write, which may be left half done
Start == [files |-> <<>>, tab |-> <<>>, aim |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]

Open(st, h) == h \in DOMAIN st.tab
Writable(st, h) == Open(st, h) /\ ~st.tab[h].ro
FileOf(st, h) == st.files[st.tab[h].f]
WithFile(st, h, file) == [st EXCEPT !.files = Put(@, st.tab[h].f, file)]
Free(st) == CHOOSE h \in 1..(MaxFiles + 1) : h \notin DOMAIN st.tab /\ \A k \in 1..(h - 1) : k \in DOMAIN st.tab
IsOpen(st, f) == \E h \in DOMAIN st.tab : st.tab[h].f = f
OpenForWriting(st, f) == \E h \in DOMAIN st.tab : st.tab[h].f = f /\ ~st.tab[h].ro

Stop(st) == [ok |-> FALSE, st |-> st, res |-> <<>>]
StopAt(st, h, path) == [ok |-> FALSE, st |-> [st EXCEPT !.aim = {<<st.tab[h].f, path>>}], res |-> <<>>]
Done(st, res) == [ok |-> TRUE, st |-> st, res |-> res]

Ancestors(path) == {SubSeq(path, 1, n) : n \in 0..Len(path)}
Parent(path) == SubSeq(path, 1, Len(path) - 1)
\* Adding a group and the ones it is in
CanBeGroup(file, path) == \A p \in Ancestors(path) : p \notin DOMAIN file.dsets
WithGroup(file, path) == [file EXCEPT !.groups = @ \cup Ancestors(path)]

CreateFile(st, c) ==
    IF IsOpen(st, c.f) \/ Free(st) > MaxFiles THEN Stop(st)
    ELSE LET h == Free(st) IN
         Done([st EXCEPT !.files = Put(@, c.f, EmptyFile), !.tab = Put(@, h, [f |-> c.f, ro |-> FALSE])], <<1>>)
OpenFile(st, c) ==
    IF c.f \notin DOMAIN st.files \/ Free(st) > MaxFiles
       \/ (~c.ro /\ IsOpen(st, c.f) /\ ~OpenForWriting(st, c.f)) THEN Stop(st)
    ELSE LET h == Free(st) IN Done([st EXCEPT !.tab = Put(@, h, [f |-> c.f, ro |-> c.ro])], <<1>>)
CloseFile(st, c) == IF ~Open(st, c.h) THEN Stop(st) ELSE Done([st EXCEPT !.tab = Drop(@, {c.h})], <<>>)

IsString(t) == t = "s"
SizeOf(t, slen) == IF t = "s" THEN slen ELSE IF t \in {"i4", "r4"} THEN 4 ELSE 8
ClassOf(t) == IF t = "s" THEN "CHARACTER" ELSE IF t \in {"i4", "i8"} THEN "INTEGER" ELSE "REAL"

\* Storage of a new dataset
Level(c) == IF c.gzip > 9 THEN c.gzip - 10 ELSE IF c.gzip > 0 THEN c.gzip ELSE 0
Chunk(dims, c) == [i \in DOMAIN dims |-> Larger(1, Smaller(dims[i], IF c.hk /\ i \in DOMAIN c.chunk THEN c.chunk[i] ELSE 8192))]
NewDims(c) == IF c.hi THEN SubSeq(c.init, 1, Len(c.dims))
              ELSE IF c.hs THEN [i \in DOMAIN c.dims |-> c.start[i] + c.count[i] - 1] ELSE c.dims
NewDataset(c, dims) ==
    [t |-> c.t, slen |-> IF IsString(c.t) THEN c.slen ELSE 0, dims |-> dims, ext |-> c.ext /\ dims # <<>>,
     gz |-> IF dims = <<>> THEN 0 ELSE Level(c), sh |-> dims # <<>> /\ c.gzip > 10,
     chunk |-> IF c.ext \/ Level(c) > 0 \/ c.szip THEN Chunk(dims, c) ELSE <<>>,
     vals |-> [i \in 1..Prod(dims) |-> 0]]
WriteData(st, c) ==
    IF ~Writable(st, c.h) \/ (c.gzip > 0 /\ c.szip) \/ c.hs # c.hc THEN Stop(st)
    ELSE LET file == FileOf(st, c.h)
             exists == c.name \in DOMAIN file.dsets
             base == IF exists /\ c.over
                     THEN [file EXCEPT !.dsets = Drop(@, {c.name}), !.attrs = Drop(@, {k \in DOMAIN @ : k[1] = c.name})]
                     ELSE file
             new == ~exists \/ c.over
             tooShort(n) == (c.hs /\ (Len(c.start) < n \/ Len(c.count) < n)) \/ (c.hi /\ Len(c.init) < n)
             bad == StopAt(st, c.h, c.name)
         IN IF new
            THEN IF c.name \in file.groups \/ ~CanBeGroup(file, Parent(c.name)) \/ tooShort(Len(c.dims)) THEN bad
                 ELSE LET dims == NewDims(c)
                          sel == IF c.hs THEN SubSeq(c.count, 1, Len(dims)) ELSE dims
                          start == IF c.hs THEN SubSeq(c.start, 1, Len(dims)) ELSE [i \in DOMAIN dims |-> 1]
                          d == NewDataset(c, dims)
                      IN IF ~Fits(c.dims, sel) \/ \E i \in DOMAIN dims : start[i] + sel[i] - 1 > dims[i] THEN bad
                         ELSE Done(WithFile(st, c.h, [WithGroup(base, Parent(c.name)) EXCEPT
                                  !.dsets = Put(@, c.name, [d EXCEPT !.vals =
                                      WriteSection(d.vals, dims, dims, start, sel, c.vals, c.dims)])]), <<>>)
            ELSE LET d == file.dsets[c.name]
                     n == Len(d.dims)
                 IN IF ~c.hs \/ tooShort(n) \/ ClassOf(d.t) # ClassOf(c.t)
                       \/ (~IsString(c.t) /\ SizeOf(d.t, 0) # SizeOf(c.t, 0)) \/ (IsString(c.t) /\ c.slen > d.slen) THEN bad
                    ELSE LET sel == SubSeq(c.count, 1, n)
                             start == SubSeq(c.start, 1, n)
                             dims == [i \in 1..n |-> Larger(d.dims[i], start[i] + sel[i] - 1)]
                         IN IF (dims # d.dims /\ ~d.ext) \/ ~Fits(c.dims, sel) THEN bad
                            ELSE Done(WithFile(st, c.h, [file EXCEPT !.dsets[c.name] =
                                  [d EXCEPT !.dims = dims,
                                            !.vals = WriteSection(d.vals, d.dims, dims, start, sel, c.vals, c.dims)]]), <<>>)

ReadData(st, c) ==
    IF ~Open(st, c.h) \/ c.hs # c.hc THEN Stop(st)
    ELSE LET file == FileOf(st, c.h) IN
    IF c.name \notin DOMAIN file.dsets THEN Stop(st)
    ELSE LET d == file.dsets[c.name]
             n == Len(d.dims)
         IN IF ClassOf(d.t) # ClassOf(c.t) \/ (~IsString(c.t) /\ SizeOf(d.t, 0) # SizeOf(c.t, 0))
               \/ (IsString(c.t) /\ c.slen < d.slen) \/ (c.hs /\ (Len(c.start) < n \/ Len(c.count) < n)) THEN Stop(st)
            ELSE LET sel == IF c.hs THEN SubSeq(c.count, 1, n) ELSE d.dims
                     start == IF c.hs THEN SubSeq(c.start, 1, n) ELSE [i \in 1..n |-> 1]
                 IN IF ~Fits(c.dims, sel)
                       \/ (Prod(sel) > 0 /\ \E i \in 1..n : start[i] < 1 \/ start[i] + sel[i] - 1 > d.dims[i]) THEN Stop(st)
                    ELSE Done(st, ReadSection(d.vals, d.dims, start, sel, c.dims, Untouched(c.t)))

HasObject(file, path) == path \in file.groups \/ path \in DOMAIN file.dsets
WriteAttr(st, c) ==
    IF ~Writable(st, c.h) \/ c.name = <<>> THEN Stop(st)
    ELSE LET file == FileOf(st, c.h)
             k == <<Parent(c.name), Last(c.name)>>
         IN IF ~HasObject(file, k[1]) \/ (k \in DOMAIN file.attrs /\ ~c.over) THEN StopAt(st, c.h, c.name)
            ELSE Done(WithFile(st, c.h, [file EXCEPT !.attrs = Put(@, k,
                    [t |-> c.t, slen |-> IF IsString(c.t) THEN c.slen ELSE 0, dims |-> c.dims, vals |-> c.vals])]), <<>>)
ReadAttr(st, c) ==
    IF ~Open(st, c.h) \/ c.name = <<>> THEN Stop(st)
    ELSE LET file == FileOf(st, c.h)
             k == <<Parent(c.name), Last(c.name)>>
         IN IF ~HasObject(file, k[1]) \/ k \notin DOMAIN file.attrs THEN Stop(st)
            ELSE LET a == file.attrs[k] IN
                 Done(st, [p \in 1..Prod(c.dims) |-> IF p <= Prod(a.dims) THEN a.vals[p] ELSE Untouched(c.t)])

\* A dataset or attribute of this name
Item(file, path) ==
    IF path \in DOMAIN file.dsets THEN {file.dsets[path]}
    ELSE IF path = <<>> THEN {}
    ELSE LET k == <<Parent(path), Last(path)>> IN IF k \in DOMAIN file.attrs THEN {file.attrs[k]} ELSE {}
GetDims(st, c) ==
    IF ~Open(st, c.h) \/ Item(FileOf(st, c.h), c.name) = {} THEN Stop(st)
    ELSE LET d == CHOOSE x \in Item(FileOf(st, c.h), c.name) : TRUE IN Done(st, <<Len(d.dims)>> \o d.dims)
GetType(st, c) ==
    IF ~Open(st, c.h) \/ Item(FileOf(st, c.h), c.name) = {} THEN Stop(st)
    ELSE LET d == CHOOSE x \in Item(FileOf(st, c.h), c.name) : TRUE IN Done(st, <<ClassOf(d.t), SizeOf(d.t, d.slen)>>)

CreateGroup(st, c) ==
    IF ~Writable(st, c.h) THEN Stop(st)
    ELSE IF ~CanBeGroup(FileOf(st, c.h), c.name) THEN StopAt(st, c.h, c.name)
    ELSE Done(WithFile(st, c.h, WithGroup(FileOf(st, c.h), c.name)), <<>>)

Children(paths, path) == {Last(p) : p \in {q \in paths : Len(q) = Len(path) + 1 /\ Parent(q) = path}}
List(st, c) ==
    IF ~Open(st, c.h) THEN Stop(st)
    ELSE LET file == FileOf(st, c.h) IN
         IF c.what = "attributes"
         THEN IF ~HasObject(file, c.name) THEN Stop(st)
              ELSE Done(st, {k[2] : k \in {q \in DOMAIN file.attrs : q[1] = c.name}})
         ELSE IF c.name \notin file.groups THEN Stop(st)
              ELSE Done(st, Children(IF c.what = "groups" THEN file.groups ELSE DOMAIN file.dsets, c.name))

FileId(st, c) == IF Open(st, c.h) THEN Done(st, <<1>>) ELSE Stop(st)

Step(st, c) ==
    CASE c.op = "create" -> CreateFile(st, c)
      [] c.op = "open" -> OpenFile(st, c)
      [] c.op = "close" -> CloseFile(st, c)
      [] c.op = "write" -> WriteData(st, c)
      [] c.op = "read" -> ReadData(st, c)
      [] c.op = "wattr" -> WriteAttr(st, c)
      [] c.op = "rattr" -> ReadAttr(st, c)
      [] c.op = "dims" -> GetDims(st, c)
      [] c.op = "type" -> GetType(st, c)
      [] c.op = "group" -> CreateGroup(st, c)
      [] c.op = "list" -> List(st, c)
      [] c.op = "fileid" -> FileId(st, c)
      [] OTHER -> Done(st, <<>>)
=============================================================================
