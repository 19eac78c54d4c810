----------------------------- MODULE CatTrace -----------------------------
(* Catalogues and snapshots split over files: what reads of the whole, of a
   group or of hash cells return.  "begin" gives the files (case and bytes)
   of a world: tabs (catalogue) and snaps (snapshot), in file order.       *)
EXTENDS Formats, Json, IOUtils
PH == INSTANCE Peano
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad,
          tabs, snaps,      \* opened files: [c, bytes, L (layout), off, names]
          ints,             \* integer blocks of the catalogue, joined, by name
          parts             \* particle blocks, joined: parts[<<type, set>>]
vars == <<l, bad, tabs, snaps, ints, parts>>
e == Trace[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}
ToSet(s) == {s[i] : i \in DOMAIN s}
Given(f) == f \in DOMAIN e
Err == Given("err")
Int4(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]

Opened(f) == LET L == TLCEval(Layout(f.c)) IN
             [c |-> f.c, bytes |-> f.bytes, L |-> L, off |-> Offsets(L), names |-> {L[i].n : i \in DOMAIN L}]
BlockOf(f, name) ==
    LET i == CHOOSE j \in DOMAIN f.L : f.L[j].n = name
        it == f.L[i]
    IN [d |-> it.d, t |-> it.k \o ToString(it.w),
        e |-> TLCEval([j \in 1..Prod(it.d) |-> ElementAt(f.bytes, f.c.order, it.k, it.w, f.off[i] + (j - 1) * it.w)])]
\* a block of the files which have it, joined in file order
Joined(files, name) ==
    LET has == SelectSeq(files, LAMBDA f : name \in f.names)
        vs == TLCEval([i \in DOMAIN has |-> BlockOf(has[i], name)])
    IN IF has = <<>> THEN <<>>
       ELSE <<[n |-> name, t |-> vs[1].t, e |-> Flat([i \in DOMAIN vs |-> vs[i].e]),
               d |-> <<SumSeq([i \in DOMAIN vs |-> vs[i].d[1]])>> \o Tail(vs[1].d)]>>
IntNames == {"GroupLenType", "SubLenType", "GroupOffset", "GroupLen", "SubOffset", "SubLen", "FirstSub", "Nsubs"}
IntsOf(files) == [n \in {x \in IntNames : \E i \in DOMAIN files : x \in files[i].names} |->
                    LET j == TLCEval(Joined(files, n)) IN [i \in DOMAIN j[1].e |-> Int4(j[1].e[i])]]
Ints(name) == ints[name]
\* rows a..a+k-1 (from 0) of a block
KeyNum(x, y, z, bits) == LET d == PH!Key(x, y, z, bits) IN PH!KeyValue(d)
RowsOf(b, a, k) ==
    LET per == Prod(Tail(b.d)) IN [b EXCEPT !.e = SubSeq(b.e, a * per + 1, (a + k) * per), !.d = <<k>> \o Tail(b.d)]
Sets == <<"Coordinates", "Velocities", "ParticleIDs">>
PName(t, s) == "PartType" \o ToString(t) \o "/" \o s
\* parts[<<t, s>>]: the joined block of type t
PartsOf(ss) == [x \in {y \in (0..5) \X ToSet(Sets) : \E i \in DOMAIN ss : PName(y[1], y[2]) \in ss[i].names} |->
                  Joined(ss, PName(x[1], x[2]))]
Named(b, n) == [b EXCEPT !.n = n]
AsCol(x) == [n |-> x.n, t |-> x.t, d |-> x.d, e |-> x.e]
Cols(s) == {AsCol(s[i]) : i \in DOMAIN s}

CatBad ==
    LET want == TLCEval([i \in DOMAIN e.datasets |-> Joined(tabs, e.datasets[i])])
        all == \A i \in DOMAIN want : want[i] # <<>>
    IN IF ~all THEN {}       \* a dataset which no file has
       ELSE Clause("catalogue-not-read", ~Err)
            \cup (IF Err THEN {} ELSE
                  Clause("catalogue-names", {x.n : x \in ToSet(e.got)} = ToSet(e.datasets))
                  \cup Clause("catalogue-values", Cols(e.got) = {want[i][1] : i \in DOMAIN want}))

\* --- group ordered, Gadget-4: rows of each type, and the subgroup of each
Before(rows, i, t) == SumSeq([j \in 1..(i - 1) |-> rows[(j - 1) * 6 + t + 1]])
I4(v) == IF v = -1 THEN <<255, 255, 255, 255>> ELSE LE(v, 4)
SubNrOf(t, fof, k) ==
    LET first == Ints("FirstSub")[fof]
        n == Ints("Nsubs")[fof]
        RECURSIVE Lab(_)
        Lab(j) == IF j > n THEN <<>>
                  ELSE Rep(I4(first + j - 1), Ints("SubLenType")[(first + j - 1) * 6 + t + 1]) \o Lab(j + 1)
        lab == TLCEval(Lab(1))
    IN lab \o Rep(I4(-1), k - Len(lab))
FofIndex == IF Given("infile") THEN
                SumSeq([i \in 1..e.infile[1] |-> tabs[i].c.n.g]) + e.infile[2] + 1
            ELSE e.gr + 1
G4Fof ==
    LET lt == Ints("GroupLenType")
        fof == FofIndex
        One(t) ==
            LET k == lt[(fof - 1) * 6 + t + 1] IN
            IF k = 0 THEN {}
            ELSE {RowsOf(Named(parts[<<t, Sets[s]>>][1], Sets[s]), Before(lt, fof, t), k) : s \in 1..3}
                 \cup {[n |-> "SubNr", t |-> "i4", d |-> <<k>>, e |-> SubNrOf(t, fof, k)]}
    IN [t \in 0..5 |-> One(t)]
G4Bad ==
    LET want == TLCEval(G4Fof)
    IN Clause("group-not-read", ~Err)
       \cup (IF Err THEN {} ELSE
             Clause("group-types", \A t \in 0..5 : {x.n : x \in want[t]} = {x.n : x \in ToSet(e.got[t + 1])})
             \cup Clause("group-particles", \A t \in 0..5 : Cols(e.got[t + 1]) = want[t]))

\* --- group ordered, P-Gadget3: type 1 only
Pg3Range(a, k, sets) ==
    Clause("group-not-read", ~Err)
    \cup (IF Err THEN {} ELSE
          Clause("group-particles", Cols(e.got) = {RowsOf(Named(parts[<<1, sets[s]>>][1], sets[s]), a, k) : s \in DOMAIN sets}))
Pg3Sets == IF Given("datasets") THEN e.datasets ELSE Sets
Pg3Bad ==
    CASE e.op = "fof" -> Pg3Range(Ints("GroupOffset")[e.gr + 1], Ints("GroupLen")[e.gr + 1], Pg3Sets)
      [] e.op = "sub" -> Pg3Range(Ints("SubOffset")[e.gr + 1], Ints("SubLen")[e.gr + 1], Pg3Sets)
      [] e.op = "range" -> Pg3Range(e.from, e.count, Pg3Sets)

\* --- hash table (L-Gadget2)
FileCells(f) == f.c.n.first..(f.c.n.first + f.c.n.cells - 1)
\* hash cell of each particle of a file
CellOf(f) ==
    LET v == BlockOf(f, "blockid")
        start == TLCEval([i \in DOMAIN v.e |-> Int4(v.e[i])])
        next(i) == IF i < Len(start) THEN start[i + 1] ELSE f.c.n.p
        RECURSIVE Go(_)
        Go(i) == IF i > Len(start) THEN <<>> ELSE Rep(f.c.n.first + i - 1, next(i) - start[i]) \o Go(i + 1)
    IN Go(1)
PosOf(f) == IF f.c.n.p = 0 THEN <<>> ELSE f.c.vals["PartType1/Coordinates"]
AllCells == Flat([i \in DOMAIN snaps |-> CellOf(snaps[i])])
AllPos == Flat([i \in DOMAIN snaps |-> PosOf(snaps[i])])
Pick(b, rows) ==
    LET per == Prod(Tail(b.d))
    IN [b EXCEPT !.d = <<Len(rows)>> \o Tail(b.d),
                 !.e = Flat([i \in DOMAIN rows |-> SubSeq(b.e, (rows[i] - 1) * per + 1, rows[i] * per)])]
Arrays(rows) == [s \in 1..3 |-> Pick(Named(parts[<<1, Sets[s]>>][1], ""), rows)]
Upto(n) == [i \in 1..n |-> i]
CellsBad ==
    LET cells == TLCEval(AllCells)
        rows == SelectSeq(Upto(Len(cells)), LAMBDA i : cells[i] \in ToSet(e.cells))
    IN Clause("cells-not-read", ~Err)
       \cup (IF Err THEN {} ELSE Clause("cell-particles", [s \in 1..3 |-> AsCol(e.got[s])] = Arrays(rows)))
\* some periodic image of x is between a and b; regions are given in half units
Within(x, a, b, box) == ((x - a) % box) <= b - a
RegionBad ==
    LET pos == TLCEval(AllPos)
        n == Len(pos) \div 3
        box == snaps[1].c.n.box
        inside == {i \in 1..n : \A k \in 1..3 : Within(2 * pos[3 * (i - 1) + k], e.box[2 * k - 1], e.box[2 * k], 2 * box)}
        ids == parts[<<1, "ParticleIDs">>][1].e
        \* the rows returned, by identifier (identifiers are distinct); 0: not a particle
        rows == [i \in DOMAIN e.got[3].e |->
                   LET x == e.got[3].e[i] IN
                   IF \E m \in 1..n : ids[m] = x THEN CHOOSE m \in 1..n : ids[m] = x ELSE 0]
    IN Clause("region-not-read", ~Err)
       \cup (IF Err THEN {} ELSE
             Clause("region-incomplete", inside \subseteq ToSet(rows))
             \cup Clause("region-particles",
                    /\ \A i \in DOMAIN rows : rows[i] > 0
                    /\ \A i \in 1..(Len(rows) - 1) : rows[i] < rows[i + 1]
                    /\ [s \in 1..3 |-> AsCol(e.got[s])] = Arrays(rows)))

\* --- sanity check of a file of particles with a hash table.  Nums(b): the
\* integers the generator put in a block
Nums(f, b) == IF b \in DOMAIN f.c.vals THEN f.c.vals[b] ELSE <<>>
BitsOf(nh) == CHOOSE b \in 1..7 : 8 ^ b = nh
\* keys of the hash cells which the point touches
KeysAt(p, f) ==
    LET nb == BitsOf(f.c.n.hash)
        nc == 2 ^ nb
        At(x) == {((x * nc) \div f.c.n.box) % nc}
                 \cup (IF (x * nc) % f.c.n.box = 0 THEN {((x * nc) \div f.c.n.box - 1) % nc} ELSE {})
    IN {KeyNum(x, y, z, nb) : x \in At(p[1]), y \in At(p[2]), z \in At(p[3])}
OwnKey(p, f) ==
    LET nb == BitsOf(f.c.n.hash)  nc == 2 ^ nb  At(x) == (x * nc) \div f.c.n.box
    IN KeyNum(At(p[1]), At(p[2]), At(p[3]), nb)
SaneBad ==
    LET f == snaps[e.file + 1]
        pos == Nums(f, "PartType1/Coordinates")
        vel == Nums(f, "PartType1/Velocities")
        ids == Nums(f, "PartType1/ParticleIDs")
        cells == TLCEval(CellOf(f))
        Pt(i) == SubSeq(pos, 3 * i - 2, 3 * i)
        range == /\ \A i \in DOMAIN pos : pos[i] <= f.c.n.box
                 /\ \A i \in DOMAIN vel : vel[i] <= 1000000
                 /\ \A i \in DOMAIN ids : ids[i] <= f.c.n.totp
        inside == range /\ \A i \in DOMAIN cells :
                    (\A k \in 1..3 : Pt(i)[k] < f.c.n.box) /\ OwnKey(Pt(i), f) = cells[i]
        touching == range /\ \A i \in DOMAIN cells : cells[i] \in KeysAt(Pt(i), f)
    IN Clause("sanity-check-fails", ~Err)
       \cup (IF Err THEN {} ELSE
             Clause("consistent-file-fails-sanity-check", (inside /\ ~e.nan) => ~e.reported)
             \cup Clause("inconsistent-file-passes-sanity-check", (e.nan \/ ~touching) => e.reported))

Bad == CASE e.op = "begin" -> {}
         [] e.op = "open" -> Clause("snapshot-not-opened", ~Err)
         [] e.op = "cat" -> CatBad
         [] e.op = "fof" /\ e.kind = "g4" -> G4Bad
         [] e.op \in {"fof", "sub", "range"} -> Pg3Bad
         [] e.op = "cells" -> CellsBad
         [] e.op = "region" -> RegionBad
         [] e.op = "sane" -> SaneBad
         [] OTHER -> {"unknown-operation"}

Init == l = 1 /\ bad = <<>> /\ tabs = <<>> /\ snaps = <<>> /\ parts = <<>> /\ ints = <<>>
Opening(fs) == TLCEval([i \in DOMAIN fs |-> Opened(fs[i])])
Step == /\ l <= Len(Trace)
        /\ \E b \in {Bad} : bad' = IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b])
        /\ l' = l + 1
        /\ IF e.op = "begin"
           THEN \E t \in {Opening(e.tabs)} : \E s \in {Opening(e.snaps)} :
                /\ tabs' = t /\ snaps' = s
                /\ \E p \in {TLCEval(PartsOf(s))} : parts' = p
                /\ \E p \in {TLCEval(IntsOf(t))} : ints' = p
           ELSE UNCHANGED <<tabs, snaps, parts, ints>>
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED <<bad, tabs, snaps, parts, ints>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
