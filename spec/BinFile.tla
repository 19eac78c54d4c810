------------------------------ MODULE BinFile ------------------------------
(***************************************************************************)
(* Binary files described block by block (virgo.util.read_binary).         *)
(*                                                                         *)
(* State                                                                   *)
(*   disk : file name -> sequence of bytes (0..255)                        *)
(*   objs : object -> a description of a file:                             *)
(*     file    which file it describes                                     *)
(*     endian  "<" or ">": the byte order in force, for all its blocks     *)
(*     off     position of the next block                                  *)
(*     blocks  sequence of [path, attr, w, nc, swap, mem, shape, off]      *)
(*             w bytes per component, nc components per element,           *)
(*             swap: whether the type has a byte order; mem: that of the   *)
(*             declared type; path <<>>: read and skipped                  *)
(*     rec     <<>> or the open record [marker, start, auto]               *)
(* A block has no contents of its own: what a read returns is what the     *)
(* disk holds at that moment, whatever is cached or mapped.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Concat(ss) == FlattenSeq(ss)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Rev(s) == Reverse(s)

NewObj(file) == [file |-> file, endian |-> "<", off |-> 0, blocks |-> <<>>, rec |-> <<>>]
ElSize(b) == b.w * b.nc
NBytes(b) == ElSize(b) * Prod(b.shape)

\* the k-th element (from 0) of block b, its components in little endian order
Elem(bytes, endian, b, k) ==
    Concat([c \in 1..b.nc |->
       LET at == b.off + k * ElSize(b) + (c - 1) * b.w
           raw == [i \in 1..b.w |-> IF at + i <= Len(bytes) /\ at + i > 0 THEN bytes[at + i] ELSE 0]
       IN IF b.swap /\ endian = ">" THEN Rev(raw) ELSE raw])

\* ax: one [idx |-> positions from 0, keep |-> whether the axis remains] per dimension
RECURSIVE FlatIndexes(_, _, _)
FlatIndexes(shape, ax, base) ==
    IF shape = <<>> THEN <<base>>
    ELSE Concat([i \in DOMAIN ax[1].idx |->
                   FlatIndexes(Tail(shape), Tail(ax), base * shape[1] + ax[1].idx[i])])
ResultShape(ax) ==
    LET kept == SelectSeq(ax, LAMBDA a : a.keep) IN [i \in DOMAIN kept |-> Len(kept[i].idx)]
Selected(bytes, endian, b, ax) ==
    LET f == FlatIndexes(b.shape, ax, 0) IN [i \in DOMAIN f |-> Elem(bytes, endian, b, f[i])]
Whole(bytes, endian, b) == [i \in 1..Prod(b.shape) |-> Elem(bytes, endian, b, i - 1)]
Readable(bytes, b) == b.off >= 0 /\ b.off + NBytes(b) <= Len(bytes)

----------------------------------------------------------------------------
\* names
Named(o) == SelectSeq(o.blocks, LAMBDA b : b.path # <<>>)
DatasetPaths(o) == {b.path : b \in {x \in ToSet(Named(o)) : ~x.attr}}
AttrPaths(o) == {b.path : b \in {x \in ToSet(Named(o)) : x.attr}}
\* a path is a group if something lies in it which is not an attribute of a dataset
GroupPaths(o) ==
    LET owners == {Front(p) : p \in DatasetPaths(o)} \cup {Front(p) : p \in AttrPaths(o)}
        up(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}
    IN UNION {up(p) : p \in owners \ DatasetPaths(o)}
\* does adding an item at path fail, because of what is there already?
Clash(o, path, attr) ==
    \/ path \in IF attr THEN AttrPaths(o) ELSE DatasetPaths(o) \cup GroupPaths(o)
    \/ \E n \in 1..(Len(path) - 1) :
         SubSeq(path, 1, n) \in DatasetPaths(o) /\ ~(attr /\ n = Len(path) - 1)
Find(o, path, attr) ==
    LET hits == SelectSeq(o.blocks, LAMBDA b : b.path = path /\ b.attr = attr)
    IN IF hits = <<>> THEN <<>> ELSE <<hits[1]>>
\* names directly in a group, in order of appearance: datasets, then groups
Dedup(s) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), <<>>, s)
Children(o, path) ==
    LET n == Len(path)
        below == SelectSeq(Named(o), LAMBDA b : Len(b.path) > n /\ SubSeq(b.path, 1, n) = path)
        ds == SelectSeq(below, LAMBDA b : ~b.attr /\ Len(b.path) = n + 1)
        gs == SelectSeq(below, LAMBDA b : Len(b.path) > n + 1 /\ SubSeq(b.path, 1, n + 1) \notin DatasetPaths(o))
    IN [i \in DOMAIN ds |-> ds[i].path[n + 1]] \o Dedup([i \in DOMAIN gs |-> gs[i].path[n + 1]])
AttrNames(o, path) ==
    LET at == SelectSeq(Named(o), LAMBDA b : b.attr /\ Len(b.path) = Len(path) + 1 /\ Front(b.path) = path)
    IN [i \in DOMAIN at |-> at[i].path[Len(path) + 1]]

----------------------------------------------------------------------------
\* steps
AddBlock(o, b) == [o EXCEPT !.blocks = Append(@, b), !.off = @ + NBytes(b)]
Marker(o) == [path |-> <<>>, attr |-> FALSE, w |-> 4, nc |-> 1, swap |-> TRUE, mem |-> "<", shape |-> <<>>, off |-> o.off]
Opposite(e) == IF e = "<" THEN ">" ELSE "<"
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
\* outcome of ending a record: <<"ok", byte order after>> or <<"error">>
RecordEnd(bytes, o) ==
    LET n == o.off - o.rec[1].start
        m == Marker(o)
    IN IF ~Readable(bytes, m) THEN <<"error">>
       ELSE LET last == Elem(bytes, o.endian, m, 0)
                first == o.rec[1].marker
            IN IF first # last THEN <<"error">>
               ELSE IF o.rec[1].auto /\ n > 65535 THEN <<"error">>
               ELSE IF first = LE4(n) THEN <<"ok", o.endian>>
               ELSE IF o.rec[1].auto /\ first = Rev(LE4(n)) THEN <<"ok", Opposite(o.endian)>>
               ELSE <<"error">>

InOrder(o) == SortSeq(o.blocks, LAMBDA a, b : a.off < b.off)
\* every byte of the file belongs to exactly one block
AllBytesUsed(bytes, o) ==
    /\ \A b \in ToSet(o.blocks) : b.off >= 0 /\ b.off + NBytes(b) <= Len(bytes)
    /\ FoldLeft(LAMBDA a, b : a + NBytes(b), 0, o.blocks) = Len(bytes)
    /\ \A i, j \in DOMAIN o.blocks :
         i < j /\ NBytes(o.blocks[i]) > 0 /\ NBytes(o.blocks[j]) > 0 =>
            \/ o.blocks[i].off + NBytes(o.blocks[i]) <= o.blocks[j].off
            \/ o.blocks[j].off + NBytes(o.blocks[j]) <= o.blocks[i].off
\* the contents as seen in memory, in little endian order, block after block
Canonical(bytes, o) ==
    LET bs == InOrder(o)
    IN Concat([i \in DOMAIN bs |-> Concat(Whole(bytes, o.endian, bs[i]))])
\* the file written by write_binary; bytes between blocks are zero
Written(bytes, o, order(_)) ==
    LET n == Max({b.off + NBytes(b) : b \in {x \in ToSet(o.blocks) : NBytes(x) > 0}} \cup {0})
        Owner(p) == {k \in DOMAIN o.blocks : o.blocks[k].off <= p /\ p < o.blocks[k].off + NBytes(o.blocks[k])}
        ByteAt(b, p) ==
            LET rel == p - b.off
                k == rel \div ElSize(b)
                c == (rel % ElSize(b)) \div b.w
                j == rel % b.w
                el == Elem(bytes, o.endian, b, k)
            IN el[c * b.w + (IF b.swap /\ order(b) = ">" THEN b.w - 1 - j ELSE j) + 1]
    IN [p \in 1..n |-> LET w == Owner(p - 1) IN IF w = {} THEN 0 ELSE ByteAt(o.blocks[Max(w)], p - 1)]
=============================================================================
