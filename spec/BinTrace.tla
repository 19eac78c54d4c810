----------------------------- MODULE BinTrace -----------------------------
(* Recorded histories of binary files against BinFile. *)
EXTENDS BinFile, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, disk, objs, digests
vars == <<l, bad, disk, objs, digests>>
e == Trace[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(f) == f \in DOMAIN e
Err == Has("err")
O == objs[e.obj]
Content(f) == IF f \in DOMAIN disk THEN disk[f] ELSE <<>>
D == Content(O.file)

Blk(o) == [path |-> e.path, attr |-> e.attr, w |-> e.w, nc |-> e.nc, swap |-> e.swap, shape |-> e.shape,
           off |-> o.off, mem |-> e.mem]

\* what the operation must have returned
Wrong(expErr) == IF expErr THEN Clause("error-not-reported", Err) ELSE Clause("unexpected-error", ~Err)

AddBad == Wrong(Clash(O, e.path, e.attr))
RasBad == LET b == Blk(O) IN
    IF ~Readable(D, b) THEN Wrong(TRUE)
    ELSE Wrong(FALSE) \cup (IF Err THEN {} ELSE
         Clause("value", e.els = Whole(D, O.endian, b)) \cup Clause("shape", e.rshape = e.shape))
GetBad ==
    LET f == Find(O, e.path, e.attr) IN
    IF f = <<>> THEN Wrong(TRUE)
    ELSE LET b == f[1] IN
         IF ~Readable(D, b) THEN Wrong(TRUE)
         ELSE Wrong(FALSE) \cup (IF Err THEN {} ELSE
              Clause("value", e.els = Selected(D, O.endian, b, e.ax))
              \cup Clause("shape", e.rshape = ResultShape(e.ax))
              \cup Clause("type", e.rtype = e.type))
KeysBad == Wrong(FALSE) \cup (IF Err THEN {} ELSE
    Clause("names", e.names = Children(O, e.path))
    \cup Clause("attribute-names", e.attrs = AttrNames(O, e.path)))
StartBad == Wrong(O.rec # <<>> \/ ~Readable(D, Marker(O)))
EndBad == IF O.rec = <<>> THEN Wrong(TRUE) ELSE Wrong(RecordEnd(D, O) = <<"error">>)
UsedBad == Wrong(FALSE) \cup Clause("all-bytes-used", ~Err => e.res = AllBytesUsed(D, O))
\* a digest is a function of the contents, and an injective one
DigestBad(b) ==
    Clause("digest", \A d \in digests : d.kind = e.kind => ((d.bytes = b) = (d.token = e.token)))
HashBad ==
    LET ok == AllBytesUsed(D, O)
    IN Wrong(~ok) \cup (IF Err \/ ~ok THEN {} ELSE DigestBad(Canonical(D, O)))
WbBad ==
    LET ok == \A b \in ToSet(O.blocks) : Readable(D, b)
        Order(b) == IF e.order = "" THEN b.mem ELSE e.order
    IN IF e.exists THEN Clause("overwritten", Err /\ e.bytes = e.before)
       ELSE Wrong(~ok) \cup (IF Err \/ ~ok THEN {} ELSE Clause("file-written", e.bytes = Written(D, O, Order)))
\* items of the HDF5 file: [path, attr, shape, els]
H5Bad ==
    LET named == ToSet(Named(O))
        ok == \A b \in named : Readable(D, b)
        want == {[path |-> b.path, attr |-> b.attr, shape |-> b.shape, els |-> Whole(D, O.endian, b)] : b \in named}
        got == {[path |-> x.path, attr |-> x.attr, shape |-> x.shape, els |-> x.els] : x \in ToSet(e.items)}
    IN Wrong(~ok) \cup (IF Err \/ ~ok THEN {} ELSE
         Clause("items-missing", {<<x.path, x.attr>> : x \in want} \subseteq {<<x.path, x.attr>> : x \in got})
         \cup Clause("items-unknown", {<<x.path, x.attr>> : x \in got} \subseteq {<<x.path, x.attr>> : x \in want})
         \cup Clause("items-differ", got = want)
         \cup Clause("groups", ToSet(e.groups) = GroupPaths(O) \ {<<>>})
         \cup Clause("types", \A x \in ToSet(e.items) : x.type = x.want))

Bad0 == CASE e.op \in {"begin", "put", "open", "close", "drop", "chdir"} -> Wrong(FALSE)
          [] e.op \in {"skip", "endian", "byteswap", "toggle"} -> Wrong(FALSE)
          [] e.op = "add" -> AddBad
          [] e.op = "ras" -> RasBad
          [] e.op = "get" -> GetBad
          [] e.op = "keys" -> KeysBad
          [] e.op = "start" -> StartBad
          [] e.op = "stop" -> EndBad
          [] e.op = "used" -> UsedBad
          [] e.op = "hash" -> HashBad
          [] e.op = "rawhash" -> DigestBad(Content(e.file))
          [] e.op = "wb" -> WbBad
          [] e.op = "h5" -> H5Bad
          [] OTHER -> {"unknown-operation"}
Bad == Bad0 \cup (IF Has("maps") THEN Clause("too-many-files-mapped", e.maps <= e.max) ELSE {})

Init == l = 1 /\ bad = <<>> /\ disk = <<>> /\ objs = <<>> /\ digests = {}

Effect ==
    /\ disk' = CASE e.op = "begin" -> e.files
                 [] e.op = "put" -> (e.file :> e.bytes) @@ disk
                 [] e.op = "wb" /\ ~Err -> (e.file :> e.bytes) @@ disk
                 [] OTHER -> disk
    /\ objs' = CASE e.op = "begin" -> <<>>
                 [] e.op = "open" -> (e.obj :> NewObj(e.file)) @@ objs
                 [] Err -> objs
                 [] e.op = "add" -> (e.obj :> AddBlock(O, Blk(O))) @@ objs
                 [] e.op = "ras" -> (e.obj :> AddBlock(O, Blk(O))) @@ objs
                 [] e.op = "skip" -> (e.obj :> [O EXCEPT !.off = @ + e.n]) @@ objs
                 [] e.op = "endian" -> (e.obj :> [O EXCEPT !.endian = IF e.to = ">" THEN ">" ELSE "<"]) @@ objs
                 [] e.op = "byteswap" -> (e.obj :> [O EXCEPT !.endian = IF e.to THEN ">" ELSE "<"]) @@ objs
                 [] e.op = "toggle" -> (e.obj :> [O EXCEPT !.endian = Opposite(@)]) @@ objs
                 [] e.op = "start" ->
                      (e.obj :> [AddBlock(O, Marker(O)) EXCEPT
                          !.rec = <<[marker |-> IF Readable(D, Marker(O)) THEN Elem(D, O.endian, Marker(O), 0) ELSE <<>>,
                                     start |-> O.off + 4, auto |-> e.auto]>>]) @@ objs
                 [] e.op = "stop" ->
                      (e.obj :> [AddBlock(O, Marker(O)) EXCEPT
                          !.rec = <<>>,
                          !.endian = IF O.rec = <<>> THEN O.endian
                                     ELSE LET r == RecordEnd(D, O) IN IF r = <<"error">> THEN O.endian ELSE r[2]]) @@ objs
                 [] OTHER -> objs
    /\ digests' = CASE e.op = "begin" -> {}
                    [] e.op = "hash" /\ ~Err -> digests \cup {[kind |-> e.kind, bytes |-> Canonical(D, O), token |-> e.token]}
                    [] e.op = "rawhash" -> digests \cup {[kind |-> e.kind, bytes |-> Content(e.file), token |-> e.token]}
                    [] OTHER -> digests
Step == /\ l <= Len(Trace)
        /\ bad' = (LET b == Bad IN IF b = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> b]))
        /\ Effect
        /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1
          /\ UNCHANGED <<bad, disk, objs, digests>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
