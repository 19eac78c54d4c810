------------------------------ MODULE BinCache -----------------------------
(***************************************************************************)
(* Design of the cache of mapped files, as the code does it: at most Limit *)
(* mapped files, least recently opened closed first; blocks hold strong    *)
(* references to maps, the cache weak ones, and any holder may close a map *)
(* which others share.  Checked: never more than Limit maps open, and a read *)
(* is always served by an open map of the block's own file.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Files, Blocks, Limit, MaxMaps
VARIABLES own, ref, maps, cache, served
\* own: block -> its file or "none" (not existing); ref: block -> map held, 0 none
\* maps: map number -> [file, open]; cache: sequence of map numbers (weak)
vars == <<own, ref, maps, cache, served>>
Alive(m) == \E b \in Blocks : ref[b] = m
Usable(m) == Alive(m) /\ maps[m].open
OpenMaps == {m \in DOMAIN maps : maps[m].open /\ Alive(m)}
InCache(f) == {i \in DOMAIN cache : maps[cache[i]].file = f}
Init == own = [b \in Blocks |-> "none"] /\ ref = [b \in Blocks |-> 0] /\ maps = <<>> /\ cache = <<>> /\ served = <<>>
Create(b, f) == /\ own[b] = "none" /\ own' = [own EXCEPT ![b] = f]
                /\ UNCHANGED <<ref, maps, cache>> /\ served' = <<>>
Drop(b) == /\ own[b] # "none" /\ own' = [own EXCEPT ![b] = "none"] /\ ref' = [ref EXCEPT ![b] = 0]
           /\ UNCHANGED <<maps, cache>> /\ served' = <<>>
Close(b) == /\ ref[b] # 0 /\ maps' = [maps EXCEPT ![ref[b]].open = FALSE]
            /\ UNCHANGED <<own, ref, cache>> /\ served' = <<>>
RECURSIVE Evict(_, _)
\* remove from the front until there is room: <<cache, maps>>
Evict(c, ms) == IF Len(c) < Limit THEN <<c, ms>>
                ELSE Evict(Tail(c), IF Alive(c[1]) THEN [ms EXCEPT ![c[1]].open = FALSE] ELSE ms)
Read(b) ==
    /\ own[b] # "none"
    /\ UNCHANGED own
    /\ IF ref[b] # 0 /\ maps[ref[b]].open
       THEN UNCHANGED <<ref, maps, cache>> /\ served' = <<b, ref[b]>>
       ELSE LET hit == InCache(own[b])
                m == IF hit = {} THEN 0 ELSE cache[CHOOSE i \in hit : TRUE]
            IN IF m # 0 /\ Usable(m)
               THEN ref' = [ref EXCEPT ![b] = m] /\ UNCHANGED <<maps, cache>> /\ served' = <<b, m>>
               ELSE LET c0 == SelectSeq(cache, LAMBDA x : maps[x].file # own[b])
                        ev == Evict(c0, maps)
                        n == Len(maps) + 1
                    IN /\ n <= MaxMaps
                       /\ maps' = Append(ev[2], [file |-> own[b], open |-> TRUE])
                       /\ cache' = Append(ev[1], n)
                       /\ ref' = [ref EXCEPT ![b] = n]
                       /\ served' = <<b, n>>
Next == \E b \in Blocks : Drop(b) \/ Close(b) \/ Read(b) \/ \E f \in Files : Create(b, f)
Spec == Init /\ [][Next]_vars
Bounded == Cardinality(OpenMaps) <= Limit
OneMapPerFile == \A m, n \in OpenMaps : m # n => maps[m].file # maps[n].file
OwnFile == served # <<>> => maps[served[2]].open /\ maps[served[2]].file = own[served[1]]
=============================================================================
