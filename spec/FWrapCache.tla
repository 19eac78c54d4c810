----------------------------- MODULE FWrapCache -----------------------------
(***************************************************************************)
(* Design of the wrapper's one cached dataset, which a read leaves open and *)
(* the next read of the same file and dataset name uses again.  Objects in *)
(* files have numbers; overwriting a dataset makes a new one under the same *)
(* name while the old one lives on if it is still open.  A file may be open *)
(* through several handles, under several spellings of its name.           *)
(* Checked: a read is served by the object the file has under that name now, *)
(* and the cached dataset never outlives the handles through which it was   *)
(* found, so that a closed file really is closed.  DropOnWrite = FALSE is   *)
(* the design before it was repaired: ReadsCurrent fails.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Files, Spellings, Names, H, MaxObj, DropOnWrite
VARIABLES tab, disk, cache, served, next, gone
\* tab: handle -> [f, sp, ro] or None; disk: file -> name -> object (0: none), or None
\* cache: None or [f, sp, name, obj]; served: what the last read used
vars == <<tab, disk, cache, served, next, gone>>
None == [none |-> TRUE]
Fields(x) == x # None
Handles == 1..H
OpenH(h) == Fields(tab[h])
Free == {h \in Handles : ~OpenH(h)}
Lowest(S) == CHOOSE h \in S : \A k \in S : h <= k
HasFile(f) == disk[f] # <<>>
Init == tab = [h \in Handles |-> None] /\ disk = [f \in Files |-> <<>>] /\ cache = None /\ served = None /\ next = 1 /\ gone = {}
Create(f, sp) ==
    /\ Free # {} /\ \A h \in Handles : OpenH(h) => tab[h].f # f
    /\ tab' = [tab EXCEPT ![Lowest(Free)] = [f |-> f, sp |-> sp, ro |-> FALSE]]
    /\ disk' = [disk EXCEPT ![f] = [n \in Names |-> 0]]
    /\ served' = None /\ UNCHANGED <<cache, next, gone>>
OpenFile(f, sp, ro) ==
    /\ Free # {} /\ HasFile(f)
    /\ ~ro => \A h \in Handles : OpenH(h) => (tab[h].f = f => \E k \in Handles : OpenH(k) /\ tab[k].f = f /\ ~tab[k].ro)
    /\ tab' = [tab EXCEPT ![Lowest(Free)] = [f |-> f, sp |-> sp, ro |-> ro]]
    /\ served' = None /\ UNCHANGED <<disk, cache, next, gone>>
Close(h) ==
    /\ OpenH(h)
    /\ cache' = IF Fields(cache) /\ cache.f = tab[h].f /\ cache.sp = tab[h].sp THEN None ELSE cache
    /\ tab' = [tab EXCEPT ![h] = None]
    /\ served' = None /\ UNCHANGED <<disk, next, gone>>
Write(h, n) ==
    /\ OpenH(h) /\ ~tab[h].ro /\ next <= MaxObj
    /\ cache' = IF DropOnWrite THEN None ELSE cache
    /\ disk' = [disk EXCEPT ![tab[h].f][n] = next]
    /\ next' = next + 1
    /\ gone' = gone \cup ({disk[tab[h].f][n]} \ {0})
    /\ served' = None /\ UNCHANGED tab
Read(h, n) ==
    /\ OpenH(h) /\ disk[tab[h].f][n] # 0
    /\ LET hit == Fields(cache) /\ cache.f = tab[h].f /\ cache.sp = tab[h].sp /\ cache.name = n
           c == IF hit THEN cache ELSE [f |-> tab[h].f, sp |-> tab[h].sp, name |-> n, obj |-> disk[tab[h].f][n]]
       IN /\ cache' = c
          /\ served' = [h |-> h, name |-> n, obj |-> c.obj]
    /\ UNCHANGED <<tab, disk, next, gone>>
Next == \/ \E f \in Files, sp \in Spellings : Create(f, sp) \/ \E ro \in BOOLEAN : OpenFile(f, sp, ro)
        \/ \E h \in Handles : Close(h) \/ \E n \in Names : Write(h, n) \/ Read(h, n)
Spec == Init /\ [][Next]_vars
ReadsCurrent == Fields(served) => served.obj = disk[tab[served.h].f][served.name] /\ served.obj \notin gone
CacheInOpenFile == Fields(cache) => \E h \in Handles : OpenH(h) /\ tab[h].f = cache.f /\ tab[h].sp = cache.sp
ReadOnlyKept == \A h \in Handles : OpenH(h) => HasFile(tab[h].f)
=============================================================================
