------------------------------ MODULE GenKeys ------------------------------
(* Peano-Hilbert keys of grid points, for files in the order of the curve. *)
EXTENDS Peano, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
        /\ JsonSerialize(IOEnv.OUT, [i \in DOMAIN Cases |->
              [j \in DOMAIN Cases[i].pts |-> KeyValue(Key(Cases[i].pts[j][1], Cases[i].pts[j][2], Cases[i].pts[j][3], Cases[i].bits))]])
Spec == Init /\ [][Next]_done
=============================================================================
