------------------------------ MODULE GenFmt ------------------------------
(* Lays out files: for each case the segments it consists of.              *)
EXTENDS Formats, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
        /\ JsonSerialize(IOEnv.OUT, [i \in DOMAIN Cases |-> Segments(Cases[i])])
Spec == Init /\ [][Next]_done
=============================================================================
