------------------------------ MODULE HashFarm ------------------------------
(***************************************************************************)
(* Design of the task farm which computes the checksums of the files in a   *)
(* directory tree.  Rank 0 hands out directories, does some itself and      *)
(* answers requests between the blocks of files it reads; a request carries *)
(* the results of the requester's previous directory.  Results go into a    *)
(* database, one transaction per directory.  A job may be killed at any     *)
(* moment; a resumed job takes what is in the database from there.          *)
(*                                                                         *)
(* Checked, for every interleaving and every moment of up to MaxCrash       *)
(* kills: a job which ends has the result of every directory, no directory  *)
(* is worked on twice in one job, the database never has a file twice nor a *)
(* result which was not computed, a resumed job only works on files which   *)
(* are not in the database, and no job gets stuck.                          *)
(* Early = TRUE is the mistake of ending when the directories are handed    *)
(* out rather than when the results are back: Complete fails.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, D, Blocks, MaxCrash, Early
VARIABLES pc, todo, have, inbox, reply, finished, results, db, cache, worked, crashes, left
vars == <<pc, todo, have, inbox, reply, finished, results, db, cache, worked, crashes, left>>
Ranks == 0..P-1
Workers == 1..P-1
Dirs == 1..D
NoDir == 0
Start(c) == /\ pc' = [r \in Ranks |-> "request"] /\ todo' = [i \in 1..D |-> i] /\ have' = [r \in Ranks |-> NoDir]
            /\ inbox' = <<>> /\ reply' = [r \in Workers |-> <<>>] /\ finished' = 0 /\ results' = {}
            /\ cache' = c /\ worked' = [d \in Dirs |-> 0] /\ left' = [r \in Ranks |-> 0]
Init == /\ pc = [r \in Ranks |-> "request"] /\ todo = [i \in 1..D |-> i] /\ have = [r \in Ranks |-> NoDir]
        /\ inbox = <<>> /\ reply = [r \in Workers |-> <<>>] /\ finished = 0 /\ results = {}
        /\ cache = {} /\ worked = [d \in Dirs |-> 0] /\ left = [r \in Ranks |-> 0] /\ db = <<>> /\ crashes = 0
Store(d) == /\ results' = IF d = NoDir THEN results ELSE results \cup {d}
            /\ db' = IF d = NoDir \/ d \in cache THEN db ELSE Append(db, d)
HeadOr(s) == IF s = <<>> THEN NoDir ELSE Head(s)
TailOr(s) == IF s = <<>> THEN <<>> ELSE Tail(s)
Work(r, d) == /\ worked' = IF d = NoDir \/ d \in cache THEN worked ELSE [worked EXCEPT ![d] = @ + 1]
              /\ have' = [have EXCEPT ![r] = d]
              /\ left' = [left EXCEPT ![r] = IF d \in cache THEN 0 ELSE Blocks]
              /\ pc' = [pc EXCEPT ![r] = IF d = NoDir THEN "over" ELSE "work"]
\* A worker asks
Ask(r) == /\ r \in Workers /\ pc[r] = "request"
          /\ inbox' = Append(inbox, [r |-> r, d |-> have[r]])
          /\ pc' = [pc EXCEPT ![r] = "wait"]
          /\ UNCHANGED <<todo, have, reply, finished, results, db, cache, worked, crashes, left>>
Receive(r) == /\ r \in Workers /\ pc[r] = "wait" /\ reply[r] # <<>>
              /\ Work(r, Head(reply[r])) /\ reply' = [reply EXCEPT ![r] = <<>>]
              /\ UNCHANGED <<todo, inbox, finished, results, db, cache, crashes>>
\* Rank 0 helps itself
Take == /\ pc[0] = "request"
        /\ Store(have[0]) /\ Work(0, HeadOr(todo)) /\ todo' = TailOr(todo)
        /\ UNCHANGED <<inbox, reply, finished, cache, crashes>>
\* Rank 0 answers: messages of different workers are seen in any order
Serve == /\ pc[0] \in {"work", "over"} /\ \E i \in 1..Len(inbox) :
              LET m == inbox[i] IN
              /\ Store(m.d)
              /\ reply' = [reply EXCEPT ![m.r] = <<HeadOr(todo)>>]
              /\ finished' = IF todo = <<>> THEN finished + 1 ELSE finished
              /\ todo' = TailOr(todo)
              /\ inbox' = SubSeq(inbox, 1, i - 1) \o SubSeq(inbox, i + 1, Len(inbox))
         /\ UNCHANGED <<pc, have, cache, worked, crashes, left>>
Block(r) == /\ pc[r] = "work" /\ left[r] > 0 /\ left' = [left EXCEPT ![r] = @ - 1]
            /\ UNCHANGED <<pc, todo, have, inbox, reply, finished, results, db, cache, worked, crashes>>
Finished(r) == /\ pc[r] = "work" /\ left[r] = 0 /\ pc' = [pc EXCEPT ![r] = "request"]
               /\ UNCHANGED <<todo, have, inbox, reply, finished, results, db, cache, worked, crashes, left>>
Leave == /\ pc[0] = "over" /\ (IF Early THEN todo = <<>> ELSE finished = P - 1)
         /\ pc' = [pc EXCEPT ![0] = "ended"]
         /\ UNCHANGED <<todo, have, inbox, reply, finished, results, db, cache, worked, crashes, left>>
Elements(s) == {s[i] : i \in DOMAIN s}
\* Killed, and started again to resume
Crash == /\ crashes < MaxCrash /\ pc[0] # "ended" /\ db # <<>>
         /\ crashes' = crashes + 1 /\ Start(Elements(db)) /\ UNCHANGED db
Next == Take \/ Serve \/ Leave \/ Crash \/ \E r \in Ranks : Ask(r) \/ Receive(r) \/ Block(r) \/ Finished(r)
Fair == /\ WF_vars(Take) /\ WF_vars(Serve) /\ WF_vars(Leave)
        /\ \A r \in Ranks : WF_vars(Ask(r)) /\ WF_vars(Receive(r)) /\ WF_vars(Block(r)) /\ WF_vars(Finished(r))
Spec == Init /\ [][Next]_vars /\ Fair
Complete == pc[0] = "ended" => results = Dirs /\ Elements(db) = Dirs
Once == \A d \in Dirs : worked[d] <= 1
NotAgain == \A d \in cache : worked[d] = 0
NoDuplicates == \A i, j \in DOMAIN db : i # j => db[i] # db[j]
Computed == \A d \in Elements(db) : d \in cache \/ worked[d] = 1
Ends == <>(pc[0] = "ended")
Stuck == ~(ENABLED Next) => \A r \in Ranks : pc[r] \in {"over", "ended"}
=============================================================================
