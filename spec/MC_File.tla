------------------------------ MODULE MC_File -------------------------------
(* R processes save a globalized object in one file and then load it.       *)
(* Opening for writing truncates; the content is written in two pieces at   *)
(* the writer's own position; the pieces of different processes differ      *)
(* (each pickles its own local part).  A file is sound if all of it comes   *)
(* from one writer.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS R, AllWrite, BarrierAfter
P == 1..R
VARIABLES pc, file, got
vars == <<pc, file, got>>
Writes(p) == AllWrite \/ p = 1
Init == pc = [p \in P |-> "start"] /\ file = <<>> /\ got = [p \in P |-> <<>>]
Pad(f, n) == IF Len(f) >= n THEN f ELSE f \o [k \in 1..(n - Len(f)) |-> 0]
\* barrier before writing: everybody is at "start" or beyond it
Open(p) == /\ pc[p] = "start"
           /\ IF Writes(p) THEN file' = <<>> /\ pc' = [pc EXCEPT ![p] = "w1"]
                           ELSE UNCHANGED file /\ pc' = [pc EXCEPT ![p] = "written"]
           /\ UNCHANGED got
W1(p) == pc[p] = "w1" /\ file' = [Pad(file, 1) EXCEPT ![1] = p] /\ pc' = [pc EXCEPT ![p] = "w2"] /\ UNCHANGED got
W2(p) == pc[p] = "w2" /\ file' = [Pad(file, 2) EXCEPT ![2] = p] /\ pc' = [pc EXCEPT ![p] = "written"] /\ UNCHANGED got
Barrier(p) == /\ pc[p] = "written"
              /\ BarrierAfter => \A q \in P : pc[q] \in {"written", "load", "done"}
              /\ pc' = [pc EXCEPT ![p] = "load"] /\ UNCHANGED <<file, got>>
Load(p) == pc[p] = "load" /\ got' = [got EXCEPT ![p] = file] /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED file
Next == \E p \in P : Open(p) \/ W1(p) \/ W2(p) \/ Barrier(p) \/ Load(p)
Spec == Init /\ [][Next]_vars
\* what is loaded is what one process saved
Sound == \A p \in P : pc[p] = "done" => \E q \in P : got[p] = <<q, q>>
=============================================================================
