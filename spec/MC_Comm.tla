------------------------------ MODULE MC_Comm -------------------------------
(* R processes running one program of collectives under every schedule: a   *)
(* collective completes when all have arrived.  With the same program they  *)
(* all finish with the same results; a process that takes another branch    *)
(* leaves the others waiting or mixes results.                              *)
EXTENDS Comm
CONSTANTS R, Depth, Branch          \* Branch: the last process may skip an operation
VARIABLES prog, pc, at, acc
vars == <<prog, pc, at, acc>>
Kinds == {"allgather", "allreduce", "bcast", "Allreduce", "barrier", "gather"}
Mine(r) == <<r, 10 - r>>
Init == /\ prog \in [1..Depth -> Kinds] /\ pc = [r \in 1..R |-> 1] /\ at = [r \in 1..R |-> 0] /\ acc = [r \in 1..R |-> <<>>]
\* process r runs to its next operation
Arrive(r) == /\ at[r] = 0 /\ pc[r] <= Depth
             /\ \/ at' = [at EXCEPT ![r] = pc[r]] /\ pc' = pc
                \/ Branch /\ r = R /\ r # 1 /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ at' = at
             /\ UNCHANGED <<prog, acc>>
Complete == /\ \A r \in 1..R : at[r] # 0
            /\ \A r \in 1..R : prog[at[r]] = prog[at[1]]
            /\ LET k == prog[at[1]]
                   c == [r \in 1..R |-> Mine(r)]
               IN acc' = [r \in 1..R |-> Append(acc[r], <<at[r], IF k = "gather" /\ r # 1 THEN <<>> ELSE LET w == Answer(k, 1, "SUM", c, r) IN w.ret \o w.buf>>)]
            /\ pc' = [r \in 1..R |-> at[r] + 1] /\ at' = [r \in 1..R |-> 0] /\ UNCHANGED prog
Next == Complete \/ \E r \in 1..R : Arrive(r)
Spec == Init /\ [][Next]_vars
Finished == \A r \in 1..R : pc[r] > Depth
\* never stuck
Progress == Finished \/ ENABLED Next
\* operations pair up with themselves, so results mean what the program says
Paired == \A r, q \in 1..R : Len(acc[r]) = Len(acc[q]) /\ \A k \in DOMAIN acc[r] : acc[r][k][1] = acc[q][k][1]
Agree == \A r \in 1..R : \A k \in DOMAIN acc[r] : prog[acc[r][k][1]] # "gather" => acc[r][k][2] = acc[1][k][2]
\* one process: everything is its own contribution
Single == R # 1 \/ \A k \in Kinds : LET w == Answer(k, 1, "SUM", <<Mine(1)>>, 1) IN w.ret \o w.buf = OneProcess(k, Mine(1))
=============================================================================
