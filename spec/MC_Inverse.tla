----------------------------- MODULE MC_Inverse -----------------------------
(* The SPMD algorithm for the inverse measure, step by step and with every  *)
(* interleaving of the processes, against its meaning (Measure!InverseProb).*)
EXTENDS Judge
CONSTANTS N, MaxR, NBins, VolMax

Probs == {<<Q(1,2), Q(1,2)>>, <<One, Zero>>, <<Zero, One>>, <<Q(1,4), Q(3,4)>>}
VARIABLES R, io, vol, p,          \* the problem
          pc, bin, contrib, tot,  \* per process control, bin counter, allreduce slots
          P                       \* per process result
vars == <<R, io, vol, p, pc, bin, contrib, tot, P>>

Mine(r) == PartFrom(N, R, r)..PartTo(N, R, r)
LocalSum(r, j) == QSumOver({i \in Mine(r) : io[i] = j}, LAMBDA i : vol[i])

Init == /\ R \in 1..MaxR
        /\ io \in [1..N -> 0..(NBins - 1)]
        /\ vol \in [1..N -> {QI(v) : v \in 0..VolMax}]
        /\ p \in Probs
        /\ pc = [r \in 1..R |-> "loop"]
        /\ bin = [r \in 1..R |-> 0]
        /\ contrib = [r \in 1..R |-> <<>>]
        /\ tot = [r \in 1..R |-> <<>>]
        /\ P = [r \in 1..R |-> [i \in Mine(r) |-> Zero]]

\* bins of probability zero are skipped by every process alike
Loop(r) ==
    /\ pc[r] = "loop"
    /\ IF bin[r] = NBins
       THEN pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<bin, contrib>>
       ELSE IF QLess(Zero, p[bin[r] + 1])
       THEN /\ contrib' = [contrib EXCEPT ![r] = <<LocalSum(r, bin[r])>>]
            /\ pc' = [pc EXCEPT ![r] = "reduce"]
            /\ UNCHANGED bin
       ELSE /\ bin' = [bin EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<pc, contrib>>
    /\ UNCHANGED <<R, io, vol, p, tot, P>>
\* the collective completes when everyone has contributed
Reduce ==
    /\ \A r \in 1..R : pc[r] = "reduce"
    /\ LET s == QSum([r \in 1..R |-> contrib[r][1]])
       IN tot' = [r \in 1..R |-> <<s>>]
    /\ pc' = [r \in 1..R |-> "assign"]
    /\ UNCHANGED <<R, io, vol, p, bin, contrib, P>>
Assign(r) ==
    /\ pc[r] = "assign"
    /\ P' = [P EXCEPT ![r] = [i \in Mine(r) |->
                IF io[i] = bin[r] /\ QLess(Zero, tot[r][1])
                THEN QDiv(QMul(p[bin[r] + 1], vol[i]), tot[r][1]) ELSE @[i]]]
    /\ bin' = [bin EXCEPT ![r] = @ + 1]
    /\ pc' = [pc EXCEPT ![r] = "loop"]
    /\ contrib' = [contrib EXCEPT ![r] = <<>>]
    /\ tot' = [tot EXCEPT ![r] = <<>>]
    /\ UNCHANGED <<R, io, vol, p>>
Next == Reduce \/ \E r \in 1..R : Loop(r) \/ Assign(r)
Spec == Init /\ [][Next]_vars

Done == \A r \in 1..R : pc[r] = "done"
Result == [i \in 1..N |-> LET r == CHOOSE q \in 1..R : i \in Mine(q) IN P[r][i]]
\* every interleaving ends in the sequential meaning
Correct == Done => Result = InverseProb(vol, io, p)
\* mass of the bins that are reached with positive volume, and nothing else
Mass == Done => QSum(Result) =
          QSumOver({j \in 0..(NBins - 1) : QLess(Zero, QSumOver(Preimage(io, j), LAMBDA i : vol[i]))},
                   LAMBDA j : p[j + 1])
NonNeg == \A r \in 1..R : \A i \in Mine(r) : ~QLess(P[r][i], Zero)
\* processes are never in different collectives, nobody waits forever
Aligned == \A r, q \in 1..R : pc[r] = "reduce" /\ pc[q] = "reduce" => bin[r] = bin[q]
Progress == ~Done => ENABLED Next
=============================================================================
