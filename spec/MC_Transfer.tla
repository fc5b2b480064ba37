---------------------------- MODULE MC_Transfer -----------------------------
(* Laws of probability transfer, for every small configuration: old cells,  *)
(* new cells, emulated points (given by the cells they fall in) and masses. *)
EXTENDS Judge
CONSTANTS NOld, NNew, NEmu

Masses == {Zero, Q(1, 2), One}
VARIABLES oldp, po, pn, po2
vars == <<oldp, po, pn, po2>>
Init == /\ oldp \in [1..NOld -> Masses]
        /\ po \in [1..NEmu -> 0..(NOld - 1)]
        /\ pn \in [1..NEmu -> 0..(NNew - 1)]
        /\ po2 \in [1..NOld -> 0..(NNew - 1)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Tot(s) == QSum([i \in 1..Len(s) |-> s[i]])
Direct == Aggregate(NNew, po2, oldp)
Emul == TransferEmulated(NNew, oldp, po, pn)
Lost == \E i \in 1..NOld : QLess(Zero, oldp[i]) /\ ~\E e \in 1..NEmu : po[e] = i - 1
Kept == \E i \in 1..NOld : QLess(Zero, oldp[i]) /\ \E e \in 1..NEmu : po[e] = i - 1
Conserve == QSum(Direct) = QSum(oldp)
ConserveEmulated == IF ~Lost THEN QSum(Emul) = QSum(oldp)
                    ELSE Kept => QSum(Emul) = One
\* moving within one partition with a point in every cell changes nothing
Identity == (NOld = NNew /\ pn = po /\ ~Lost) => Emul = oldp
\* a cell gets mass exactly if it owns a point of an old cell with mass
Support == Kept => \A j \in 1..NNew : QLess(Zero, Emul[j]) <=>
              \E e \in 1..NEmu : pn[e] = j - 1 /\ QLess(Zero, oldp[po[e] + 1])
=============================================================================
