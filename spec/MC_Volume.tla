----------------------------- MODULE MC_Volume ------------------------------
(* Volumes of all small configurations: they sum to the domain, follow the  *)
(* sample under permutation, and 1D agrees with counting a fine grid.       *)
EXTENDS Volume
CONSTANTS N1, Grid1, N2, Grid2

VARIABLES d, xs, s
vars == <<d, xs, s>>
Distinct(f) == \A i, j \in DOMAIN f : i # j => f[i] # f[j]
Init == \/ /\ d = 1 /\ xs \in {f \in [1..N1 -> 0..Grid1] : Distinct(f)} /\ s = <<>>
        \/ /\ d = 2 /\ xs = <<>>
           /\ s \in {f \in [1..N2 -> (1..Grid2) \X (1..Grid2)] : Distinct(f)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

V1 == Vol1([i \in 1..N1 |-> QI(xs[i])], QI(0), QI(Grid1))
Sum1 == d = 1 => QSum(V1) = One
\* an independent meaning: points of a 4x finer grid nearest to the sample,
\* ties shared (midpoints of grid cells carry equal mass)
Near1(i, t) == \A j \in 1..N1 : IAbs(8 * xs[i] - t) <= IAbs(8 * xs[j] - t)
Count1 == d = 1 => \A i \in 1..N1 :
    LET pts == {t \in {2 * k + 1 : k \in 0..(4 * Grid1 - 1)} : Near1(i, t)}
    IN V1[i] = Q(Cardinality(pts), 4 * Grid1)
W2 == Grid2 + 1
V2 == [i \in 1..N2 |-> Vol2(s, i, W2, W2)]
Sum2 == d = 2 => IAbs(ISum(V2) - 10000) <= 3 * N2
Pos2 == d = 2 => \A i \in 1..N2 : V2[i] > 0
\* swapping two samples swaps their volumes
Swap2 == d = 2 /\ N2 > 1 =>
    LET t == [s EXCEPT ![1] = s[2], ![2] = s[1]]
    IN Vol2(t, 1, W2, W2) = V2[2] /\ Vol2(t, 2, W2, W2) = V2[1]
=============================================================================
