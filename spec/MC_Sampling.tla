----------------------------- MODULE MC_Sampling -----------------------------
(* All small weights and numbers: the numbers per cluster and process add   *)
(* up to what was asked for.                                                *)
EXTENDS Sampling
CONSTANTS MaxN, MaxR, Den, Method

VARIABLES w, n, R, sent
vars == <<w, n, R, sent>>
Weights == UNION {{f \in [1..c -> 0..Den] : ISum([i \in 1..c |-> f[i]]) = Den} : c \in 1..3}
Init == /\ w \in {[i \in DOMAIN f |-> Q(f[i], Den)] : f \in Weights}
        /\ n \in 1..MaxN /\ R \in 1..MaxR
        /\ sent = 0
Cnt == IF Method = "cumulated" THEN ByCumulation(w, n) ELSE Separately(w, n)
\* process sent + 1 draws its share of every cluster
Next == sent < R /\ sent' = sent + 1 /\ UNCHANGED <<w, n, R>>
Spec == Init /\ [][Next]_vars
\* drawn so far over all clusters by processes 1..sent
Drawn == ISum([i \in DOMAIN w |-> ISum([r \in 1..sent |-> PartSize(Cnt[i], R, r)])])
Total == sent = R => Drawn = n
Shares == sent = 0 => CountsOk(Cnt, w, n)
Grid == sent = 0 /\ R <= 3 =>
    LET dom == << <<QI(-1), QI(n)>>, <<QI(0), QI(2)>> >>
        g == GridPoints(dom, <<n, R>>)
    IN /\ Len(g) = n * R
       /\ \A i \in 1..n, j \in 1..R : g[(i - 1) * R + j] = <<BinCentre(dom[1], n, i), BinCentre(dom[2], R, j)>>
       /\ Cardinality({g[k] : k \in DOMAIN g}) = n * R
\* a sample in each stratum in any order is Latin; two in one are not
Lat == sent = 0 => /\ Latin([k \in 1..n |-> 1000 * (((k + R) % n) + 1) - 300 - k])
                   /\ (n > 1 => ~Latin([k \in 1..n |-> IF k = 1 THEN 1500 ELSE 1000 * k - 500]))
                   /\ Centred([k \in 1..n |-> 1000 * (n - k) + 500])
=============================================================================
