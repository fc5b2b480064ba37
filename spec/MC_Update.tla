------------------------------ MODULE MC_Update ------------------------------
(* Laws of the update on all small data: observing what was predicted       *)
(* changes nothing, ratios follow the data, moments of equal weights are    *)
(* the plain ones; the tabulated exponential is one.                        *)
EXTENDS Update
CONSTANTS N, Grid

VARIABLES a, b, w
vars == <<a, b, w>>
Spread(f) == \E i, j \in DOMAIN f : f[i] # f[j]
Asc(f) == \A i \in 1..(N - 1) : f[i] <= f[i + 1]
Init == /\ a \in {f \in [1..N -> 0..Grid] : Spread(f) /\ Asc(f)}
        /\ b \in {f \in [1..N -> 0..Grid] : Spread(f) /\ Asc(f)}
        /\ w \in [1..N -> 1..2]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

ASSUME \A t \in 0..600 : LET x == ExpNeg(16 * t) IN x >= ExpNeg(16 * (t + 1))
ASSUME \A s, t \in {40 * k : k \in 0..60} : IAbs(ExpNeg(16 * (s + t)) - MulE(ExpNeg(16 * s), ExpNeg(16 * t))) <= 6
Rw(f) == [k \in 1..N |-> <<QI(f[k])>>]
E(p, o, v) == [pred |-> <<Rw(p)>>, obs |-> <<Rw(o)>>, pw |-> <<v>>, bw |-> 5625]
Ones == [k \in 1..N |-> 1]
Same == \A k \in 1..N : IAbs(Ratios(E(a, a, Ones), 1)[k] - 10000) <= 60
\* shifting or scaling both data changes no ratio
Sh(f) == [k \in 1..N |-> 2 * f[k] + 1]
Affine == LET r == TLCEval(Ratios(E(a, b, w), 1))
              s == TLCEval(Ratios(E(Sh(a), Sh(b), w), 1))
          IN \A k \in 1..N : IAbs(r[k] - s[k]) <= 40 + r[k] \div 50
\* doubling a weight is repeating the sample, up to the bandwidth
Plain == LET x == [k \in 1..N |-> <<a[k]>>]
         IN /\ IAbs(Mom1(x, Ones, 1) - QFix(WMean(Rw(a), Ones)[1], 1000)) <= 1
            /\ LET c == QMul(WCov(Rw(a), Ones, 1, 1), Q(N - 1, N)) IN IAbs(Mom2(x, Ones, 1, 1) - QFix(c, 1000)) <= 2 * Grid + 4
            /\ Mom2(x, w, 1, 1) >= -2
=============================================================================
