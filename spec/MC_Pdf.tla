------------------------------- MODULE MC_Pdf -------------------------------
(* Densities integrate to one and to their marginals, and evaluation reads  *)
(* the current probabilities and the asked model whatever happened before.  *)
EXTENDS Pdf
CONSTANTS Grid, Entry, Cache         \* Entry: which variance a marginal reads; Cache: densities kept from before
VARIABLES C, x, s, d, hist
vars == <<C, x, s, d, hist>>
H == 4                                \* lattice step 1/H
Lat == -6 * H .. 6 * H
Cell(k) == [kind |-> "vor", p |-> "2", vals |-> <<<<QI(0)>>, <<QI(4)>>>>]
S0 == [dim |-> 1, ini |-> [t |-> "none"], upd |-> [t |-> "voronoi"], P |-> <<>>, V |-> <<>>, cells |-> Cell(1), dom |-> <<<<QI(0), QI(2)>>>>]
Init == /\ C \in {<<a, b, c>> \in (1..Grid) \X (1..Grid) \X (-1..1) : 4 * a * b > 4 * c * c + 3 /\ a * b > 1}
        /\ x \in -2..2 /\ s = S0 /\ d = <<>> /\ hist = 0
\* histories of the cell probabilities: set, change, evaluate
Steps == [do : {"P"}, v : {<<Q(1, 4), Q(3, 4)>>, <<One, Zero>>}] \cup [do : {"V"}, v : {<<Q(1, 2), Q(1, 2)>>, <<Q(1, 8), Q(7, 8)>>}]
Next == /\ hist < 4 /\ hist' = hist + 1 /\ UNCHANGED <<C, x>>
        /\ x = 0 /\ C[3] = 0 /\ C[1] = C[2]
        /\ \/ \E a \in Steps : s' = Apply(s, a) /\ d' = d
           \/ /\ s.P # <<>> /\ UNCHANGED s
              /\ d' = IF Cache /\ d # <<>> THEN [d EXCEPT ![3] = hist + 1] ELSE <<CellDens(s, <<QI(1)>>), CellDens(s, <<QI(3)>>), hist + 1>>
Spec == Init /\ [][Next]_vars
CM == LET z(q) == IF q = 0 THEN Zero ELSE Q(q, 2) IN <<<<Q(C[1], 2), z(C[3])>>, <<z(C[3]), Q(C[2], 2)>>>>
M == [t |-> "gmm", m |-> <<<<Zero, Q(1, 2)>>, <<>>>>, C |-> <<CM, CM>>, w |-> <<One, Q(1, 2)>>]
RM == [t |-> "rv", rv |-> <<[f |-> "norm", a |-> Zero, b |-> One, s |-> <<1, 1>>], [f |-> "beta", a |-> QI(-1), b |-> QI(2), s |-> <<2, 3>>]>>]
KM == [t |-> "kde", w |-> <<Q(1, 4), Q(3, 4)>>, cl |-> <<<<Kde(<<<<Zero>>, <<QI(2)>>>>, <<1, 1>>, 2500)>>, <<Kde(<<<<QI(C[1])>>, <<QI(-1)>>, <<QI(-2)>>>>, <<C[2], 1, 2>>, 2500)>>>>]
Integral(f(_)) == ISum([k \in 1..Cardinality(Lat) |-> f(Q(k - 1 - 6 * H, H))]) \div H
Marginal ==
    hist # 0 \/
    LET e == IF Entry = "own" THEN 1 ELSE 2
        X == QI(x)
    IN /\ IAbs(Integral(LAMBDA y : JointDens(s, M, <<X, y>>)) - MargDens(s, M, e, IF e = 1 THEN X ELSE QAdd(X, Q(1, 2)))) <= 40
       /\ IAbs(Integral(LAMBDA y : JointDens(s, RM, <<X, y>>)) - MargDens(s, RM, 1, X)) <= 200
Unit == hist # 0 \/ x # 0 \/
    /\ IAbs(Integral(LAMBDA y : MargDens(s, M, 1, y)) - 10000) <= 60
    /\ IAbs(Integral(LAMBDA y : MargDens(s, RM, 2, y)) - 10000) <= 200
    /\ IAbs(Integral(LAMBDA y : MargDens(s, KM, 1, y)) - 10000) <= 60
Bandwidth == \A k \in 2..6 : IAbs(ScottW([i \in 1..k |-> C[1]]) - Scott1[k]) <= 4
\* right after an evaluation, what was answered is probability per volume now
Follows == d = <<>> \/ d[3] # hist \/ (d[1] = QDiv(s.P[1], VolOf(s, 1)) /\ d[2] = QDiv(s.P[2], VolOf(s, 2)))
=============================================================================
