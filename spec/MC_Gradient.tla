---------------------------- MODULE MC_Gradient -----------------------------
(* Quadratic models of two inputs on stencils around lattice centres.       *)
EXTENDS Gradient
CONSTANTS Kind, Shared, Deg     \* Shared: points of the first centre used for all
VARIABLES co, cs, rad
vars == <<co, cs, rad>>
Pt == (0..1) \X (0..1)
\* coefficients of x, y, xx, xy, yy
Init == /\ co \in {c \in [1..5 -> -1..1] : IF Deg = 2 THEN \A k \in 1..2 : c[k] >= 0 ELSE \A k \in 3..5 : c[k] = 0}
        /\ cs \in UNION {[1..n -> Pt] : n \in 1..2} /\ rad \in {<<Q(1, 2), One>>, <<One, Q(1, 4)>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
C == [i \in DOMAIN cs |-> <<QI(cs[i][1]), QI(cs[i][2])>>]
F(x) == QSum(<<QMul(QI(co[1]), x[1]), QMul(QI(co[2]), x[2]), QMul(QI(co[3]), QSq(x[1])), QMul(QI(co[4]), QMul(x[1], x[2])), QMul(QI(co[5]), QSq(x[2]))>>)
DF(x, k) == IF k = 1 THEN QSum(<<QI(co[1]), QMul(QI(2 * co[3]), x[1]), QMul(QI(co[4]), x[2])>>)
            ELSE QSum(<<QI(co[2]), QMul(QI(2 * co[5]), x[2]), QMul(QI(co[4]), x[1])>>)
X == TLCEval(Stencil(Kind, C, rad))
Y == TLCEval([i \in DOMAIN X |-> <<F(X[i])>>])
nc == Len(cs)
Row_(c) == JacRow(Kind, IF Shared THEN [i \in DOMAIN Y |-> IF i > nc THEN Y[nc + ((i - nc - 1) % PerCentre(Kind, 2)) + 1] ELSE Y[i]] ELSE Y, rad, nc, 2, c, 1, FALSE)
Exact == \A c \in 1..nc : \A k \in 1..2 : (Kind = "cfd" \/ Deg = 1) => Row_(c)[k] = DF(C[c], k)
\* forward differences: off by radius times second derivative over two
First == \A c \in 1..nc : \A k \in 1..2 : Kind = "ffd" => Row_(c)[k] = QAdd(DF(C[c], k), QMul(rad[k], QI(co[IF k = 1 THEN 3 ELSE 5])))
Count == Len(X) = nc * (1 + PerCentre(Kind, 2)) /\ NumCentres(Kind, Len(X), 2) = nc
Unit == \A c \in 1..nc : Norm1(Scaled(Row_(c))) = (IF Norm1(Row_(c)) = Zero THEN Zero ELSE One)
\* kernels: phi decreases or increases away from its centre as its derivative says
Kernels == (\A k \in 1..5 : co[k] = 0) => \A kk \in {"C4Matern", "Gaussian", "Multiquadric", "InverseMultiquadric"} : \A i \in 1..8 :
             LET a == Phi(kk, QSq(Q(i, 4)))
                 b == Phi(kk, QSq(Q(i + 1, 4)))
                 m == DPhi(kk, QSq(Q(2 * i + 1, 8)), Q(2 * i + 1, 8))
             IN IAbs(4 * (b - a) - m) <= 450
=============================================================================
