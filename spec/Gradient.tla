------------------------------ MODULE Gradient ------------------------------
(* Gradients from clusters of samples: finite differences (exact) and the   *)
(* gradient of a radial basis interpolant (fixed point).                    *)
EXTENDS Density

\* ---- stencils ----------------------------------------------------------------
Shift(c, k, h) == TLCEval([j \in DOMAIN c |-> IF j = k THEN QAdd(c[j], h) ELSE c[j]])
\* points around one centre, in order
Around(kind, c, rad) ==
    LET d == Len(c)
    IN IF kind = "ffd" THEN [k \in 1..d |-> Shift(c, k, rad[k])]
       ELSE [k \in 1..(2 * d) |-> IF k <= d THEN Shift(c, k, rad[k]) ELSE Shift(c, k - d, QNeg(rad[k - d]))]
PerCentre(kind, d) == IF kind = "ffd" THEN d ELSE 2 * d
\* all centres, then the points around each
Stencil(kind, cs, rad) ==
    LET n == Len(cs)
        m == PerCentre(kind, Len(cs[1]))
    IN TLCEval([i \in 1..(n * (1 + m)) |-> IF i <= n THEN cs[i]
               ELSE Around(kind, cs[((i - n - 1) \div m) + 1], rad)[((i - n - 1) % m) + 1]])
NumCentres(kind, n, d) == n \div (1 + PerCentre(kind, d))
\* index of the point of centre c displaced along k (up: forwards)
At(kind, nc, d, c, k, up) == nc + (c - 1) * PerCentre(kind, d) + (IF up THEN k ELSE d + k)
\* ---- difference quotients: rows y, entry of centre c, output o, input k -----------
Quotient(kind, y, rad, nc, d, c, o, k) ==
    IF kind = "ffd" THEN QDiv(QSub(y[At(kind, nc, d, c, k, TRUE)][o], y[c][o]), rad[k])
    ELSE QDiv(QSub(y[At(kind, nc, d, c, k, TRUE)][o], y[At(kind, nc, d, c, k, FALSE)][o]), QMul(QI(2), rad[k]))
Norm1(row) == QSum([k \in DOMAIN row |-> QAbs(row[k])])
Scaled(row) == LET s == Norm1(row) IN IF s = Zero THEN row ELSE [k \in DOMAIN row |-> QDiv(row[k], s)]
JacRow(kind, y, rad, nc, d, c, o, nrm) ==
    LET r == TLCEval([k \in 1..d |-> Quotient(kind, y, rad, nc, d, c, o, k)])
    IN TLCEval(IF nrm THEN Scaled(r) ELSE r)
\* ---- radial basis functions, in 1/10000 ------------------------------------------
\* all of a rational squared argument s = (ep r)^2
SqrtF(s) == SqrtI(QFix(s, 1000000)) * 10                \* sqrt(s) in 1/10000
Exp4(t) == (ExpNeg(t) * 10000) \div E15                  \* 10000 exp(-t/4096)
ExpSqrt(s) == LET q == SqrtF(s) IN Exp4((q * 4096) \div 10000)
MulF(a, b) == LET n == IAbs(a) IN (IF a < 0 THEN -1 ELSE 1) * ((n \div 10000) * b + ((n % 10000) * b) \div 10000)
Phi(kernel, s) ==
    CASE kernel = "C4Matern" -> MulF(10000 + SqrtF(s) + (QFix(s, 10000) \div 3), ExpSqrt(s))
      [] kernel = "Gaussian" -> Exp4(QFix(s, 4096))
      [] kernel = "Multiquadric" -> SqrtF(QAdd(One, s))
      [] kernel = "InverseMultiquadric" -> 100000000 \div SqrtF(QAdd(One, s))
\* derivative along a coordinate in which the displacement is x (times ep^2 x =: e2x)
DPhi(kernel, s, e2x) ==
    LET e == QFix(e2x, 10000)
    IN CASE kernel = "C4Matern" -> -(MulF(e, MulF(10000 + SqrtF(s), ExpSqrt(s))) \div 3)
         [] kernel = "Gaussian" -> -2 * MulF(e, Exp4(QFix(s, 4096)))
         [] kernel = "Multiquadric" -> MulF(e, 100000000 \div SqrtF(QAdd(One, s)))
         [] kernel = "InverseMultiquadric" ->
              LET i == 100000000 \div SqrtF(QAdd(One, s)) IN -MulF(e, MulF(i, MulF(i, i)))
Sq2(x, y) == QSum([k \in DOMAIN x |-> QSq(QSub(x[k], y[k]))])
\* the k samples nearest to sample c (no ties at the last)
NearestTo(xs, p, c, k) ==
    LET D == TLCEval([i \in DOMAIN xs |-> DistP(p, xs[i], xs[c])])
    IN {i \in DOMAIN xs : Cardinality({j \in DOMAIN xs : QLess(D[j], D[i])}) < k}
\* value and gradient of sum a_m phi(|x - x_m|)
Inter(xs, S, a, kernel, ep, x) == ISumOver(S, LAMBDA m : a[m] * Phi(kernel, QMul(QSq(ep), Sq2(x, xs[m]))))
GradI(xs, S, a, kernel, ep, x, k) ==
    ISumOver(S, LAMBDA m : a[m] * DPhi(kernel, QMul(QSq(ep), Sq2(x, xs[m])), QMul(QSq(ep), QSub(x[k], xs[m][k]))))
=============================================================================
