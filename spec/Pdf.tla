-------------------------------- MODULE Pdf ---------------------------------
(* Probability models of a set and their densities (fixed point, 1/10000).  *)
(*   [t |-> "rv",  rv |-> marginals [f, a, b]]                              *)
(*   [t |-> "kde", cl |-> [cluster][coordinate] kernel estimates or empty,  *)
(*                 w |-> cluster weights]                                   *)
(*   [t |-> "gmm", m |-> means, C |-> covariances (empty: no component), w] *)
(*   [t |-> "voronoi"], [t |-> "none"], [t |-> "other"]                     *)
(* A set has an initial model and an updated one, and for cells values,     *)
(* probabilities, volume fractions and a domain.                            *)
EXTENDS Density

TwoPi == Q(710, 113)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE QPow(_, _)
QPow(q, n) == IF n = 0 THEN One ELSE QMul(q, QPow(q, n - 1))
\* exp(..) in 1/32768 over a size in 1/1000, in 1/10000
Over(e, s) == ((e * 30518) \div 100) \div IMax(s, 1)
\* normal density of covariance C (1 or 2 dimensions)
NormDens(C, m, x) ==
    LET t == TLCEval(QFix(QDiv(Mahal(C, x, m), QI(2)), 4096))
        s == IF Len(C) = 1 THEN SqrtQ1000(QMul(C[1][1], TwoPi)) ELSE (SqrtQ1000(Det(C)) * 710) \div 113
    IN Over(ExpNeg(t), s)
KdeDens(K, x) == Over(KdeSum(K, <<x>>), SqrtMul1000(K.C[1][1], (71 * K.f2) \div 113))
\* one random variable: f with location a and scale b (and shape s)
RvDens(d, x) ==
    LET z == QDiv(QSub(x, d.a), d.b)
    IN CASE d.f = "uniform" -> IF QLeq(Zero, z) /\ QLeq(z, One) THEN QFix(QInv(d.b), 10000) ELSE 0
         [] d.f = "norm" -> NormDens(<<<<QSq(d.b)>>>>, <<d.a>>, <<x>>)
         [] d.f = "expon" -> IF QLess(z, Zero) THEN 0 ELSE QFix(QDiv(Q(ExpNeg(QFix(z, 4096)), E15), d.b), 10000)
         [] OTHER -> \* beta with whole shapes s
            IF QLess(z, Zero) \/ QLess(One, z) THEN 0
            ELSE QFix(QDiv(QMul(Q(Fact(d.s[1] + d.s[2] - 1), Fact(d.s[1] - 1) * Fact(d.s[2] - 1)),
                                QMul(QPow(z, d.s[1] - 1), QPow(QSub(One, z), d.s[2] - 1))), d.b), 10000)
Mul4(a, b) == (a * b) \div 10000
RECURSIVE Prod4(_)
Prod4(s) == IF s = <<>> THEN 10000 ELSE Mul4(Head(s), Prod4(Tail(s)))
Scale4(w, d) == QFix(QMul(w, Q(d, 1)), 1)

\* ---- bandwidth of a weighted kernel estimate: neff^(-2/5) in 1/10000 ---------------------
Pow52(f) == ((f * f) \div 1000) * SqrtI(f * 10000)             \* f^(5/2) in 1/10^9
RECURSIVE Bisect(_, _, _)
Bisect(lo, hi, y) == IF hi - lo <= 1 THEN hi
                     ELSE LET m == (lo + hi) \div 2 IN IF Pow52(m) >= y THEN Bisect(lo, m, y) ELSE Bisect(m, hi, y)
ScottW(w) == LET W == ISum(w) IN Bisect(0, 10000, (1000000000 \div (W * W)) * ISum([i \in DOMAIN w |-> w[i] * w[i]]))

\* ---- marginal and joint densities of a model -----------------------------------------------
CellMarginal(s, i, x) ==
    LET pos == SelectSeq([k \in DOMAIN s.P |-> k], LAMBDA k : s.P[k] # Zero)
        w == TLCEval([k \in DOMAIN pos |-> QMul(s.P[pos[k]], QI(32))[1]])
        K == TLCEval(Kde([k \in DOMAIN pos |-> <<s.cells.vals[pos[k]][i]>>], w, ScottW(w)))
    IN KdeDens(K, x)
MargDens(s, M, i, x) ==
    CASE M.t = "rv" -> RvDens(M.rv[i], x)
      [] M.t = "kde" -> ISum([j \in DOMAIN M.w |-> IF M.cl[j] = <<>> THEN 0 ELSE Scale4(M.w[j], KdeDens(M.cl[j][i], x))])
      [] M.t = "gmm" -> ISum([j \in DOMAIN M.w |-> IF M.m[j] = <<>> THEN 0 ELSE Scale4(M.w[j], NormDens(<<<<M.C[j][i][i]>>>>, <<M.m[j][i]>>, <<x>>))])
      [] OTHER -> CellMarginal(s, i, x)
JointDens(s, M, x) ==
    IF M.t = "gmm" THEN ISum([j \in DOMAIN M.w |-> IF M.m[j] = <<>> THEN 0 ELSE Scale4(M.w[j], NormDens(M.C[j], M.m[j], x))])
    ELSE Prod4([i \in DOMAIN x |-> MargDens(s, M, i, x[i])])
\* probability per unit volume of the owning cell (exact)
VolOf(s, k) == QMul(IF s.V = <<>> THEN Q(1, Len(s.cells.vals)) ELSE s.V[k], IF s.dom = <<>> THEN One ELSE QProd([i \in DOMAIN s.dom |-> QSub(s.dom[i][2], s.dom[i][1])]))
CellDens(s, x) == LET k == Owner(s.cells, x) + 1 IN QDiv(s.P[k], VolOf(s, k))

\* ---- the state machine: what a step makes of the set -----------------------------------------
Prep(M) == IF M.t = "kde"
           THEN [M EXCEPT !.cl = TLCEval([j \in DOMAIN M.cl |-> [i \in DOMAIN M.cl[j] |-> Kde(M.cl[j][i].xs, M.cl[j][i].w, M.cl[j][i].f2)]])]
           ELSE M
Apply(s, a) == CASE a.do = "init" -> [s EXCEPT !.ini = Prep(a.m)]
                 [] a.do = "upd" -> [s EXCEPT !.upd = Prep(a.m)]
                 [] a.do = "P" -> [s EXCEPT !.P = a.v]
                 [] a.do = "V" -> [s EXCEPT !.V = a.v]
                 [] OTHER -> s
\* which model a call asks
Asked(s, a) == IF a.ini THEN s.ini ELSE s.upd
Refused(s, a) == \/ Asked(s, a).t \in {"none", "other"}
                 \/ a.ini /\ s.ini.t = "voronoi"
                 \/ ~a.ini /\ s.upd.t = "voronoi" /\ s.P = <<>>
                 \/ a.do = "joint" /\ a.wid # s.dim
=============================================================================
