------------------------------ MODULE Compare -------------------------------
(* Statistical distances of two probability models on comparison points.    *)
(* Densities are exact rationals here (uniform, beta, cells), normal ones   *)
(* (quadrature only) fixed point; results in 1/10000.                       *)
EXTENDS Pdf

\* ---- exact densities --------------------------------------------------------------
RvExact(d, x) ==
    LET z == QDiv(QSub(x, d.a), d.b)
    IN IF QLess(z, Zero) \/ QLess(One, z) THEN Zero
       ELSE IF d.f = "uniform" THEN QInv(d.b)
       ELSE QDiv(QMul(Q(Fact(d.s[1] + d.s[2] - 1), Fact(d.s[1] - 1) * Fact(d.s[2] - 1)),
                      QMul(QPow(z, d.s[1] - 1), QPow(QSub(One, z), d.s[2] - 1))), d.b)
ExactDens(s, M, x) == IF M.t = "voronoi" THEN CellDens(s, x) ELSE QProd([i \in DOMAIN x |-> RvExact(M.rv[i], x[i])])
ExactMarg(M, i, x) == RvExact(M.rv[i], x)

\* ---- roots and logarithms ------------------------------------------------------------
Sqrt4(q) == IF q = Zero THEN 0 ELSE IF QLess(q, Q(1, 50)) THEN SqrtQ1000(QMul(q, QI(100))) ELSE SqrtQ1000(q) * 10
F4(q) == QFix(q, 10000)
\* ln(q) in 1/10000, q positive
RECURSIVE Ln4(_)
Ln4(q) == IF QLess(q, One) THEN -Ln4(QInv(q))
          ELSE IF QLeq(QI(2), q) THEN 6931 + Ln4(QDiv(q, QI(2)))
          ELSE LET y == QFix(QDiv(QSub(q, One), QAdd(q, One)), 10000)
                   y2 == (y * y) \div 10000
                   y3 == (y2 * y) \div 10000
                   y5 == (y3 * y2) \div 10000
                   y7 == (y5 * y2) \div 10000
               IN 2 * (y + y3 \div 3 + y5 \div 5 + y7 \div 7)
\* rationals with a denominator that products stay below 2^31
Tame(q) == IF q[2] <= 10000 THEN q ELSE Q(QFix(q, 10000), 10000)

\* ---- functionals of two sequences of densities ---------------------------------------------
HugeD == 200000000                                    \* an infinite result
Normed(p) == LET t == QSum(p) IN TLCEval([k \in DOMAIN p |-> QDiv(p[k], t)])
KlDist(p, q) ==
    LET sp == QSum(p)
        sq == QSum(q)
        term(k) == IF p[k] = Zero THEN 0
                   ELSE LET a == Tame(QDiv(p[k], sp))
                            r == Tame(QDiv(Tame(QDiv(p[k], q[k])), Tame(QDiv(sp, sq))))
                        IN QFix(QMul(a, Q(Ln4(r), 1)), 1)
    IN IF \E k \in DOMAIN p : p[k] # Zero /\ q[k] = Zero THEN HugeD
       ELSE ISum([k \in DOMAIN p |-> term(k)])
\* value of a functional: len is the measure of what the points stand for (joint: one);
\* joint: Minkowski and norm are averaged, for marginals they are not
Value(fn, p0, q0, norm, len, joint) ==
    LET n == Len(p0)
        p == IF norm THEN Normed(p0) ELSE p0
        q == IF norm THEN Normed(q0) ELSE q0
        u == IF norm THEN 10000 ELSE 1000
        a == TLCEval([k \in 1..n |-> QFix(p[k], u)])
        b == TLCEval([k \in 1..n |-> QFix(q[k], u)])
        f == IF norm THEN One ELSE QDiv(len, QI(n))
        c == 10000 \div u
        Times(x, g) == (x \div g[2]) * g[1] + ((x % g[2]) * g[1]) \div g[2]
        abs == TLCEval([k \in 1..n |-> IAbs(a[k] - b[k])])
        sq == TLCEval(ISum([k \in 1..n |-> abs[k] * abs[k]]))                        \* in 1 / u^2
        rt(x) == SqrtI(x * (1000000 \div u))                                        \* in 1 / 1000
        he == TLCEval(ISum([k \in 1..n |-> LET d == rt(a[k]) - rt(b[k]) IN d * d]))  \* in 1 / 10^6
        g == IF joint THEN f ELSE One
    IN CASE fn = "tv" -> Times(ISum(abs) * c, QDiv(f, QI(2)))
         [] fn = "mink1" -> Times(ISum(abs) * c, g)
         [] fn \in {"mink2", "norm"} -> Times(SqrtI(sq) * c, g)
         [] fn = "euclid" -> SqrtI(Times(sq, f)) * c
         [] fn = "sqhell" -> Times(he, QDiv(f, QI(2))) \div 100
         [] fn = "hell" -> SqrtI(Times(he, QDiv(f, QI(2)))) * 10
         [] fn = "kl" -> KlDist(p0, q0)
         [] OTHER -> Max({abs[k] : k \in 1..n}) * c                                  \* the user's: greatest difference
\* equally spaced points and the default interval
Lin(lo, hi, n) == TLCEval([k \in 1..n |-> QAdd(lo, QMul(QSub(hi, lo), Q(k - 1, n - 1)))])
FiniteDom(s, i) == s.dom # <<>> /\ IsFin(s.dom[i][1]) /\ IsFin(s.dom[i][2])
Interval(s, t, i, factor) ==
    LET byDom == s.dom # <<>> /\ t.dom # <<>> /\ FiniteDom(s, i) /\ FiniteDom(t, i)
        all == [k \in 1..(Len(s.cells.vals) + Len(t.cells.vals)) |-> IF k <= Len(s.cells.vals) THEN s.cells.vals[k][i] ELSE t.cells.vals[k - Len(s.cells.vals)][i]]
        lo == IF byDom THEN QMin(s.dom[i][1], t.dom[i][1]) ELSE QMinSeq(all)
        hi == IF byDom THEN QMax(s.dom[i][2], t.dom[i][2]) ELSE QMaxSeq(all)
        d == QMul(factor, QSub(hi, lo))
    IN <<QSub(lo, d), QAdd(hi, d)>>
\* by values, as for random comparison points
ValueRange(s, t, i, factor) == Interval([s EXCEPT !.dom = <<>>], t, i, factor)

\* ---- integrals of normal marginals (midpoints, NQ cells), in 1/10000 ----------------------------
NQ == 48
LnNorm(d, x) == LET z == QDiv(QSub(x, d.a), d.b) IN -10 * QFix(QDiv(QSq(z), QI(2)), 1000) - Ln4(d.b)
Integral(lo, hi, f(_)) == LET h == QDiv(QSub(hi, lo), QI(NQ))
                          IN QFix(QMul(Q(ISum([k \in 1..NQ |-> f(QAdd(lo, QMul(h, Q(2 * k - 1, 2))))]), 1), h), 1)
QuadValue(fn, d1, d2, lo, hi) ==
    LET p(x) == RvDens(d1, x)
        q(x) == RvDens(d2, x)
        rt(x) == SqrtI(x * 10000)                                                     \* in 1 / 10000
        sh == Integral(lo, hi, LAMBDA x : LET d == rt(p(x)) - rt(q(x)) IN (d * d) \div 10000)
    IN CASE fn = "tv" -> Integral(lo, hi, LAMBDA x : IAbs(p(x) - q(x))) \div 2
         [] fn = "euclid" -> SqrtI(Integral(lo, hi, LAMBDA x : LET d == p(x) - q(x) IN (d * d) \div 10000) * 10000)
         [] fn = "sqhell" -> sh \div 2
         [] fn = "hell" -> SqrtI((sh \div 2) * 10000)
         [] fn = "kl" -> Integral(lo, hi, LAMBDA x : (p(x) * (LnNorm(d1, x) - LnNorm(d2, x))) \div 10000)
         [] OTHER -> Integral(lo, hi, LAMBDA x : (p(x) * q(x)) \div 10000)             \* the user's: product
=============================================================================
