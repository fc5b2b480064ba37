------------------------------- MODULE Density ------------------------------
(* Gaussian kernel densities in fixed point.  Data are exact rationals; the *)
(* exponential is tabulated with 15 bits (scale 32768).                     *)
EXTENDS Judge

RECURSIVE ISqrtN(_, _)
ISqrtN(x, g) == LET h == TLCEval((g + x \div g) \div 2) IN IF h >= g THEN g ELSE ISqrtN(x, h)
SqrtI(x0) == LET x == TLCEval(x0) IN IF x <= 0 THEN 0 ELSE ISqrtN(x, x)

E15 == 32768
ExpA == <<32768, 12055, 4435, 1631, 600, 221, 81, 30, 11, 4, 1>>
ExpB == <<32768, 30783, 28918, 27166, 25520, 23974, 22521, 21157, 19875, 18671, 17539, 16477, 15479, 14541, 13660, 12832>>
Scott1 == <<10000, 7579, 6444, 5743, 5253, 4884, 4592, 4353, 4152, 3981, 3832, 3701, 3584, 3480, 3385, 3299, 3220, 3147, 3080, 3017, 2959, 2904, 2853, 2805>>
Scott2 == <<10000, 7937, 6934, 6300, 5848, 5503, 5228, 5000, 4807, 4642, 4496, 4368, 4253, 4149, 4055, 3969, 3889, 3816, 3748, 3684, 3625, 3569, 3516, 3467>>
MulE(a, b) == (a * b + 16384) \div E15
\* 32768 * exp(-t / 4096) for an integer t >= 0
ExpNeg(t) ==
    IF t >= 11 * 4096 THEN 0
    ELSE LET r == t % 256
             er == E15 - 8 * r + (r * r) \div 1024
         IN MulE(MulE(ExpA[(t \div 4096) + 1], ExpB[((t % 4096) \div 256) + 1]), er)

\* ---- weighted moments (w: positive integers; xs: rows) --------------------------
WSum(w) == ISum(w)
WMean(xs, w) == [i \in DOMAIN xs[1] |-> QDiv(QSum([k \in DOMAIN xs |-> QMul(QI(w[k]), xs[k][i])]), QI(WSum(w)))]
\* unbiased weighted covariance, entry i, j
WCov(xs, w, i, j) ==
    LET m == TLCEval(WMean(xs, w))
        W == WSum(w)
        c == QDiv(QSum([k \in DOMAIN xs |-> QMul(QI(w[k]), QMul(QSub(xs[k][i], m[i]), QSub(xs[k][j], m[j])))]), QI(W))
        s2 == ISum([k \in DOMAIN w |-> w[k] * w[k]])
    IN QDiv(c, QSub(One, Q(s2, W * W)))
Covs(xs, w) == TLCEval([i \in DOMAIN xs[1] |-> TLCEval([j \in DOMAIN xs[1] |-> WCov(xs, w, i, j)])])
Det(C) == IF Len(C) = 1 THEN C[1][1] ELSE QSub(QMul(C[1][1], C[2][2]), QMul(C[1][2], C[2][1]))
\* (x - y) C^-1 (x - y)
Mahal(C, x, y) ==
    IF Len(C) = 1 THEN QDiv(QSq(QSub(x[1], y[1])), C[1][1])
    ELSE LET a == QSub(x[1], y[1])
             b == QSub(x[2], y[2])
         IN QDiv(QAdd(QSub(QMul(QSq(a), C[2][2]), QMul(QMul(QI(2), QMul(a, b)), C[1][2])), QMul(QSq(b), C[1][1])), Det(C))

\* ---- kernel estimate ---------------------------------------------------------------
\* [xs |-> rows, w |-> integer weights, f2 |-> squared bandwidth factor in 1/10000]
Scott(n, d) == IF d = 1 THEN Scott1[n] ELSE Scott2[n]
Kde(xs, w, f2) == [xs |-> xs, w |-> w, f2 |-> f2, C |-> Covs(xs, w)]
\* its value at x times 32768 sqrt(det(2 pi f2 C)): the sum of kernels
KernelArg(K, x, y) == LET q == TLCEval(QFix(Mahal(K.C, x, y), 4096))
                      IN (q \div K.f2) * 5000 + ((q % K.f2) * 5000) \div K.f2
KdeSum(K, x) ==
    ISum(TLCEval([k \in DOMAIN K.xs |-> K.w[k] * ExpNeg(KernelArg(K, x, K.xs[k]))])) \div WSum(K.w)
\* sqrt of a positive rational, in 1/1000
RECURSIVE Coarse(_)
Coarse(q) == IF q[2] > 2000 THEN Coarse(<<(q[1] + 1) \div 2, (q[2] + 1) \div 2>>) ELSE q
SqrtQ1000(q) == SqrtI(QFix(Coarse(q), 1000000))
\* sqrt of a positive rational times k / 1000, in 1/1000
SqrtMul1000(q, k) ==
    LET v == IF QLess(q, QI(4)) THEN (QFix(q, 20000) * k) \div 20
             ELSE IF QLess(q, QI(80)) THEN QFix(q, 1000) * k ELSE (QFix(q, 100) * k) * 10
    IN SqrtI(v)
\* ratio of two kernel estimates at x, in 1/10000
KdeRatio(Ko, Kp, x) ==
    LET d == Len(Ko.C)
        so == KdeSum(Ko, x)
        sp == KdeSum(Kp, x)
        a == (so * 10000) \div IMax(sp, 1)
        \* sqrt(det Cp / det Co) (fp / fo)^d
        nrm == IF d = 1 THEN (SqrtQ1000(QDiv(Det(Kp.C), Det(Ko.C))) * SqrtI(((Kp.f2 * 10000) \div Ko.f2) * 10000)) \div 10000
               ELSE (SqrtQ1000(QDiv(Det(Kp.C), Det(Ko.C))) * Kp.f2) \div Ko.f2
    IN (a \div 1000) * nrm + ((a % 1000) * nrm) \div 1000
=============================================================================
