-------------------------------- MODULE Post --------------------------------
(* Samples ordered by probability per volume, and marginal histograms.      *)
EXTENDS Density

\* ---- density order: P, V sequences of rationals (hasv: with volumes) -------------
DensOf(P, V, hasv, i) == IF hasv THEN (IF V[i] = Zero THEN Inf ELSE QDiv(P[i], V[i])) ELSE P[i]
Positive(P) == {i \in DOMAIN P : QLess(Zero, P[i])}
ISeq(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
\* s (indices) is a non-increasing order of exactly the positive samples
DenseOrder(P, V, hasv, s) ==
    /\ Range(s) = Positive(P) /\ Len(s) = Cardinality(Positive(P))
    /\ \A i \in 1..(Len(s) - 1) : QLeq(DensOf(P, V, hasv, s[i + 1]), DensOf(P, V, hasv, s[i]))
Total(P, s) == QSum([i \in DOMAIN s |-> P[s[i]]])
\* s is a longest beginning, not above the percentile, of some order (low: from the sparse end)
Selection(P, V, hasv, low, pct, s) ==
    LET dens == TLCEval([i \in DOMAIN P |-> DensOf(P, V, hasv, i)])
        D(i) == dens[i]
        rest == TLCEval(Positive(P) \ Range(s))
        total == TLCEval(Total(P, s))
        Before(a, b) == IF low THEN QLeq(D(a), D(b)) ELSE QLeq(D(b), D(a))
        nextup == TLCEval({c \in rest : \A b \in rest : Before(c, b)})
    IN /\ Range(s) \subseteq Positive(P) /\ ISeq(s)
       /\ \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1])
       /\ \A i \in Range(s) : \A c \in rest : Before(i, c)
       /\ QLeq(total, pct)
       /\ rest = {} \/ \E c \in nextup : QLess(pct, QAdd(total, P[c]))
\* without sorting: of the order given
Prefix(P, low, pct, s) ==
    LET n == Len(P)
        o == [i \in 1..n |-> IF low THEN n + 1 - i ELSE i]
        k == Cardinality({m \in 1..n : QLeq(Total(P, SubSeq(o, 1, m)), pct)})
    IN s = SubSeq(o, 1, k)

\* ---- histograms: equal bins of [lo, hi], half open, the last one closed; 0: outside --------
BinOf(lo, hi, nb, x) ==
    IF QLess(x, lo) \/ QLess(hi, x) THEN 0
    ELSE IF x = hi THEN nb
    ELSE LET t == QDiv(QMul(QSub(x, lo), QI(nb)), QSub(hi, lo)) IN (t[1] \div t[2]) + 1
\* bs: bin of every sample
Hist1(P, bs, nb) == TLCEval([b \in 1..nb |-> QSumOver({i \in DOMAIN bs : bs[i] = b}, LAMBDA i : P[i])])
Hist2(P, bi, bj, ni, nj) == TLCEval([k \in 1..(ni * nj) |->
    QSumOver({i \in DOMAIN bi : bi[i] = ((k - 1) \div nj) + 1 /\ bj[i] = ((k - 1) % nj) + 1}, LAMBDA i : P[i])])
Edges(lo, hi, nb) == TLCEval([k \in 1..(nb + 1) |-> QAdd(lo, QDiv(QMul(QI(k - 1), QSub(hi, lo)), QI(nb)))])

\* ---- smoothing, in 1/32768: kernel exp(-((k - q) dx / sigma)^2), total one again -------------
\* w: weights of the bins (integers), r2 == (dx / sigma)^2
Kern1(r2, k) == LET a == QMul(QI(k * k), r2) IN IF QLeq(QI(10), a) THEN 0 ELSE ExpNeg(TLCEval(QFix(a, 4096)))
Smooth1(w, r2) == LET n == Len(w)
                      K == TLCEval([k \in 1..n |-> Kern1(r2, k - 1)])
                  IN TLCEval([k \in 1..n |-> ISum([q \in 1..n |-> w[q] * K[IAbs(k - q) + 1]])])
Smooth2(w, ni, nj, ri2, rj2) ==
    LET K1 == TLCEval([k \in 1..ni |-> Kern1(ri2, k - 1)])
        K2 == TLCEval([k \in 1..nj |-> Kern1(rj2, k - 1)])
        A == TLCEval([k \in 1..(ni * nj) |-> LET a == ((k - 1) \div nj) + 1
                                                 b == ((k - 1) % nj) + 1
                                             IN ISum([q \in 1..nj |-> w[(a - 1) * nj + q] * K2[IAbs(b - q) + 1]])])
    IN TLCEval([k \in 1..(ni * nj) |-> LET a == ((k - 1) \div nj) + 1
                                           b == ((k - 1) % nj) + 1
                                       IN ISum([q \in 1..ni |-> ((A[(q - 1) * nj + b] \div 4) * (K1[IAbs(a - q) + 1] \div 4)) \div 2048])])
\* share of bin k of the total, in 1/10000
Share(s, k) == LET t == TLCEval(ISum([i \in DOMAIN s |-> s[i] \div 16])) IN ((s[k] \div 16) * 10000) \div t
=============================================================================
