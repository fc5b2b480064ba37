------------------------------- MODULE OptQoI -------------------------------
(* Measures of sets of quantities of interest from integer Jacobians        *)
(* G[centre][quantity][input], in fixed point (1/1000), and the choice of   *)
(* the best sets.                                                           *)
EXTENDS Density

Huge == 100000000
\* sqrt(n) in 1/1000
SqrtM(n0) == LET n == TLCEval(n0) IN IF n <= 2000 THEN SqrtI(n * 1000000) ELSE SqrtI(n * 10000) * 10
IDot(a, b) == ISum([k \in DOMAIN a |-> a[k] * b[k]])
Det3(M) == CASE Len(M) = 0 -> 1
             [] Len(M) = 1 -> M[1][1]
             [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
             [] Len(M) = 3 -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                              + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
\* s: sequence of quantities (from 1)
Gram(G, s) == TLCEval([i \in DOMAIN s |-> TLCEval([j \in DOMAIN s |-> IDot(G[s[i]], G[s[j]])])])
Vol2(G, s) == LET M == TLCEval(Gram(G, s)) IN Det3(M)                      \* squared volume spanned
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* ---- one centre -----------------------------------------------------------------
SkewOf(G, s, i) == LET v == TLCEval(Vol2(G, s)) IN
                   IF v = 0 THEN Huge ELSE (SqrtM(IDot(G[s[i]], G[s[i]]) * Vol2(G, Without(s, i))) * 1000) \div SqrtM(v)
SkewAt(G, s) == LET k == TLCEval([i \in DOMAIN s |-> SkewOf(G, s, i)]) IN FoldLeft(IMax, 0, k)
\* ---- over the centres ------------------------------------------------------------------
HMean(seq) == LET t == TLCEval(ISum([c \in DOMAIN seq |-> IF seq[c] >= Huge THEN 0 ELSE 1000000000 \div seq[c]]) \div Len(seq))
              IN IF t = 0 THEN Huge ELSE 1000000000 \div t
AvgSkew(Gs, s) == HMean(TLCEval([c \in DOMAIN Gs |-> SkewAt(Gs[c], s)]))
AvgMeasure(Gs, s, bm) == LET t == TLCEval(ISum([c \in DOMAIN Gs |-> SqrtM(TLCEval(Vol2(Gs[c], s)))]) \div Len(Gs))
                         IN IF t = 0 THEN Huge ELSE QFix(QMul(bm, Q(1000, t)), 1000)
Value(Gs, s, measure) == IF measure THEN AvgMeasure(Gs, s, One) ELSE AvgSkew(Gs, s)
\* ---- near-parallel and vanishing quantities -----------------------------------------------
Norm2(g) == IDot(g, g)
\* mean cosine, in 1/1000
Cosine(Gs, i, j) == LET t == ISum([c \in DOMAIN Gs |-> LET n == TLCEval(Norm2(Gs[c][i]) * Norm2(Gs[c][j]))
                                                          d == TLCEval(IDot(Gs[c][i], Gs[c][j]))
                                                      IN IF n = 0 THEN 0 ELSE (IF d < 0 THEN -1 ELSE 1) * ((IAbs(d) * 1000000) \div SqrtM(n))])
                    IN LET u == TLCEval(t) IN IAbs(u) \div Len(Gs)
Vanishes(Gs, q) == \E c \in DOMAIN Gs : Norm2(Gs[c][q]) = 0
\* K is what remains of I: nothing vanishing, no two near-parallel, and whatever was left out was near-parallel to one kept
Remains(Gs, I, K, tol, rz) ==
    LET J == IF rz THEN {q \in I : ~Vanishes(Gs, q)} ELSE I
    IN /\ K \subseteq J
       /\ \A a, b \in K : a # b => Cosine(Gs, a, b) <= tol
       /\ \A q \in J \ K : \E a \in K : Cosine(Gs, a, q) > tol
\* ---- choice ----------------------------------------------------------------------------------
Subsets(K, k) == {S \in SUBSET K : Cardinality(S) = k}
AscSeq(S) == SetToSortSeq(S, <)
Sorted(vals) == SortSeq(vals, <)
\* sets all of whose beginnings (of two and more) are below the tolerance
Grown(Gs, K, k, tol, measure) ==
    {S \in Subsets(K, k) : LET q == AscSeq(S) IN \A m \in 2..k : Value(Gs, SubSeq(q, 1, m), measure) < tol}

\* ---- keeping the best of a stream of values, as every process does ----------------------------
Insert(best, v) == IF v >= best[Len(best)] THEN best ELSE SortSeq([best EXCEPT ![Len(best)] = v], <)
KeepBest(n, vs) == FoldLeft(Insert, [i \in 1..n |-> Huge], vs)
=============================================================================
