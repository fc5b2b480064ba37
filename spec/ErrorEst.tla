------------------------------ MODULE ErrorEst ------------------------------
(* A posteriori error estimates of a computed inverse measure: adjacency of *)
(* cells, inner and outer sets of output bins, sampling error bounds, and   *)
(* the change of measure by output errors.  Samples have integer coordinates.*)
EXTENDS Measure

\* ---- adjacency -------------------------------------------------------------------
Det2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == a[1] * Det2(<<b[2], b[3]>>, <<c[2], c[3]>>) - a[2] * Det2(<<b[1], b[3]>>, <<c[1], c[3]>>)
                 + a[3] * Det2(<<b[1], b[2]>>, <<c[1], c[2]>>)
Det4(m) == m[1][1] * Det3(<<m[2][2], m[2][3], m[2][4]>>, <<m[3][2], m[3][3], m[3][4]>>, <<m[4][2], m[4][3], m[4][4]>>)
           - m[1][2] * Det3(<<m[2][1], m[2][3], m[2][4]>>, <<m[3][1], m[3][3], m[3][4]>>, <<m[4][1], m[4][3], m[4][4]>>)
           + m[1][3] * Det3(<<m[2][1], m[2][2], m[2][4]>>, <<m[3][1], m[3][2], m[3][4]>>, <<m[4][1], m[4][2], m[4][4]>>)
           - m[1][4] * Det3(<<m[2][1], m[2][2], m[2][3]>>, <<m[3][1], m[3][2], m[3][3]>>, <<m[4][1], m[4][2], m[4][3]>>)
Diff(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Lift(d) == Append(d, ISum([k \in DOMAIN d |-> d[k] * d[k]]))
\* does the circle (sphere) through the corners contain x; 0 on it
Orient(c) == IF Len(c) = 3 THEN Det2(Diff(c[2], c[1]), Diff(c[3], c[1]))
             ELSE Det3(Diff(c[2], c[1]), Diff(c[3], c[1]), Diff(c[4], c[1]))
InCircle(c, x) ==
    IF Len(c) = 3 THEN Det3(Lift(Diff(c[1], x)), Lift(Diff(c[2], x)), Lift(Diff(c[3], x))) * (IF Orient(c) > 0 THEN 1 ELSE -1)
    ELSE Det4(<<Lift(Diff(c[1], x)), Lift(Diff(c[2], x)), Lift(Diff(c[3], x)), Lift(Diff(c[4], x))>>) * (IF Orient(c) > 0 THEN -1 ELSE 1)
\* sets of dim + 1 samples whose circle holds no other sample
Simplices(x) ==
    LET d == Len(x[1])
        S == TLCEval({T \in SUBSET DOMAIN x : Cardinality(T) = d + 1})
    IN TLCEval({T \in S : LET c == TLCEval([k \in 1..(d + 1) |-> x[SetToSortSeq(T, <)[k]]])
                          IN Orient(c) # 0 /\ \A i \in DOMAIN x \ T : InCircle(c, x[i]) < 0})
Neighbours(x) ==
    IF Len(x[1]) = 1
    THEN TLCEval([i \in DOMAIN x |-> {j \in DOMAIN x \ {i} :
            ~\E k \in DOMAIN x \ {i, j} : (x[i][1] < x[k][1]) = (x[k][1] < x[j][1])}])
    ELSE LET S == TLCEval(Simplices(x)) IN TLCEval([i \in DOMAIN x |-> UNION {T \in S : i \in T} \ {i}])
NextBins(x, io) == LET n == TLCEval(Neighbours(x)) IN TLCEval([i \in DOMAIN x |-> {io[j] : j \in n[i]}])
Inner(nb, io, b) == {i \in DOMAIN io : io[i] = b /\ nb[i] = {b}}
Outer(nb, io, b) == {i \in DOMAIN io : b \in nb[i]}

\* ---- sampling error: <<upper, lower>>, NaN where undefined ----------------------------
Ratio(a, b) == IF b = Zero THEN NaN ELSE QDiv(a, b)
Bounds(p, t1, t2) == IF NaN \in {t1, t2} THEN <<NaN, NaN>> ELSE <<QMul(p, QMax(t1, t2)), QMul(p, QMin(t1, t2))>>
ContourBounds(nb, io, vol, p, b) ==
    LET V(S) == QSumOver(S, LAMBDA i : vol[i])
        B == Inner(nb, io, b)
        C == Outer(nb, io, b)
        A == Preimage(io, b)
        t1 == Ratio(V(B), V(C))
        t2 == Ratio(V(C \cap A), V(B))
    IN IF p = Zero THEN <<Zero, Zero>>
       ELSE IF NaN \in {t1, t2} THEN <<NaN, NaN>>
       ELSE Bounds(p, QSub(t1, One), QSub(t2, One))
\* region: points e with cell own[e] and inA[e]
RegionTerm(nb, io, own, inA, p, b) ==
    LET Cnt(S) == QI(Cardinality(S))
        In(S) == {e \in DOMAIN own : (own[e] + 1) \in S}
        AA == {e \in DOMAIN own : inA[e]}
        Ai == In(Preimage(io, b))
        Bi == In(Inner(nb, io, b))
        Ci == In(Outer(nb, io, b))
        E == Ratio(Cnt(AA \cap Ai), Cnt(Ai))
        t1 == Ratio(Cnt(AA \cap Bi), Cnt(Ci))
        t2 == Ratio(Cnt(AA \cap Ci), Cnt(Bi))
    IN IF NaN \in {E, t1, t2} THEN <<NaN, NaN>> ELSE Bounds(p, QSub(t1, E), QSub(t2, E))
RegionBounds(nb, io, own, inA, p) ==
    LET t == TLCEval([b \in {c \in 0..(Len(p) - 1) : p[c + 1] # Zero} |-> RegionTerm(nb, io, own, inA, p[b + 1], b)])
    IN IF \E b \in DOMAIN t : t[b][1] = NaN THEN <<NaN, NaN>>
       ELSE <<QSumOver(DOMAIN t, LAMBDA b : t[b][1]), QSumOver(DOMAIN t, LAMBDA b : t[b][2])>>

\* ---- model error ------------------------------------------------------------------------
\* weights w of the cells (volumes or numbers of points), those in the region wA
ModelTerm(io, ion, w, wA, p, b) ==
    LET S(v, f) == QSumOver({i \in DOMAIN io : f[i] = b}, LAMBDA i : v[i])
        r1 == Ratio(S(wA, io), S(w, io))
        r2 == Ratio(S(wA, ion), S(w, ion))
    IN IF NaN \in {r1, r2} THEN NaN ELSE QMul(p, QSub(r1, r2))
ModelError(io, ion, w, wA, p) ==
    LET t == TLCEval([b \in {c \in 0..(Len(p) - 1) : p[c + 1] # Zero} |-> ModelTerm(io, ion, w, wA, p[b + 1], b)])
    IN IF \E b \in DOMAIN t : t[b] = NaN THEN NaN ELSE QSumOver(DOMAIN t, LAMBDA b : t[b])
\* of a contour event: the region is the bin's own preimage
ModelContour(io, ion, vol, p, b) ==
    IF p = Zero THEN Zero
    ELSE ModelTerm(io, ion, vol, [i \in DOMAIN vol |-> IF io[i] = b THEN vol[i] ELSE Zero], p, b)
\* number of points in each cell
PerCell(n, own, S) == TLCEval([i \in 1..n |-> QI(Cardinality({e \in S : own[e] = i - 1}))])
=============================================================================
