------------------------------ MODULE Sampling ------------------------------
(* Sampling designs: how many samples each process and each cluster gets,   *)
(* where grid, Latin and ball samples lie.                                  *)
EXTENDS Measure

\* numbers per cluster of weights w (rationals): any that sum to n, each next to w n
CountsOk(cnt, w, n) ==
    /\ ISum(cnt) = n
    /\ \A i \in DOMAIN w : LET x == QMul(w[i], QI(n)) IN QLeq(QAbs(QSub(QI(cnt[i]), x)), One)
\* one way to get them: round the cumulated weights
RoundHalf(q) == (2 * q[1] + q[2]) \div (2 * q[2])
Cumul(w, i) == QSum(SubSeq(w, 1, i))
ByCumulation(w, n) == [i \in DOMAIN w |-> RoundHalf(QMul(Cumul(w, i), QI(n))) - RoundHalf(QMul(Cumul(w, i - 1), QI(n)))]
Separately(w, n) == [i \in DOMAIN w |-> RoundHalf(QMul(w[i], QI(n)))]

\* ---- regular grids: bin centres, first dimension slowest -------------------------
BinCentre(dom, n, k) == QAdd(dom[1], QMul(QSub(dom[2], dom[1]), Q(2 * k - 1, 2 * n)))
RECURSIVE GridPoints(_, _)
GridPoints(dom, n) ==
    IF dom = <<>> THEN << <<>> >>
    ELSE LET rest == TLCEval(GridPoints(Tail(dom), Tail(n)))
             m == Len(rest)
         IN TLCEval([k \in 1..(Head(n) * m) |-> <<BinCentre(Head(dom), Head(n), ((k - 1) \div m) + 1)>> \o rest[((k - 1) % m) + 1]])

\* ---- Latin hypercubes: x holds n (v - lo) / width in thousandths -------------------
Sorted(x) == SortSeq(x, LAMBDA a, b : a < b)
Latin(x) == LET s == TLCEval(Sorted(x)) IN \A k \in DOMAIN s : s[k] >= 1000 * (k - 1) - 2 /\ s[k] <= 1000 * k + 2
Centred(x) == LET s == TLCEval(Sorted(x)) IN \A k \in DOMAIN s : IAbs(s[k] - 1000 * k + 500) <= 2
=============================================================================
