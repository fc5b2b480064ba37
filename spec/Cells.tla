-------------------------------- MODULE Cells -------------------------------
(* Partitions of a space into cells and who owns a point.                   *)
(* A partition is a record                                                  *)
(*   [kind |-> "vor",  p |-> "1"|"2"|"inf", vals |-> rows]                  *)
(*   [kind |-> "rect", left |-> rows, right |-> rows]      (+ outside cell) *)
(*   [kind |-> "ball", p |-> .., vals |-> rows, rad |-> q] (+ outside cell) *)
(* Cells are numbered from 0, as in the implementation; the outside cell is *)
(* the last one.                                                            *)
EXTENDS Dist

\* p-norm distance of two points, as its p-th power (p finite) or itself (inf)
DistP(p, x, y) ==
    IF p = "1" THEN QSum([i \in DOMAIN x |-> QAbs(QSub(x[i], y[i]))])
    ELSE IF p = "2" THEN QSum([i \in DOMAIN x |-> QSq(QSub(x[i], y[i]))])
    ELSE FoldLeft(QMax, Zero, [i \in DOMAIN x |-> QAbs(QSub(x[i], y[i]))])
RadP(p, r) == IF p = "2" THEN QSq(r) ELSE r

NumCells(P) == IF P.kind = "vor" THEN Len(P.vals)
               ELSE IF P.kind = "rect" THEN Len(P.left) + 1 ELSE Len(P.vals) + 1

InRect(x, l, r) == \A i \in DOMAIN x : QLess(l[i], x[i]) /\ QLeq(x[i], r[i])
InBall(P, x, i) == QLess(DistP(P.p, x, P.vals[i]), RadP(P.p, P.rad[i]))

\* the shapes that contain x, in index order (rect and ball partitions)
Containing(P, x) ==
    LET n == NumCells(P) - 1
    IN SelectSeq([i \in 1..n |-> i],
                 LAMBDA i : IF P.kind = "rect" THEN InRect(x, P.left[i], P.right[i])
                                               ELSE InBall(P, x, i))

\* the set of cells that may own x: singleton except for Voronoi ties
Owners(P, x) ==
    IF P.kind = "vor"
    THEN LET D == TLCEval([i \in 1..Len(P.vals) |-> DistP(P.p, x, P.vals[i])])
             m == QMinSeq(D)
         IN {i - 1 : i \in {j \in DOMAIN D : D[j] = m}}
    ELSE LET c == Containing(P, x)
         IN IF c = <<>> THEN {NumCells(P) - 1} ELSE {Head(c) - 1}
Owner(P, x) == CHOOSE o \in Owners(P, x) : TRUE
OwnerSeq(P, xs) == TLCEval([i \in DOMAIN xs |-> Owner(P, xs[i])])

\* a k-nearest answer: ptr is a sequence of k cell numbers
KNearestOk(P, x, ptr) ==
    LET D == TLCEval([i \in 1..Len(P.vals) |-> DistP(P.p, x, P.vals[i])])
        k == Len(ptr)
    IN /\ \A j \in 1..k : ptr[j] \in 0..(Len(P.vals) - 1)
       /\ Cardinality({ptr[j] : j \in 1..k}) = k
       /\ \A j \in 1..(k - 1) : QLeq(D[ptr[j] + 1], D[ptr[j + 1] + 1])
       /\ \A i \in 1..Len(P.vals) :
             (i - 1) \notin {ptr[j] : j \in 1..k} => QLeq(D[ptr[k] + 1], D[i])
\* what a k-query on rectangles or balls answers: first k containing, then outside
KContaining(P, x, k) ==
    LET c == Containing(P, x)
    IN [j \in 1..k |-> IF j <= Len(c) THEN c[j] - 1 ELSE NumCells(P) - 1]
=============================================================================
