---------------------------- MODULE MC_SimpleFun ----------------------------
(* All small rectangles and bin counts: the three ways to name a rectangle  *)
(* agree, regular bins tile it, equal-mass points have equal mass.          *)
EXTENDS SimpleFun
CONSTANTS MaxC, MaxW

VARIABLES lo, w, c
vars == <<lo, w, c>>
Dims == 1..2
Init == /\ \E d \in Dims : lo \in [1..d -> -1..1] /\ w \in [1..d -> 1..MaxW] /\ c \in [1..d -> 1..MaxC]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

d == Len(lo)
Half(x) == Q(x, 2)
dom == RectDomain([i \in 1..d |-> Half(lo[i])], [i \in 1..d |-> Half(lo[i] + w[i])])
ref == [i \in 1..d |-> QAdd(Half(lo[i]), Q(w[i], 4))]
\* data whose extent is twice the width, so a scale of one half names the same rectangle
vals == << [i \in 1..d |-> QI(0)], [i \in 1..d |-> QI(w[i])], [i \in 1..d |-> Half(w[i])] >>
SameRect == /\ RectSize(ref, [i \in 1..d |-> Half(w[i])]) = dom
            /\ RectScaled(ref, [i \in 1..d |-> Half(1)], vals) = dom
B == GridBoxes(dom, c)
BoxVol(b) == QProd([i \in 1..d |-> QSub(b[2][i], b[1][i])])
Tiling == /\ Cardinality(B) = IProd(c)
          /\ QSumOver(B, BoxVol) = QProd([i \in 1..d |-> Half(w[i])])
          /\ \A b \in B : BoxVol(b) = QDiv(QProd([i \in 1..d |-> Half(w[i])]), QI(IProd(c)))
          /\ \A a, b \in B : a # b => ~InRect([i \in 1..d |-> QDiv(QAdd(a[1][i], a[2][i]), QI(2))], b[1], b[2])
SumOne == QSum(RegularProb(IProd(c))) = One
\* the quadrature of a uniform distribution gives equal bins their equal mass
Cells1(n) == [k \in 1..n |-> <<100 * (2 * k - 1)>>]
ASSUME \A n \in 1..4 :
    LET m == QuadMass(Cells1(n), Tensor(<<UniformLine(0, 200 * n, 200)>>))
    IN \A k \in 1..n : IAbs(m[k] - 10000 \div n) <= 100
\* and symmetric cells of a normal one the same
ASSUME \A n \in 1..2 :
    LET m == QuadMass(<<[i \in 1..n |-> -100], [i \in 1..n |-> 100]>>, Tensor([i \in 1..n |-> NormalLine(0, 500, n)]))
    IN IAbs(m[1] - 5000) <= 260 /\ m[1] + m[2] = 10000
=============================================================================
