---------------------------- MODULE MC_Surrogate ----------------------------
(* Interpolants of affine and quadratic models on a line: exact at training *)
(* samples, exact everywhere for affine models of order one.                *)
EXTENDS Surrogate
CONSTANTS Away, Grid                    \* Away: displacement taken the wrong way
VARIABLES a, b, S, x
vars == <<a, b, S, x>>
Init == a \in -2..2 /\ b \in -1..1 /\ S \in {T \in SUBSET (0..Grid) : Cardinality(T) \in 1..3} /\ x \in 0..(4 * Grid)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* y = a x + b x^2
F(v) == QAdd(QMul(QI(a), v), QMul(QI(b), QSq(v)))
Tr == LET s == SetToSortSeq(S, <) IN TLCEval(
      [x |-> [i \in DOMAIN s |-> <<QI(s[i])>>], y |-> [i \in DOMAIN s |-> <<F(QI(s[i]))>>],
       jac |-> [i \in DOMAIN s |-> <<QI((IF Away THEN -1 ELSE 1) * (a + 2 * b * s[i]))>>], p |-> "2"])
X == <<Q(x, 4)>>
own == TrOwn(Tr, <<X>>)[1]
Exact0 == (x % 4 = 0 /\ (x \div 4) \in S) => Taylor(Tr, own, X, 0) = <<F(X[1])>> /\ Taylor(Tr, own, X, 1) = <<F(X[1])>>
Exact1 == b = 0 => Taylor(Tr, own, X, 1) = <<F(X[1])>>
\* second order otherwise
Order2 == QAbs(QSub(Taylor(Tr, own, X, 1)[1], F(X[1]))) = QMul(QI(IAbs(b)), QSq(QSub(X[1], Tr.x[own + 1][1])))
=============================================================================
