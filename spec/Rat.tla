-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on pairs <<n, d>>, d > 0, reduced.             *)
(* Special values: NaN <<0,0>>, +inf <<1,0>>, -inf <<-1,0>>, and            *)
(* <<0,-1>> for an implementation value that is no small rational: it never *)
(* equals a value the specification computes.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

IAbs(x) == IF x < 0 THEN -x ELSE x
IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

NaN   == <<0, 0>>
Inf   == <<1, 0>>
NInf  == <<-1, 0>>
Unrep == <<0, -1>>
IsFin(q) == q[2] > 0

Q(n, d) == IF n = 0 THEN <<0, 1>>
           ELSE LET g == GCD(IAbs(n), IAbs(d))
                IN IF d < 0 THEN <<(-n) \div g, (-d) \div g>>
                            ELSE <<n \div g, d \div g>>
Zero == <<0, 1>>
One  == <<1, 1>>
QI(n) == <<n, 1>>

QAdd(a, b) == IF a[2] = b[2] THEN (IF a[2] = 1 THEN <<a[1] + b[1], 1>> ELSE Q(a[1] + b[1], a[2]))
              ELSE LET g == GCD(a[2], b[2])
                   IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero
              ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
              ELSE LET g1 == GCD(IAbs(a[1]), b[2])
                       g2 == GCD(IAbs(b[1]), a[2])
                   IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
QInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QAbs(a) == <<IAbs(a[1]), a[2]>>
QSq(a) == <<a[1] * a[1], a[2] * a[2]>>

\* order, also for the infinities (not for NaN)
QLess(a, b) == IF a[2] > 0 /\ b[2] > 0
               THEN IF a[2] = b[2] THEN a[1] < b[1] ELSE a[1] * b[2] < b[1] * a[2]
               ELSE IF a = b THEN FALSE
               ELSE a = NInf \/ b = Inf
QLeq(a, b) == a = b \/ QLess(a, b)
QMin(a, b) == IF QLess(b, a) THEN b ELSE a
QMax(a, b) == IF QLess(a, b) THEN b ELSE a

QSum(s) == FoldLeft(QAdd, Zero, s)                       \* of a sequence
QSumOver(S, f(_)) == FoldLeft(LAMBDA acc, x : QAdd(acc, f(x)), Zero, SetToSeq(S))
ISum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ISumOver(S, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, SetToSeq(S))
QMaxSeq(s) == FoldLeft(QMax, Head(s), Tail(s))
QMinSeq(s) == FoldLeft(QMin, Head(s), Tail(s))
QProd(s) == FoldLeft(QMul, One, s)
IProd(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

\* floor(q * scale): comparison of rationals with fixed point numbers
QFix(q, scale) == LET w == q[1] \div q[2] IN w * scale + ((q[1] - w * q[2]) * scale) \div q[2]
=============================================================================
