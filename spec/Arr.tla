-------------------------------- MODULE Arr --------------------------------
(* Arrays as the projection of the implementation delivers them:            *)
(*   [sh |-> shape, v |-> flat row-major sequence]; None has shape <<-1>>.  *)
EXTENDS Rat

None == [sh |-> <<-1>>, v |-> <<>>]
IsNone(a) == a.sh = <<-1>>
IsArr(a) == Len(a.sh) = 0 \/ a.sh[1] >= 0
Vec(s) == [sh |-> <<Len(s)>>, v |-> s]
Mat(rows, d) == [sh |-> <<Len(rows), d>>, v |-> FlattenSeq(rows)]
IsVec(a, n) == a.sh = <<n>> /\ Len(a.v) = n
IsMat(a, n, d) == a.sh = <<n, d>> /\ Len(a.v) = n * d

Num(a) == a.sh[1]                                         \* length of axis 0
RowSize(a) == IProd(Tail(a.sh))
Row(a, i) == SubSeq(a.v, (i - 1) * RowSize(a) + 1, i * RowSize(a))
Rows(a) == TLCEval([i \in 1..Num(a) |-> Row(a, i)])
\* rows from..to (1-based, inclusive; empty when to < from)
SliceRows(a, from, to) ==
    LET n == IMax(0, to - from + 1)
    IN [sh |-> <<n>> \o Tail(a.sh),
        v  |-> IF n = 0 THEN <<>> ELSE SubSeq(a.v, (from - 1) * RowSize(a) + 1, to * RowSize(a))]
ConcatRows(a, b) == [sh |-> <<Num(a) + Num(b)>> \o Tail(a.sh), v |-> a.v \o b.v]
ConcatAll(as) == FoldLeft(ConcatRows, Head(as), Tail(as))
MapArr(a, f(_)) == [sh |-> a.sh, v |-> TLCEval([i \in 1..Len(a.v) |-> f(a.v[i])])]
=============================================================================
