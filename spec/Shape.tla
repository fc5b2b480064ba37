------------------------------- MODULE Shape --------------------------------
(* What data of a shape denote: arrays are [sh |-> shape, v |-> entries in   *)
(* row-major order], numbers have the empty shape.                           *)
EXTENDS Judge

RECURSIVE ShVol(_)
ShVol(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * ShVol(Tail(sh))
WellFormed(a) == Len(a.v) = ShVol(a.sh)
NoShape == [sh |-> <<-7>>, v |-> <<>>]

Transpose(a) == LET n == a.sh[1]  m == a.sh[2]
                IN [sh |-> <<m, n>>, v |-> [k \in 1..(n * m) |-> LET i == (k - 1) \div n  j == (k - 1) % n IN a.v[j * m + i + 1]]]
Flattened(a) == [sh |-> <<Len(a.v)>>, v |-> a.v]
Column(a) == IF Len(a.sh) <= 1 THEN [sh |-> <<Len(a.v), 1>>, v |-> a.v] ELSE a

\* samples of dimension dim: rows, or the one sample or the one coordinate of a flat list, or columns
Samples(a, dim) ==
    IF Len(a.sh) <= 1 THEN IF dim = 1 THEN Column(a) ELSE IF Len(a.v) = dim THEN [sh |-> <<1, dim>>, v |-> a.v] ELSE NoShape
    ELSE IF Len(a.sh) = 2 THEN IF a.sh[2] = dim THEN a ELSE IF a.sh[1] = dim THEN Transpose(a) ELSE NoShape
    ELSE NoShape
\* without a dimension: a list is one coordinate, a matrix is rows
AnySamples(a) == Column(a)
\* intervals: rows of two, or the two rows of ends
Intervals(a) == IF Len(a.sh) = 1 /\ a.sh[1] = 2 THEN [sh |-> <<1, 2>>, v |-> a.v]
                ELSE IF Len(a.sh) = 2 THEN IF a.sh[2] = 2 THEN a ELSE IF a.sh[1] = 2 THEN Transpose(a) ELSE NoShape
                ELSE NoShape

\* every combination of vectors, the last one varying fastest
RECURSIVE Stride(_, _)
Stride(vs, c) == IF c >= Len(vs) THEN 1 ELSE Len(vs[c + 1]) * Stride(vs, c + 1)
Grid(vs) == LET n == Len(vs)
                N == Stride(vs, 0)
            IN [sh |-> <<N, n>>, v |-> [k \in 1..(N * n) |-> LET r == (k - 1) \div n  c == ((k - 1) % n) + 1
                                                             IN vs[c][((r \div Stride(vs, c)) % Len(vs[c])) + 1]]]

\* entries: numbers, or the codes of no number, infinity and minus infinity
MinusInf == <<-1, 0>>
Largest == <<2, 0>>
Smallest == <<-2, 0>>
CleanEntry(x) == CASE x = NaN -> <<0, 1>> [] x = Inf -> Largest [] x = MinusInf -> Smallest [] OTHER -> x
Clean(a) == [a EXCEPT !.v = [k \in DOMAIN a.v |-> CleanEntry(a.v[k])]]

Stacked(a, b) == [sh |-> <<a.sh[1] + b.sh[1], a.sh[2]>>, v |-> a.v \o b.v]
-----------------------------------------------------------------------------
(* A set of samples: whole values, the distributed part, domain, reference.  *)
Unset == [sh |-> <<-1>>, v |-> <<>>]
NewSet == [whole |-> Unset, part |-> Unset, dom |-> Unset, ref |-> Unset]
\* [st, ok]
Store(st, what, a, dim) ==
    LET s == Samples(a, dim)
    IN CASE what = "set" -> IF s = NoShape THEN [st |-> st, ok |-> FALSE] ELSE [st |-> [st EXCEPT !.whole = s], ok |-> TRUE]
         [] what = "set_local" -> IF s = NoShape THEN [st |-> st, ok |-> FALSE] ELSE [st |-> [st EXCEPT !.part = s], ok |-> TRUE]
         [] what = "append" -> IF s = NoShape \/ st.whole = Unset THEN [st |-> st, ok |-> FALSE] ELSE [st |-> [st EXCEPT !.whole = Stacked(@, s)], ok |-> TRUE]
         [] what = "append_local" -> IF s = NoShape \/ st.part = Unset THEN [st |-> st, ok |-> FALSE] ELSE [st |-> [st EXCEPT !.part = Stacked(@, s)], ok |-> TRUE]
         [] what = "domain" -> IF a.sh = <<dim, 2>> THEN [st |-> [st EXCEPT !.dom = a], ok |-> TRUE] ELSE [st |-> st, ok |-> FALSE]
         [] what = "ref" -> IF a.sh = <<dim>> THEN [st |-> [st EXCEPT !.ref = a], ok |-> TRUE] ELSE [st |-> st, ok |-> FALSE]
         [] OTHER -> [st |-> st, ok |-> FALSE]
=============================================================================
