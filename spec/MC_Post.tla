------------------------------- MODULE MC_Post ------------------------------
(* The selection by repeated taking of the densest sample is a Selection;   *)
(* one- and two-dimensional histograms agree.                               *)
EXTENDS Post
CONSTANTS N, Step                   \* Step: how the end is found ("sum": first that would exceed; "one": one less)
VARIABLES p, v, x, pct, low
vars == <<p, v, x, pct, low>>
Init == /\ p \in [1..N -> 0..2] /\ v \in [1..N -> 1..2] /\ x = <<>> /\ pct = 0 /\ low = FALSE
Next == /\ x = <<>> /\ UNCHANGED <<p, v>> /\ pct' \in 0..(2 * N) /\ low' \in BOOLEAN
        /\ x' \in {f \in [1..N -> {-1, 0, 1, 2, 4} \X {0, 4}] : \A i \in 1..N : f[i][2] = 4 * (i % 2) /\ (i > 2 => f[i][1] = 2)}
Spec == Init /\ [][Next]_vars
P == [i \in 1..N |-> QI(p[i])]
V == [i \in 1..N |-> QI(v[i])]
RECURSIVE Take(_, _)
Take(s, rest) ==
    LET D(i) == DensOf(P, V, TRUE, i)
        c == CHOOSE c \in rest : \A b \in rest : IF low THEN QLeq(D(c), D(b)) ELSE QLeq(D(b), D(c))
    IN IF rest = {} \/ QLess(QI(pct), QAdd(Total(P, s), P[c])) THEN s ELSE Take(Append(s, c), rest \ {c})
Taken == LET s == Take(<<>>, Positive(P)) IN IF Step = "one" /\ Len(s) > 0 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Selects == x = <<>> \/ Selection(P, V, TRUE, low, QI(pct), Taken)
Whole == x = <<>> \/ (pct = 2 * N => Range(Taken) = Positive(P)) \/ Step = "one"
\* [0, 4] x [0, 4] in two and four bins
XB == [i \in 1..N |-> BinOf(Zero, QI(4), 2, QI(x[i][1]))]
YB == [i \in 1..N |-> BinOf(Zero, QI(4), 4, QI(x[i][2]))]
Histograms == x = <<>> \/
    LET h2 == Hist2(P, XB, YB, 2, 4)
        h1 == Hist1(P, XB, 2)
    IN /\ \A a \in 1..2 : QSum(SubSeq(h2, (a - 1) * 4 + 1, a * 4)) = h1[a]
       /\ QSum(h1) = QSumOver({i \in 1..N : x[i][1] \in 0..4}, LAMBDA i : P[i])
=============================================================================
