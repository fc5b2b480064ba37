----------------------------- MODULE MC_OptQoI ------------------------------
(* (1) processes keep the best of their blocks and the root merges: the     *)
(* smallest values over all sets, whatever the split; (2) laws of skewness  *)
(* of two centres with small vectors of two inputs.                         *)
EXTENDS OptQoI
CONSTANTS N, Keep, R, Merge          \* Merge: "all", "distinct" (equal values kept once)
VARIABLES vs, cut, G
vars == <<vs, cut, G>>
Vecs == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, -1>>, <<0, 0>>}
Init == /\ vs \in [1..N -> 1..3] /\ cut = <<>> /\ G = <<>>
Next == /\ cut = <<>> /\ UNCHANGED vs
        /\ \E c \in {x \in [1..(R + 1) -> 0..N] : x[1] = 0 /\ x[R + 1] = N /\ \A i \in 1..R : x[i] <= x[i + 1]} : cut' = c
        /\ IF \A i \in 1..N : vs[i] = 1 THEN G' \in [1..3 -> Vecs] ELSE G' = <<>>
Spec == Init /\ [][Next]_vars
All == Sorted(vs)
Blocks == [r \in 1..R |-> KeepBest(Keep, SubSeq(vs, cut[r] + 1, cut[r + 1]))]
Joined == FlattenSeq(Blocks)
Merged == LET j == IF Merge = "all" THEN Sorted(Joined) ELSE SetToSortSeq(Range(Joined), <) IN SubSeq(j, 1, IMin(Keep, Len(j)))
Smallest == cut = <<>> \/ Merged = [i \in 1..Keep |-> IF i <= N THEN All[i] ELSE Huge]
\* skewness: one iff orthogonal, infinite iff degenerate, and it does not shrink when a quantity is added
Skew == G = <<>> \/ \A i, j \in 1..3 : i # j =>
          LET s == SkewAt(G, <<i, j>>) IN s >= 999 /\ (s >= Huge <=> Vol2(G, <<i, j>>) = 0) /\ (s < Huge => (s <= 1001 <=> IDot(G[i], G[j]) = 0))
Grows == G = <<>> \/ \A i, j \in 1..3 : i # j => SkewAt(G, <<i>>) <= SkewAt(G, <<i, j>>) + 1
=============================================================================
