----------------------------- MODULE MC_Sampler -----------------------------
(* Processes evaluate their blocks in any order; results are put together   *)
(* by process ("rank") or, wrongly, as they arrive ("arrival").             *)
EXTENDS Sampler
CONSTANTS N, R, Gather
VARIABLES done, order
vars == <<done, order>>
m == [a |-> << <<1, 2>>, <<0, -1>> >>, b |-> <<3, 0>>]
X == [i \in 1..N |-> <<i, 2 * i - 3>>]
Lo(r) == ISum([q \in 1..(r - 1) |-> PartSize(N, R, q)])
Block(r) == [i \in 1..PartSize(N, R, r) |-> X[Lo(r) + i]]
Init == done = {} /\ order = <<>>
Next == \E r \in (1..R) \ done : done' = done \cup {r} /\ order' = Append(order, r)
Spec == Init /\ [][Next]_vars
Seen == FlattenSeq([k \in 1..Len(order) |-> Block(order[k])])
Put == IF Gather = "rank" THEN [k \in 1..R |-> k] ELSE order
Once == \A i \in 1..N : Count(Seen, X[i]) <= 1 /\ (done = 1..R => Count(Seen, X[i]) = 1)
Aligned == done = 1..R =>
    FlattenSeq([k \in 1..R |-> AllOf(m, Block(Put[k]), Y, 2)]) = AllOf(m, X, Y, 2)
Blocks == done = 1..R => SameBag(Seen, X)
\* the Jacobian is that of the model: its linear change over a small step
Slope == \A i \in 1..N : LET x == X[i] IN \A j \in 1..2, k \in 1..2 :
    Y(m, [x EXCEPT ![k] = @ + 1])[j] - Y(m, [x EXCEPT ![k] = @ - 1])[j] = 2 * J(m, x)[(j - 1) * 2 + k]
=============================================================================
