-------------------------------- MODULE Comm --------------------------------
(* What the collective operations the package uses answer on R processes.   *)
(* Contributions c[r]: what process r passes: sequences of integers (the    *)
(* contents of an object or of a buffer); for a scatter of objects a        *)
(* sequence of them.  Answers are sequences of sequences of integers.       *)
EXTENDS Judge

Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Greatest(a, b) == [i \in DOMAIN a |-> IMax(a[i], b[i])]
Least(a, b) == [i \in DOMAIN a |-> IMin(a[i], b[i])]
Reduce(red, c) == FoldLeft(LAMBDA a, b : CASE red = "SUM" -> Add(a, b) [] red = "MAX" -> Greatest(a, b) [] OTHER -> Least(a, b), Head(c), Tail(c))
Cut(s, R, r) == LET k == Len(s) \div R IN SubSeq(s, (r - 1) * k + 1, r * k)
\* [ret |-> what is returned, buf |-> what the receive buffer holds] of process r
Answer(kind, root, red, c, r) ==
    LET R == Len(c)
        none == <<>>
    IN CASE kind = "allgather" -> [ret |-> c, buf |-> none]
         [] kind = "gather" -> [ret |-> IF r = root THEN c ELSE none, buf |-> none]
         [] kind = "allreduce" -> [ret |-> <<Reduce(red, c)>>, buf |-> none]
         [] kind = "bcast" -> [ret |-> <<c[root]>>, buf |-> none]
         [] kind = "scatter" -> [ret |-> <<Cut(c[root], R, r)>>, buf |-> none]
         [] kind = "Allgather" -> [ret |-> none, buf |-> <<FoldLeft(LAMBDA a, b : a \o b, <<>>, c)>>]
         [] kind = "Allreduce" -> [ret |-> none, buf |-> <<Reduce(red, c)>>]
         [] kind = "Bcast" -> [ret |-> none, buf |-> <<c[root]>>]
         [] kind = "Scatter" -> [ret |-> none, buf |-> <<Cut(c[root], R, r)>>]
         [] OTHER -> [ret |-> none, buf |-> none]
IsBuffer(kind) == kind \in {"Allgather", "Allreduce", "Bcast", "Scatter"}
\* a single process
OneProcess(kind, c) == IF IsBuffer(kind) THEN <<c>> ELSE IF kind \in {"barrier", "Barrier"} THEN <<>> ELSE <<c>>
=============================================================================
