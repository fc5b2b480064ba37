-------------------------------- MODULE Dist --------------------------------
(* How an array of n rows is distributed over R processes: contiguous       *)
(* blocks in rank order, the first (n mod R) of them one row longer.        *)
EXTENDS Arr

PartSize(n, R, r) == (n \div R) + (IF r <= n % R THEN 1 ELSE 0)          \* r in 1..R
PartFrom(n, R, r) == (r - 1) * (n \div R) + IMin(r - 1, n % R) + 1
PartTo(n, R, r)   == PartFrom(n, R, r) + PartSize(n, R, r) - 1
Part(a, R, r)     == SliceRows(a, PartFrom(Num(a), R, r), PartTo(Num(a), R, r))
\* pieces of given sizes
SplitAt(a, sz)    == [r \in DOMAIN sz |->
                        LET from == FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(sz, 1, r - 1))
                        IN SliceRows(a, from + 1, from + sz[r])]
Split(a, R)       == [r \in 1..R |-> Part(a, R, r)]
LocalIndex(n, R, r) == Vec([i \in 1..PartSize(n, R, r) |-> <<PartFrom(n, R, r) + i - 2, 1>>])
=============================================================================
