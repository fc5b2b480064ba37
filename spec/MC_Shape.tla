------------------------------ MODULE MC_Shape ------------------------------
(* All arrays of up to three axes of bounded length given to a set of one    *)
(* dimension: what is stored is always rows of that dimension, no entry is   *)
(* lost, invented or moved to another sample, and refusals change nothing.   *)
EXTENDS Shape
CONSTANTS Most, MaxDim, Depth, StoreFirst, Moves, Grids
VARIABLES dim, st, count, given, vs
vars == <<dim, st, count, given, vs>>
Lens == 1..Most
Shapes == {<<>>} \cup {<<n>> : n \in Lens} \cup {<<n, m>> : n, m \in Lens} \cup {<<n, m, 2>> : n, m \in 1..2}
NewArr(sh, from) == [sh |-> sh, v |-> [k \in 1..ShVol(sh) |-> from + k]]
Ops == {"set", "append", "set_local", "append_local", "domain", "ref"}
Init == /\ dim \in 1..MaxDim /\ st = NewSet /\ count = 0 /\ given = 0
        /\ vs \in IF Grids THEN UNION {[1..n -> {[k \in 1..m |-> 10 * m + k] : m \in 1..Most}] : n \in 1..3} ELSE {<<>>}
Give(what, sh) ==
    LET a == NewArr(sh, given)
        d == Store(st, what, a, dim)
        t == IF StoreFirst /\ ~d.ok /\ what = "set" /\ Len(sh) = 2 THEN [st EXCEPT !.whole = Transpose(a)] ELSE d.st
    IN /\ count < Depth /\ count' = count + 1 /\ given' = given + ShVol(sh)
       /\ st' = IF Moves /\ what = "append" /\ d.ok THEN [t EXCEPT !.whole.v = [k \in DOMAIN @ |-> @[Len(@) + 1 - k]]] ELSE t
       /\ UNCHANGED <<dim, vs>>
Next == \E what \in Ops : \E sh \in Shapes : Give(what, sh)
Spec == Init /\ [][Next]_vars
RowsOf(a) == a = Unset \/ (WellFormed(a) /\ Len(a.sh) = 2 /\ a.sh[2] = dim)
StoredAsRows == RowsOf(st.whole) /\ RowsOf(st.part) /\ (st.dom = Unset \/ st.dom.sh = <<dim, 2>>) /\ (st.ref = Unset \/ st.ref.sh = <<dim>>)
Entries(a) == {a.v[k] : k \in DOMAIN a.v}
NothingTwice == \A a \in {st.whole, st.part} : a # Unset => Cardinality(Entries(a)) = Len(a.v) /\ Entries(a) \subseteq 1..given
\* numbers were given in increasing order: along every coordinate the samples keep it
InOrder == st.whole # Unset => \A i, j \in 1..st.whole.sh[1] : i < j => \A c \in 1..dim : st.whole.v[(i - 1) * dim + c] < st.whole.v[(j - 1) * dim + c]
BagOfSeq(s) == [x \in {s[k] : k \in DOMAIN s} |-> Cardinality({k \in DOMAIN s : s[k] = x})]
\* conversions undo each other and agree where several apply
Laws == \A sh \in Shapes : LET a == NewArr(sh, 0) IN
            /\ Len(sh) = 2 => /\ Transpose(Transpose(a)) = a
                              /\ \A i \in 1..sh[1], j \in 1..sh[2] : Transpose(a).v[(j - 1) * sh[1] + i] = a.v[(i - 1) * sh[2] + j]
            /\ Samples(a, dim) # NoShape => /\ Samples(Samples(a, dim), dim) = Samples(a, dim)
                                            /\ BagOfSeq(Samples(a, dim).v) = BagOfSeq(a.v)
            /\ (Len(sh) = 2 /\ sh[1] # sh[2] /\ sh[2] = dim) => Samples(Transpose(a), dim) = a
            /\ Samples(Flattened(a), 1) = Column(Flattened(a)) /\ Flattened(Column(Flattened(a))) = Flattened(a)
            /\ Intervals(a) # NoShape => Intervals(a).sh[2] = 2 /\ Entries(Intervals(a)) = Entries(a)
RowAt(g, n, r) == [c \in 1..n |-> g.v[(r - 1) * n + c]]
RECURSIVE LexLess(_, _)
LexLess(x, y) == x # <<>> /\ (Head(x) < Head(y) \/ (Head(x) = Head(y) /\ LexLess(Tail(x), Tail(y))))
GridLaws == vs # <<>> => LET g == Grid(vs)  n == Len(vs)
                         IN /\ WellFormed(g)
                            /\ \A r \in 1..(g.sh[1] - 1) : LexLess(RowAt(g, n, r), RowAt(g, n, r + 1))
                            /\ \A r \in 1..g.sh[1] : \A c \in 1..n : \E k \in DOMAIN vs[c] : vs[c][k] = RowAt(g, n, r)[c]
=============================================================================
