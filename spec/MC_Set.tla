------------------------------- MODULE MC_Set -------------------------------
(* Histories of operations on sample sets, explored exhaustively within the *)
(* bounds. Every transition is printed with its history (hidden from the    *)
(* state by VIEW) and replayed on the implementation.                       *)
EXTENDS SampleSet, Json
CONSTANTS Kind, Depth, MaxR

VARIABLES S, R, hist, last
vars == <<S, R, hist, last>>
view == <<S, R, last>>

\* small concrete arrays, all entries distinct so that any mixing shows
Num1(n, base) == Vec([k \in 1..n |-> Q(2 * k + base, 4)])
Val(n, base) == [sh |-> <<n, 1>>, v |-> [k \in 1..n |-> Q(2 * k + base, 4)]]
Jac(n, base) == [sh |-> <<n, 2, 1>>, v |-> [k \in 1..(2 * n) |-> QI(k + base)]]
Arr(f, n, base) == IF f \in {"values", "error_estimates", "left", "right"} THEN Val(n, base)
                   ELSE IF f = "jacobians" THEN Jac(n, base) ELSE Num1(n, base)
\* pieces of a locally held array: sizes is a function of the rank
Pieces(f, sizes, base) ==
    LET tot == ISum(sizes)
        a == Arr(f, tot, base)
        from(r) == ISum([q \in 1..(r - 1) |-> sizes[q]]) + 1
    IN [r \in 1..Len(sizes) |-> SliceRows(a, from(r), from(r) + sizes[r] - 1)]
Sizes == IF R = 1 THEN {<<2>>} ELSE IF R = 2 THEN {<<0, 2>>, <<2, 1>>} ELSE {<<0, 2, 1>>, <<1, 0, 0>>}

Op(do, a) == [do |-> do, a |-> a, R |-> R]
OSet(a, f, n, b) == [do |-> "set", a |-> a, f |-> f, x |-> Arr(f, n, b), R |-> R]
OSetl(a, f, sz, b) == [do |-> "setl", a |-> a, f |-> f, xs |-> Pieces(f, sz, b), R |-> R]
ODom(a, lo, hi) == [do |-> "dom", a |-> a, x |-> [sh |-> <<1, 2>>, v |-> <<lo, hi>>], R |-> R]
ORef(a, q) == [do |-> "ref", a |-> a, x |-> Vec(<<q>>), R |-> R]
OApp(a, f, n, b) == [do |-> "app", a |-> a, f |-> f, x |-> Arr(f, n, b), R |-> R]
OAppl(a, f, sz, b) == [do |-> "appl", a |-> a, f |-> f, xs |-> Pieces(f, sz, b), R |-> R]
OTo(do, a, b) == [do |-> do, a |-> a, b |-> b, R |-> R]
OClip(a, b, n) == [do |-> "clip", a |-> a, b |-> b, n |-> n, R |-> R]
New(a, d) == [do |-> "new", a |-> a, dim |-> d, cls |-> "sample_set", R |-> R]
Has(a) == a <= Len(S)
HasV(a) == Has(a) /\ ~IsNone(S[a].g["values"])
HasVl(a) == Has(a) /\ ~IsNone(S[a].l[1]["values"])
HasG(a, f) == Has(a) /\ ~IsNone(S[a].g[f])

DistOps ==
    {OSet(1, f, n, 0) : f \in {"values", "volumes"}, n \in {2, 3}} \cup {OSet(1, "jacobians", 3, 0)}
    \cup {OSetl(1, f, sz, 40) : f \in {"values", "probabilities"}, sz \in Sizes}
    \cup {Op("g2l", 1), Op("l2g", 1), Op("num", 1)}
EditOps ==
    (IF HasV(1) THEN {OApp(1, "values", 1, 60), OSet(1, "values", 2, 80), OTo("copy", 1, 2)}
                     \cup {OClip(1, 2, n) : n \in {0, 1, 2, 5}} ELSE {})
    \cup (IF HasG(1, "jacobians") THEN {OApp(1, "jacobians", 1, 60)} ELSE {})
    \cup (IF HasG(1, "error_estimates") THEN {OApp(1, "error_estimates", 1, 60)} ELSE {})
    \cup (IF HasVl(1) THEN {OAppl(1, "values", CHOOSE s \in Sizes : TRUE, 90)} ELSE {})
    \cup (IF Has(2) THEN {OSet(2, "volumes", 1, 20)} ELSE {})
    \cup {Op("g2l", 1), Op("l2g", 1)}
NormOps ==
    (IF IsNone(S[1].domo) THEN {Op("norm", 1)} ELSE {}) \cup {Op("undo", 1), Op("g2l", 1), Op("l2g", 1)}
    \cup (IF IsNone(S[1].domo) THEN {ODom(1, QI(-1), QI(3)), ODom(1, Q(1, 2), QI(1)), ORef(1, Q(3, 4)),
                                     OSet(1, "jacobians", 2, 0), OSet(1, "left", 2, 0)} ELSE {})
    \cup {OSet(1, "values", 2, 5)}
EqOps ==
    {OSet(a, f, n, 0) : a \in {1, 2}, f \in {"values", "volumes"}, n \in {1, 2}}
    \cup {OSet(a, "volumes", 2, 1) : a \in {1, 2}}
    \cup {OTo("eq", 1, 2), OTo("copy", 1, 2), ODom(1, QI(0), QI(1)), Op("g2l", 2), OSetl(1, "values", [r \in 1..R |-> 2], 0)}
Ops == CASE Kind = "dist" -> DistOps [] Kind = "edit" -> EditOps [] Kind = "norm" -> NormOps [] OTHER -> EqOps

Setup == CASE Kind = "dist" -> {<<New(1, 1)>>}
           [] Kind = "edit" -> {<<New(1, 1), OSet(1, "values", 3, 0)>>,
                                <<New(1, 1), OSet(1, "values", 3, 0), OSet(1, "jacobians", 3, 7), OSet(1, "volumes", 3, 3), Op("g2l", 1)>>,
                                <<New(1, 1), OSet(1, "values", 2, 0), OSet(1, "error_estimates", 2, 5)>>,
                                <<New(1, 1), OSetl(1, "values", CHOOSE s \in Sizes : TRUE, 0),
                                  OSetl(1, "volumes", CHOOSE s \in Sizes : TRUE, 9)>>}
           [] Kind = "norm" -> {<<New(1, 1), OSet(1, "values", 2, 0)>>}
           [] OTHER -> {<<New(1, 1), New(2, 1)>>}

ApplyAll(ops) == FoldLeft(LAMBDA acc, o : SetApply(acc, o).S, <<>>, ops)
Eff(st, o) == IF o.do = "eq" THEN st ELSE SetApply(st, o).S

Init == /\ R \in 1..MaxR
        /\ \E h \in Setup : hist = h /\ S = ApplyAll(h)
        /\ last = [do |-> "init", pre |-> <<>>]
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops :
              /\ S' = TLCEval(Eff(S, o))
              /\ hist' = Append(hist, o)
              /\ last' = [do |-> IF Kind = "eq" THEN "any" ELSE o.do, pre |-> IF o.do \in {"g2l", "l2g", "clip", "norm", "undo", "copy"} THEN S ELSE <<>>]
              /\ PrintT("EDGE " \o ToJson([R |-> R, ops |-> hist']))
        /\ UNCHANGED R
Spec == Init /\ [][Next]_vars

\* ---- what the design guarantees -----------------------------------------
\* blocks are consecutive, disjoint, cover everything, sizes differ by <= 1
Blocks == last.do = "g2l" /\ NumOk(last.pre[1]) =>
            \A f \in Present(S[1]) :
               /\ ConcatAll([r \in 1..R |-> S[1].l[r][f]]) = S[1].g[f]
               /\ \A r, q \in 1..R : IAbs(Num(S[1].l[r][f]) - Num(S[1].l[q][f])) <= 1
IndexNamesRows == last.do = "g2l" /\ NumOk(last.pre[1]) =>
            \A r \in 1..R : \A f \in Present(S[1]) : \A k \in 1..Num(S[1].li[r]) :
               Row(S[1].l[r][f], k) = Row(S[1].g[f], S[1].li[r].v[k][1] + 1)
\* gathering what was just distributed changes nothing
RoundTrip == last.do = "g2l" /\ NumOk(last.pre[1]) =>
            \A f \in Present(S[1]) : Gather(S[1]).g[f] = S[1].g[f]
GatherComplete == last.do = "l2g" => \A f \in PresentL(S[1]) : Num(S[1].g[f]) = ISum([r \in 1..R |-> Num(S[1].l[r][f])])
\* clipping keeps the first samples of everything, and its operand
ClipPrefix == last.do = "clip" /\ NumOk(last.pre[1]) =>
            /\ S[1] = last.pre[1]
            /\ \A f \in Present(last.pre[1]) : IsPrefix(S[2].g[f].v, last.pre[1].g[f].v)
            /\ NumOk(S[2]) /\ NumSet(S[2]) <= NumSet(last.pre[1])
UndoInverts == last.do = "norm" /\ ~IsNone(last.pre[1].dom) =>
            LET u == Undo(S[1]) IN u.g = last.pre[1].g /\ u.l = last.pre[1].l /\ u.dom = last.pre[1].dom /\ u.ref = last.pre[1].ref
UnitImage == last.do = "norm" /\ ~IsNone(last.pre[1].dom) => S[1].dom = UnitDom(1)
=============================================================================
