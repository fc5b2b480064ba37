---------------------------- MODULE TraceVolume -----------------------------
(* Recorded volume and radius computations against Volume.                  *)
EXTENDS Volume

RECURSIVE ISqrt(_, _)
ISqrt(x, g) == LET h == (g + x \div g) \div 2 IN IF h >= g THEN g ELSE ISqrt(x, h)
Sqrt(x) == IF x <= 0 THEN 0 ELSE ISqrt(x, x)                 \* floor

\* all processes report the same global array and their own block of it
Blocks(outs, vol, voll) ==
    Must(\A r \in DOMAIN outs : outs[r][vol] = outs[1][vol], "same_on_all")
    \cup Must(\A r \in DOMAIN outs :
                IsNone(outs[r][voll]) \/
                (Len(outs[r][vol].sh) = 1 /\ outs[r][voll] = Part(outs[1][vol], Len(outs), r)), "local_block")
Near(a, b, tol) == IAbs(a - b) <= tol

\* ---- exact -----------------------------------------------------------------
\* side k of the domain (order of Lines) reflects sample i for this side ratio
Reflected(e, i, k) ==
    LET x == IF k <= 2 THEN e.s[i][1] ELSE e.s[i][2]
        w == IF k <= 2 THEN e.W ELSE e.H
    IN IF k \in {1, 3} THEN 4 * x < e.ratio4 * w ELSE 4 * x > 4 * w - e.ratio4 * w
Judged2(e, i) == LET L == Lines(e.s, i, e.W, e.H)
                 IN \A k \in 1..4 : Touches(L, k) => Reflected(e, i, k)
JVol2(e) ==
    LET n == Len(e.s)
        J == {i \in 1..n : Judged2(e, i)}
        v == e.outs[1].volf
    IN IF ~IsVec(v, n) THEN {"shape"}
       ELSE Must(\A i \in J : Near(v.v[i], Vol2(e.s, i, e.W, e.H), 4), "polygon_area")
            \cup Must(J = 1..n => Near(ISum(v.v), 10000, n + 1), "sum_one")
JBall(e) ==
    LET want == VolBalls(e.p, e.rad, e.dom)
        v == e.outs[1].volf
    IN IF ~IsVec(v, Len(e.rad) + 1) THEN {"shape"}
       ELSE Must(\A i \in DOMAIN want : Near(v.v[i], QFix(want[i], 10000), 3), "ball_volume")

\* ---- regular grids: samples in the centres of boxes, cells the boxes in any norm
GridSize(cells) == QProd([k \in DOMAIN cells |-> QI(cells[k])])[1]
\* half widths in 1/10000 of the first width (or of every width, when normalised)
HalfWidths(e) ==
    LET w(k) == QSub(e.dom[k][2], e.dom[k][1])
    IN [k \in DOMAIN e.cells |-> QFix(QMul(Q(1, 2 * e.cells[k]), IF e.norm THEN One ELSE QDiv(w(k), w(1))), 10000)]
NormSeq(p, q) == IF p = "1" THEN ISum(q)
                 ELSE IF p = "inf" THEN Max({q[k] : k \in DOMAIN q})
                 ELSE Sqrt(ISum([k \in DOMAIN q |-> q[k] * q[k]]))
GridRadius(e) == NormSeq(e.p, HalfWidths(e))

\* ---- estimates ---------------------------------------------------------------
\* the exact fraction (1/10000) of each cell for the kinds of set generated
Exact(e) ==
    CASE e.geo = "1d" -> [i \in DOMAIN e.xs |-> QFix(Vol1(e.xs, e.dom[1][1], e.dom[1][2])[i], 10000)]
      [] e.geo = "2d" -> [i \in DOMAIN e.s |-> Vol2(e.s, i, e.W, e.H)]
      [] e.geo = "grid" -> LET m == GridSize(e.cells) IN [i \in 1..m |-> 10000 \div m]
      [] e.geo = "rect" -> [i \in 1..(Len(e.bins.left) + 1) |-> QFix(VolBoxes(e.bins.left, e.bins.right, e.dom)[i], 10000)]
      [] e.geo = "ball" -> [i \in 1..(Len(e.rad) + 1) |-> QFix(VolBalls(e.p, e.rad, e.dom)[i], 10000)]
\* six standard deviations of a fraction v (1/10000) estimated with n points
Sigma6(v, n) == LET w == IMin(IMax(v, 30), 9970)
                IN 6 * Sqrt((w * (10000 - w)) \div n) + 12
JEst(e) ==
    LET v == e.outs[1].volf
        c == e.outs[1].cnt                                    \* volumes times n
        want == TLCEval(Exact(e))
    IN IF ~IsVec(v, Len(want)) THEN {"shape"}
       ELSE Must(\A i \in DOMAIN c.v : c.v[i] >= 0, "multiple_of_one_over_n")
            \cup Must(ISum(c.v) = e.n, "counts_every_point_once")
            \cup Must(e.n < 100 \/ \A i \in DOMAIN want : Near(v.v[i], want[i], Sigma6(want[i], e.n)), "sampling_error")
JLocal(e) ==
    LET v == e.outs[1].volf
        want == TLCEval(Exact(e))
    IN IF ~IsVec(v, Len(want)) THEN {"shape"}
       ELSE Must(\A i \in DOMAIN v.v : v.v[i] >= 0, "non_negative")
            \cup Must(Near(ISum(v.v), 10000, Len(want) + 1), "sum_one")
            \cup Must(\A i \in DOMAIN want : Near(v.v[i], want[i], IF e.fine THEN 50 + (want[i] * 3) \div 100 ELSE 150 + (want[i] * 2) \div 5), "approaches_exact")

\* squared distances (fixed point 1/64 units) from sample i to its cell's corners
Corner2(s, i, W, H) ==
    LET L == Lines(s, i, W, H)
        V == UNION {VertsOn(L, k) : k \in DOMAIN L}
    IN {LET q == <<QFix(Q(v[1], v[3]), 256) - 256 * s[i][1], QFix(Q(v[2], v[3]), 256) - 256 * s[i][2]>>
        IN q : v \in V}
\* the radius in 1/256 of a grid unit, in the set's norm
NormOf(p, q) == IF p = "1" THEN IAbs(q[1]) + IAbs(q[2])
                ELSE IF p = "2" THEN Sqrt(q[1] * q[1] + q[2] * q[2])
                ELSE IMax(IAbs(q[1]), IAbs(q[2]))
Radius2(s, i, W, H) == Max({NormOf("2", q) : q \in Corner2(s, i, W, H)})
\* 1D: the longer of the two half cells, as fraction of the width (normalised) or absolute
Radius1(xs, lo, hi, i) ==
    LET below == {j \in DOMAIN xs : QLess(xs[j], xs[i])}
        above == {j \in DOMAIN xs : QLess(xs[i], xs[j])}
        l == IF below = {} THEN QSub(xs[i], lo) ELSE QDiv(QSub(xs[i], QMaxSeq(SetToSeq({xs[j] : j \in below}))), QI(2))
        u == IF above = {} THEN QSub(hi, xs[i]) ELSE QDiv(QSub(QMinSeq(SetToSeq({xs[j] : j \in above})), xs[i]), QI(2))
    IN QMax(l, u)
\* true radii in 1/10000 of the domain width (2D only with equal widths)
TrueRad(e) ==
    IF e.geo = "grid" THEN LET r == GridRadius(e) IN [i \in 1..GridSize(e.cells) |-> r]
    ELSE IF e.geo = "1d"
    THEN LET lo == e.dom[1][1] hi == e.dom[1][2]
         IN [i \in DOMAIN e.xs |-> QFix(QDiv(Radius1(e.xs, lo, hi, i), QSub(hi, lo)), 10000)]
    ELSE [i \in DOMAIN e.s |-> (Radius2(e.s, i, e.W, e.H) * 10000) \div (256 * e.W)]
JRad(e) ==
    LET v == e.outs[1].radf                                   \* in 1/10000 of the width
        want == TLCEval(TrueRad(e))
        vol == TLCEval(Exact(e))
    IN IF ~IsVec(v, Len(want)) THEN {"shape"}
       ELSE Must(\A i \in DOMAIN want : v.v[i] <= want[i] + 8, "never_exceeds")
            \cup Must(\A i \in DOMAIN v.v : v.v[i] >= 0, "non_negative")
            \* a gap of g of the width at the far end stays empty with probability (1-g)^n
            \cup Must(e.geo = "1d" /\ e.n >= 1000 =>
                      \A i \in DOMAIN want : v.v[i] >= want[i] - (260000 \div e.n), "approaches")
            \* the copy of the cell scaled by 1/4 towards the far corner is hit
            \cup Must(e.geo = "2d" => \A i \in DOMAIN want :
                      vol[i] * (e.n \div 1000) >= 4800 => 2 * v.v[i] >= want[i] - 16, "approaches")
            \* points beyond 0.78 of the way to a corner are at least 3 of 100
            \cup Must(e.geo = "grid" /\ e.n >= 800 * Len(want) =>
                      \A i \in DOMAIN want : 100 * v.v[i] >= 78 * want[i] - 800, "approaches")
            \cup Must(AllEq(e.outs, "other", None), "other_radii_untouched")

JVol(e) ==
    IF e.call \in {"1d", "2d", "rect", "ball"} /\ e.bad /\ ~NoExc(e.outs) THEN {}
    ELSE IF e.bad THEN {"must_refuse"}
    ELSE IF ~NoExc(e.outs) THEN {"raised"}
    ELSE CASE e.call = "1d" ->
              Must(AllEq(e.outs, "vol", Vec(Vol1(e.xs, e.dom[1][1], e.dom[1][2]))), "interval_length")
              \cup Blocks(e.outs, "vol", "voll")
           [] e.call = "2d" -> JVol2(e) \cup Blocks(e.outs, "volf", "volfl")
           [] e.call = "rect" ->
              Must(AllEq(e.outs, "vol", Vec(VolBoxes(e.bins.left, e.bins.right, e.dom))), "box_volume")
           [] e.call = "ball" -> JBall(e)
           [] e.call = "emu" ->
              Must(AllEq(e.outs, "vol", Vec(EmulatedVol(NumCells(e.bins), OwnerSeq(e.bins, e.emu)))), "emulated_fraction")
              \cup Blocks(e.outs, "vol", "voll")
           [] e.call = "mca" ->
              LET want == Vec([i \in 1..e.n |-> Q(1, e.n)])
              IN Must(e.glob => AllEq(e.outs, "vol", want), "one_over_number")
                 \cup Must(Cat(Field(e.outs, "voll")) = want, "one_over_number_local")
           [] e.call = "est" -> JEst(e) \cup Blocks(e.outs, "volf", "volfl")
           [] e.call = "rad" -> JRad(e) \cup Blocks(e.outs, "radf", "radfl")
           [] e.call = "rv" -> JRad(e) \cup JEst(e) \cup Blocks(e.outs, "volf", "volfl") \cup Blocks(e.outs, "radf", "radfl")
           [] e.call = "local" -> JLocal(e) \cup Blocks(e.outs, "volf", "volfl")
=============================================================================
