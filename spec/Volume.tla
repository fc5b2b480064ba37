------------------------------- MODULE Volume -------------------------------
(* Exact measure of cells relative to the domain.                           *)
EXTENDS Judge

\* ---- one dimension: nearest-sample intervals, exact rationals -------------
Rank1(xs, i) == Cardinality({j \in DOMAIN xs : QLess(xs[j], xs[i])})
Vol1(xs, lo, hi) ==
    TLCEval([i \in DOMAIN xs |->
        LET below == {j \in DOMAIN xs : QLess(xs[j], xs[i])}
            above == {j \in DOMAIN xs : QLess(xs[i], xs[j])}
            l == IF below = {} THEN lo
                 ELSE QDiv(QAdd(xs[i], QMaxSeq(SetToSeq({xs[j] : j \in below}))), QI(2))
            u == IF above = {} THEN hi
                 ELSE QDiv(QAdd(xs[i], QMinSeq(SetToSeq({xs[j] : j \in above}))), QI(2))
        IN QDiv(QSub(u, l), QSub(hi, lo))])

\* ---- boxes and balls in the domain, and the rest ---------------------------
DomSize(dom) == QProd([i \in DOMAIN dom |-> QSub(dom[i][2], dom[i][1])])
WithRest(v) == Append(v, QSub(One, QSum(v)))
VolBoxes(left, right, dom) ==
    WithRest([k \in DOMAIN left |->
       QDiv(QProd([i \in DOMAIN dom |-> QSub(right[k][i], left[k][i])]), DomSize(dom))])
QPow(q, n) == QProd([i \in 1..n |-> q])
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
\* volume of the unit ball of norm p in d dimensions (pi as 355/113)
UnitBall(p, d) == IF p = "inf" THEN QI(2 ^ d)
                  ELSE IF p = "1" THEN Q(2 ^ d, Fact(d))
                  ELSE IF d = 1 THEN QI(2) ELSE IF d = 2 THEN Q(355, 113) ELSE IF d = 3 THEN Q(1420, 339)
                  ELSE IF d = 4 THEN Q(227, 46) ELSE Q(379, 72)         \* d <= 5
VolBalls(p, rad, dom) ==
    LET d == Len(dom)
    IN WithRest([k \in DOMAIN rad |-> QMul(QProd([i \in 1..d |-> QDiv(rad[k], QSub(dom[i][2], dom[i][1]))]), UnitBall(p, d))])

\* ---- two dimensions: clipped Voronoi polygons ------------------------------
\* integer samples s[i] = <<x, y>> in [0,W] x [0,H]; half planes a x + b y <= c
Lines(s, i, W, H) ==
    TLCEval(<<<<-1, 0, 0>>, <<1, 0, W>>, <<0, -1, 0>>, <<0, 1, H>>>> \o
       [k \in 1..(Len(s) - 1) |->
          LET j == IF k < i THEN k ELSE k + 1
          IN <<2 * (s[j][1] - s[i][1]), 2 * (s[j][2] - s[i][2]),
               s[j][1] * s[j][1] + s[j][2] * s[j][2] - s[i][1] * s[i][1] - s[i][2] * s[i][2]>>])
\* intersection of two lines as <<xnum, ynum, det>>, det > 0; <<>> if parallel
Meet(g, h) ==
    LET d == g[1] * h[2] - h[1] * g[2]
        x == g[3] * h[2] - h[3] * g[2]
        y == g[1] * h[3] - h[1] * g[3]
    IN IF d = 0 THEN <<>> ELSE IF d > 0 THEN <<x, y, d>> ELSE <<-x, -y, -d>>
Feasible(v, L) == \A k \in DOMAIN L : L[k][1] * v[1] + L[k][2] * v[2] <= L[k][3] * v[3]
VertsOn(L, k) == {v \in {Meet(L[k], L[m]) : m \in DOMAIN L \ {k}} : v # <<>> /\ Feasible(v, L)}
UNITFX == 1024                                         \* fixed point per unit
Fx(v) == <<QFix(Q(v[1], v[3]), UNITFX), QFix(Q(v[2], v[3]), UNITFX)>>
Touches(L, k) == VertsOn(L, k) # {}
\* twice the area of the cell of sample i, in fixed point: triangles from the
\* sample to the edge on every line
Area2(s, i, W, H) ==
    LET L == Lines(s, i, W, H)
        c == <<s[i][1] * UNITFX, s[i][2] * UNITFX>>
        edge(k) ==
          LET V == {Fx(v) : v \in VertsOn(L, k)}
              t(v) == L[k][1] * v[2] - L[k][2] * v[1]              \* position along the line
          IN IF V = {} THEN 0
             ELSE LET a == CHOOSE v \in V : \A w \in V : t(v) <= t(w)
                      b == CHOOSE v \in V : \A w \in V : t(v) >= t(w)
                  IN IAbs((a[1] - c[1]) * (b[2] - c[2]) - (b[1] - c[1]) * (a[2] - c[2]))
    IN ISum([k \in DOMAIN L |-> edge(k)])
\* fraction of the domain in units of 1/10000
Vol2(s, i, W, H) == (((Area2(s, i, W, H) \div 2) \div (W * H)) * 625) \div 65536
=============================================================================
