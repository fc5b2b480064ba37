---------------------------- MODULE TraceGradient ---------------------------
(* Recorded gradient computations against Gradient.                         *)
EXTENDS Gradient

RowsA(rows) == LET d == Len(rows[1]) IN [sh |-> <<Len(rows), d>>, v |-> [i \in 1..(Len(rows) * d) |-> rows[((i - 1) \div d) + 1][((i - 1) % d) + 1]]]
JStencil(e) ==
    Must(\A r \in DOMAIN e.outs : e.outs[r].x = RowsA(Stencil(e.kind, e.c, e.rad)), "stencil")
    \cup Must(\A r \in DOMAIN e.outs : e.outs[r].dom = e.dom, "domain_carried")
JCentres(e, nc) ==
    Must(\A r \in DOMAIN e.outs : e.outs[r].cx = RowsA(SubSeq(e.x, 1, nc)), "centres")
    \cup Must(\A r \in DOMAIN e.outs : e.outs[r].dom = e.dom, "domain_carried")
JFd(e) ==
    LET d == Len(e.x[1])
        od == Len(e.y[1])
        nc == NumCentres(e.kind, Len(e.x), d)
        want == [i \in 1..(nc * od) |-> JacRow(e.kind, e.y, e.rad, nc, d, ((i - 1) \div od) + 1, ((i - 1) % od) + 1, e.nrm)]
        J == [sh |-> <<nc, od, d>>, v |-> FlattenSeq(want)]
    IN JCentres(e, nc)
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].odom = e.odom, "output_domain_carried")
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].cy = RowsA(SubSeq(e.y, 1, nc)), "centre_outputs")
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].J = J, "difference_quotient")
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "cluster_unchanged")
JRbf(e) ==
    LET d == Len(e.x[1])
        od == Len(e.a)
        nc == e.nc
        N == TLCEval([c \in 1..nc |-> NearestTo(e.x, e.p, c, e.nn)])
        G(c, o, k) == GradI(e.x, N[c], e.a[o], e.kernel, e.ep, e.x[c], k)
        want == TLCEval([i \in 1..(nc * od * d) |-> G(((i - 1) \div (od * d)) + 1, (((i - 1) \div d) % od) + 1, ((i - 1) % d) + 1)])
        amax == TLCEval([o \in 1..od |-> ISum([m \in DOMAIN e.a[o] |-> IAbs(e.a[o][m])])])
        size(i) == LET b == ((i - 1) \div d) * d IN ISum([k \in 1..d |-> IAbs(want[b + k])])
        tol(i) == 15 * amax[(((i - 1) \div d) % od) + 1] * (IF e.kernel = "Multiquadric" THEN 2 ELSE 1) + 20
        ok(o, i) == IF e.nrm THEN size(i) < 20 * tol(i) \/ IAbs(o.J.v[i] - (want[i] * 10000) \div size(i)) <= (tol(i) * d * 20000) \div size(i) + 5
                    ELSE IAbs(o.J.v[i] - want[i]) <= tol(i)
        Rep(r) == e.outs[r].J.sh = <<nc, od, d>>
    IN JCentres(e, nc)
       \* the recorded data are values of the interpolant (the harness made them so)
       \cup Must(\A c \in 1..nc : \A o \in 1..od : \A i \in N[c] :
                   IAbs(e.yfix[i][o] - Inter(e.x, N[c], e.a[o], e.kernel, e.ep, e.x[i])) <= 15 * amax[o] + 20, "harness_data")
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].cy.sh = <<nc, od>> /\ \A i \in 1..(nc * od) :
                   e.outs[r].cy.v[i] = e.yfix[((i - 1) \div od) + 1][((i - 1) % od) + 1], "centre_outputs")
       \cup (IF \A r \in DOMAIN e.outs : Rep(r)
             THEN Must(\A r \in DOMAIN e.outs : \A i \in DOMAIN want : ok(e.outs[r], i), "interpolant_gradient")
             ELSE {"jacobian_shape"})
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "cluster_unchanged")
JKern(e) ==
    LET n == Len(e.s)
    IN Must(\A r \in DOMAIN e.outs : IsVec(e.outs[r].v, n) /\ \A i \in 1..n : IAbs(e.outs[r].v.v[i] - Phi(e.kernel, e.s[i])) <= 25, "kernel")
       \cup Must(\A r \in DOMAIN e.outs : IsVec(e.outs[r].d, n) /\ \A i \in 1..n :
                   IAbs(e.outs[r].d.v[i] - DPhi(e.kernel, e.s[i], e.e2x[i])) <= 60, "kernel_derivative")
\* clusters: values in 1/10000
JBall(e) ==
    LET nc == Len(e.c)
        d == Len(e.c[1])
        n == nc * (1 + e.k)
        P(o, i, j) == o.x.v[(i - 1) * d + j]
        C(c, j) == QFix(e.c[c][j], 10000)
        \* scaled displacement in 1/1000
        U(o, i, c, j) == IAbs(QFix(QDiv(QI(P(o, i, j) - C(c, j)), QMul(QI(10), e.rad[j])), 1))
        Near(o, i, c) == IF e.p = "inf" THEN \A j \in 1..d : U(o, i, c, j) <= 1003
                         ELSE IF e.p = "1" THEN ISum([j \in 1..d |-> U(o, i, c, j)]) <= 1003 + d
                         ELSE ISum([j \in 1..d |-> U(o, i, c, j) * U(o, i, c, j)]) <= 1006000 + 3000 * d
        In(o, i) == \A j \in 1..d : e.hasdom => P(o, i, j) >= QFix(e.lo[j], 10000) - 1 /\ P(o, i, j) <= QFix(e.hi[j], 10000) + 1
        Ok(o) == o.x.sh = <<n, d>>
    IN Must(\A r \in DOMAIN e.outs : Ok(e.outs[r]), "exactly_the_requested_number")
       \cup (IF ~(\A r \in DOMAIN e.outs : Ok(e.outs[r])) THEN {} ELSE
             Must(\A r \in DOMAIN e.outs : \A c \in 1..nc : \A j \in 1..d : P(e.outs[r], c, j) = C(c, j), "centres_first")
             \cup Must(\A r \in DOMAIN e.outs : \A i \in (nc + 1)..n : Near(e.outs[r], i, ((i - nc - 1) \div e.k) + 1), "within_radius")
             \cup Must(\A r \in DOMAIN e.outs : \A i \in 1..n : In(e.outs[r], i), "inside_domain")
             \cup Must(\A r \in DOMAIN e.outs : Cardinality({[j \in 1..d |-> P(e.outs[r], i, j)] : i \in 1..n}) >= (2 * n) \div 3, "distinct_points"))
JGrad(e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "refused")
    ELSE IF ~NoExc(e.outs) THEN {"fails"}
    ELSE CASE e.do = "stencil" -> JStencil(e)
           [] e.do = "fd" -> JFd(e)
           [] e.do = "rbf" -> JRbf(e)
           [] e.do = "kern" -> JKern(e)
           [] e.do = "ball" -> JBall(e)
=============================================================================
