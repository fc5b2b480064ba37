---------------------------- MODULE TraceCompare ----------------------------
(* Recorded comparisons of two sets through changes of their models and of  *)
(* the comparison points.                                                   *)
EXTENDS Compare

\* state: [s |-> <<set, set>>, cmp |-> comparison points ("none", or random)]
ApplyC(st, a) == CASE a.do = "model" -> [st EXCEPT !.s[a.k] = Apply(@, [do |-> IF a.ini THEN "init" ELSE "upd", m |-> a.m])]
                   [] a.do = "P" -> [st EXCEPT !.s[a.k].P = a.v]
                   [] a.do = "cmp" /\ a.bad = "" -> [st EXCEPT !.cmp = a.x]
                   [] a.do = "rand" -> [st EXCEPT !.cmp = <<<<>>>>]
                   [] OTHER -> st
NearC(got, want) == IF want = HugeD THEN got = HugeD ELSE IAbs(got - want) <= 25 + IAbs(want) \div 60
AskedC(e, st, k) == IF (IF k = 1 THEN e.i1 ELSE e.i2) THEN st.s[k].ini ELSE st.s[k].upd
JRand(e, st, a, o) ==
    LET d == st.s[1].dim
        R(i) == ValueRange(st.s[1], st.s[2], i, a.f)
        \* 1/1000 of the range
        Pos(k, i) == o.pts.v[(k - 1) * d + i]
    IN IF o.exc # "" THEN {"fails"}
       ELSE IF o.pts.sh # <<a.n, d>> THEN {"number_of_points"}
       ELSE Must(\A i \in 1..d : o.lo[i] = R(i)[1] /\ o.hi[i] = R(i)[2], "range_asked")
            \cup Must(\A k \in 1..a.n, i \in 1..d : Pos(k, i) \in 0..1000, "inside")
            \cup Must(\A i \in 1..d : \A part \in 0..9 : \E k \in 1..a.n : Pos(k, i) \div 100 = part \/ (part = 9 /\ Pos(k, i) = 1000), "covers_both_ranges")
JDist(e, st, a, o) ==
    LET M1 == AskedC(e, st, 1)
        M2 == AskedC(e, st, 2)
        p == TLCEval([k \in DOMAIN st.cmp |-> ExactDens(st.s[1], M1, st.cmp[k])])
        q == TLCEval([k \in DOMAIN st.cmp |-> ExactDens(st.s[2], M2, st.cmp[k])])
    IN IF st.cmp = <<>> THEN Must(o.exc # "", "refused_without_points")
       ELSE IF st.cmp = <<<<>>>> THEN {}
       ELSE IF (a.norm \/ a.fn = "kl") /\ (QSum(p) = Zero \/ QSum(q) = Zero) THEN {}      \* undefined
       ELSE IF o.exc # "" THEN {"fails"}
       ELSE Must(NearC(o.v, Value(a.fn, p, q, a.norm, One, TRUE)), "distance")
JMargC(e, st, a, o) ==
    LET iv == IF a.iv = <<>> THEN Interval(st.s[1], st.s[2], a.i, a.f) ELSE a.iv
        x == Lin(iv[1], iv[2], a.n)
        p == TLCEval([k \in 1..a.n |-> ExactMarg(AskedC(e, st, 1), a.i, x[k])])
        q == TLCEval([k \in 1..a.n |-> ExactMarg(AskedC(e, st, 2), a.i, x[k])])
    IN IF (a.norm \/ a.fn = "kl") /\ (QSum(p) = Zero \/ QSum(q) = Zero) THEN {}
       ELSE IF o.exc # "" THEN {"fails"}
       ELSE Must(NearC(o.v, Value(a.fn, p, q, a.norm, QSub(iv[2], iv[1]), FALSE)), "marginal_distance")
JQuad(e, st, a, o) ==
    LET iv == TLCEval(IF a.iv = <<>> THEN Interval(st.s[1], st.s[2], a.i, a.f) ELSE a.iv)
        w == TLCEval(QuadValue(a.fn, AskedC(e, st, 1).rv[a.i], AskedC(e, st, 2).rv[a.i], iv[1], iv[2]))
        \* the fifty nodes of the default rule do not resolve densities much narrower than the interval; a.n: more were asked for
        narrow == \E j \in {1, 2} : QLess(QMul(QI(12), AskedC(e, st, j).rv[a.i].b), QSub(iv[2], iv[1]))
    IN IF o.exc # "" THEN {"fails"}
       ELSE IF narrow /\ a.n = 0 THEN {}
       ELSE Must(IAbs(o.v - w) <= 100 + IAbs(w) \div 40, "integrated_distance")
JCmp(a, o) == Must(IF a.bad = "" THEN o.exc = "" ELSE o.exc # "", IF a.bad = "" THEN "points_taken" ELSE "points_refused")
JCompare(e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "refused")
    ELSE IF ~NoExc(e.outs) THEN {"fails"}
    ELSE LET S == TLCEval(FoldLeft(LAMBDA acc, a : Append(acc, TLCEval(ApplyC(acc[Len(acc)], a))), <<e.s0>>, e.steps))
         IN UNION {UNION {LET a == e.steps[k]
                              o == e.outs[r].res[k]
                          IN CASE a.do = "cmp" -> JCmp(a, o)
                               [] a.do = "rand" -> JRand(e, S[k], a, o)
                               [] a.do = "dist" -> JDist(e, S[k], a, o)
                               [] a.do = "marg" -> JMargC(e, S[k], a, o)
                               [] a.do = "quad" -> JQuad(e, S[k], a, o)
                               [] OTHER -> {} : k \in DOMAIN e.steps} : r \in DOMAIN e.outs}
=============================================================================
