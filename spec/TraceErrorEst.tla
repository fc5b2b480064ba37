--------------------------- MODULE TraceErrorEst ----------------------------
(* Recorded error estimations on one discretization (the state: what it     *)
(* holds) against ErrorEst.  Results in ten-thousandths.                    *)
EXTENDS ErrorEst, Judge

NX == 200000001
Undef(v) == v >= 200000000 \/ v <= -200000000
Eq(v, q) == IF q = NaN THEN Undef(v) ELSE ~Undef(v) /\ IAbs(v - QFix(q, 10000)) <= 2
QX(st) == TLCEval([i \in DOMAIN st.x |-> [k \in DOMAIN st.x[i] |-> QI(st.x[i][k])]])
Io(st) == OwnerSeq(st.bins, st.y)
\* outputs corrected by their error estimates
Ion(st) == OwnerSeq(st.bins, TLCEval([i \in DOMAIN st.y |-> [k \in DOMAIN st.y[i] |-> QAdd(st.y[i][k], st.ee[i][k])]]))
Vor(vals, p) == [kind |-> "vor", p |-> p, vals |-> vals]
\* the points that measure volume in a call, and their cells
Points(st, e) == IF e.pts = "arg" THEN e.emu ELSE IF st.hasemu /\ e.pts # "mc" THEN st.emu ELSE QX(st)
Own(st, e) == IF e.pts = "mc" \/ (e.pts # "arg" /\ ~st.hasemu) THEN [i \in DOMAIN st.x |-> i - 1]
              ELSE OwnerSeq(Vor(QX(st), st.p), Points(st, e))
InA(st, e) == LET o == OwnerSeq(Vor(e.svals, e.sp), Points(st, e)) IN TLCEval([i \in DOMAIN o |-> e.lab[o[i] + 1] = e.region])
VolOf(st) == IF st.hasvol THEN st.vol
             ELSE IF st.hasemu THEN EmulatedVol(Len(st.x), OwnerSeq(Vor(QX(st), st.p), st.emu))
             ELSE [i \in DOMAIN st.x |-> Q(1, Len(st.x))]
SetOf(s) == {s[k] : k \in DOMAIN s}
AsSet(a) == IF Len(a.sh) = 1 /\ a.sh[1] >= 0 THEN SetOf(a.v) ELSE {-7}
Same(e, f) == Must(\A r \in DOMAIN e.outs : e.outs[r][f] = e.outs[1][f], "same_on_all")

JConn(st, e) ==
    LET io == TLCEval(Io(st))
        nb == TLCEval(NextBins(st.x, io))
        nbins == Len(st.prob)
    IN UNION {LET o == e.outs[r] IN
        Must(Len(o.nei) = Len(st.x) /\ \A i \in DOMAIN st.x : AsSet(o.nei[i]) = nb[i] /\ Len(o.nei[i].v) = Cardinality(nb[i]), "neighbours")
        \cup Must(Len(o.bn) = nbins /\ \A b \in 1..nbins : AsSet(o.bn[b]) = {i - 1 : i \in Inner(nb, io, b - 1)}
                     /\ Len(o.bn[b].v) = Cardinality(AsSet(o.bn[b])), "inner_set")
        \cup Must(Len(o.cn) = nbins /\ \A b \in 1..nbins : AsSet(o.cn[b]) = {i - 1 : i \in Outer(nb, io, b - 1)}
                     /\ Len(o.cn[b].v) = Cardinality(AsSet(o.cn[b])), "outer_set")
        : r \in DOMAIN e.outs}
JContour(st, e) ==
    LET io == TLCEval(Io(st))
        nb == TLCEval(NextBins(st.x, io))
        vol == TLCEval(VolOf(st))
        nbins == Len(st.prob)
        o == e.outs[1]
        V(S) == QSumOver(S, LAMBDA i : vol[i])
    IN IF ~IsVec(o.up, nbins) \/ ~IsVec(o.lo, nbins) THEN {"one_bound_per_bin"}
       ELSE Same(e, "up") \cup Same(e, "lo") \cup
            UNION {LET c == ContourBounds(nb, io, vol, st.prob[b], b - 1)
                       B == Inner(nb, io, b - 1)
                   IN IF B # {} /\ V(B) = Zero THEN {}                 \* cells of no volume: not determined
                      ELSE Must(Eq(o.up.v[b], c[1]), "upper_bound") \cup Must(Eq(o.lo.v[b], c[2]), "lower_bound")
                   : b \in 1..nbins}
JRegion(st, e) ==
    LET io == TLCEval(Io(st))
        nb == TLCEval(NextBins(st.x, io))
        c == TLCEval(RegionBounds(nb, io, TLCEval(Own(st, e)), TLCEval(InA(st, e)), st.prob))
    IN Same(e, "up") \cup Same(e, "lo") \cup
       Must(IsVec(e.outs[1].up, 1) /\ Eq(e.outs[1].up.v[1], c[1]), "upper_bound")
       \cup Must(IsVec(e.outs[1].lo, 1) /\ Eq(e.outs[1].lo.v[1], c[2]), "lower_bound")
JMContour(st, e) ==
    LET io == TLCEval(Io(st))
        ion == TLCEval(Ion(st))
        vol == TLCEval(VolOf(st))
    IN IF ~IsVec(e.outs[1].up, Len(st.prob)) THEN {"one_estimate_per_bin"}
       ELSE Same(e, "up") \cup
            Must(\A b \in DOMAIN st.prob : Eq(e.outs[1].up.v[b], ModelContour(io, ion, vol, st.prob[b], b - 1)), "model_error_of_contour")
JMRegion(st, e) ==
    LET io == TLCEval(Io(st))
        ion == TLCEval(Ion(st))
        own == TLCEval(Own(st, e))
        inA == TLCEval(InA(st, e))
        n == Len(st.x)
        w == TLCEval(PerCell(n, own, DOMAIN own))
        wA == TLCEval(PerCell(n, own, {i \in DOMAIN own : inA[i]}))
        q == TLCEval(ModelError(io, ion, w, wA, st.prob))
    IN Same(e, "up") \cup Must(IsVec(e.outs[1].up, 1) /\ Eq(e.outs[1].up.v[1], q), "model_error_of_region")
       \* by samples: the estimate is distributed over the cells in error
       \cup Must(e.pts = "mc" /\ q # NaN => IAbs(ISum([r \in DOMAIN e.outs |-> ISum(e.outs[r].eid.v)]) - QFix(q, 10000)) <= n + 2, "error_identity")
JErr(st, e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "refused")
    ELSE IF ~NoExc(e.outs) THEN {"fails"}
    ELSE CASE e.do = "conn" -> JConn(st, e)
           [] e.do = "contour" -> JContour(st, e)
           [] e.do = "region" -> JRegion(st, e)
           [] e.do = "mcontour" -> JMContour(st, e)
           [] e.do = "mregion" -> JMRegion(st, e)
           [] e.do = "kept" -> Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "discretization_unchanged")
=============================================================================
