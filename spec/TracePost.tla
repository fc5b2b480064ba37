------------------------------ MODULE TracePost -----------------------------
(* Recorded density orders, selections and marginals against Post.          *)
EXTENDS Post

RowsP(rows, s) == LET d == Len(rows[1]) IN [sh |-> <<Len(s), d>>, v |-> [i \in 1..(Len(s) * d) |-> rows[s[((i - 1) \div d) + 1]][((i - 1) % d) + 1]]]
\* what came back belongs to the indices
AlignedRows(e, o, s) ==
    Must(o.x = RowsP(e.x, s), "values_aligned")
    \cup Must(IsVec(o.p, Len(s)) /\ \A i \in DOMAIN s : o.p.v[i] = e.P[s[i]], "probabilities_aligned")
    \cup Must(IF e.hasv THEN IsVec(o.vol, Len(s)) /\ \A i \in DOMAIN s : o.vol.v[i] = e.V[s[i]] ELSE IsNone(o.vol), "volumes_aligned")
    \cup Must(IF e.hasy THEN o.y = RowsP(e.y, s) ELSE IsNone(o.y), "outputs_aligned")
Index1(a) == [i \in DOMAIN a.v |-> a.v[i] + 1]
JOrder(e, o) ==
    LET s == TLCEval(Index1(o.ind))
    IN IF Len(o.ind.sh) # 1 \/ ~(Range(s) \subseteq DOMAIN e.P) THEN {"indices"}
       ELSE AlignedRows(e, o, s)
            \cup (IF e.do = "sort" THEN Must(DenseOrder(e.P, e.V, e.hasv, s), "order_by_density")
                  ELSE Must(o.num = Len(s), "number")
                       \cup Must(IF e.sorted THEN Selection(e.P, e.V, e.hasv, e.low, e.pct, s) ELSE Prefix(e.P, e.low, e.pct, s), "selection"))
            \cup Must(o.kept, "set_unchanged")
\* ---- marginals -----------------------------------------------------------------------
JMarg(e, o) ==
    LET d == Len(e.dom)
        B == TLCEval([k \in 1..d |-> [i \in DOMAIN e.x |-> BinOf(e.dom[k][1], e.dom[k][2], e.nb[k], e.x[i][k])]])
        keys == IF e.do = "m1" THEN [k \in 1..d |-> <<k, 0>>] ELSE SetToSortSeq({<<a, b>> \in (1..d) \X (1..d) : a < b}, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
        Want(k) == IF e.do = "m1" THEN Vec(Hist1(e.P, B[k[1]], e.nb[k[1]]))
                   ELSE [sh |-> <<e.nb[k[1]], e.nb[k[2]]>>, v |-> Hist2(e.P, B[k[1]], B[k[2]], e.nb[k[1]], e.nb[k[2]])]
    IN Must(Len(o.bins) = d /\ \A k \in 1..d : o.bins[k] = Vec(Edges(e.dom[k][1], e.dom[k][2], e.nb[k])), "equal_bins")
       \cup Must([i \in DOMAIN o.keys |-> o.keys[i]] = [i \in DOMAIN keys |-> keys[i]] /\ \A i \in DOMAIN keys : o.marg[i] = Want(keys[i]), "histogram")
JSmooth(e, o) ==
    LET d2 == e.do = "s2"
        One_(k) == LET w == e.w[k]
                       s == TLCEval(IF d2 THEN Smooth2(w, e.ni[k], e.nj[k], e.r2[k][1], e.r2[k][2]) ELSE Smooth1(w, e.r2[k][1]))
                   IN /\ o.sm[k].sh = (IF d2 THEN <<e.ni[k], e.nj[k]>> ELSE <<Len(w)>>)
                      /\ \A i \in DOMAIN w : IAbs(o.sm[k].v[i] - Share(s, i)) <= 25
    IN Must(Len(o.sm) = Len(e.w), "one_per_marginal")
       \cup (IF Len(o.sm) # Len(e.w) THEN {} ELSE Must(\A k \in DOMAIN e.w : One_(k), "smoothed")
             \cup Must(\A k \in DOMAIN e.w : IAbs(ISum(o.sm[k].v) - 10000) <= Len(o.sm[k].v), "total"))
\* what is drawn is probability per size of a bin (only the root draws)
JDraw(e, o) ==
    LET Size(k) == IF e.kind = 1 THEN e.dx[k] ELSE QMul(e.dx[k], e.dy[k])
    IN Must(Len(o.drawn) = Len(e.m) /\ \A k \in DOMAIN e.m : Len(o.drawn[k].v) = Len(e.m[k])
            /\ \A i \in DOMAIN e.m[k] : o.drawn[k].v[i] = QDiv(e.m[k][i], Size(k)), "density_per_bin_size")
JPost(e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "refused")
    ELSE IF ~NoExc(e.outs) THEN {"fails"}
    ELSE IF e.do = "draw" THEN JDraw(e, e.outs[1])
    ELSE UNION {CASE e.do \in {"sort", "sel"} -> JOrder(e, e.outs[r])
                  [] e.do \in {"m1", "m2"} -> JMarg(e, e.outs[r])
                  [] OTHER -> JSmooth(e, e.outs[r]) : r \in DOMAIN e.outs}
=============================================================================
