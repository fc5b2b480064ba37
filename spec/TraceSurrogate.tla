--------------------------- MODULE TraceSurrogate ---------------------------
(* Recorded surrogates against Surrogate; the state is the training data.   *)
EXTENDS Surrogate, TraceErrorEst

RowsQ(rows) == LET d == Len(rows[1]) IN [sh |-> <<Len(rows), d>>, v |-> [i \in 1..(Len(rows) * d) |-> rows[((i - 1) \div d) + 1][((i - 1) % d) + 1]]]
JGen(st, e) ==
    LET own == TLCEval(TrOwn(st, e.new))
        y == TLCEval(NewValues(st, own, e.new, e.order))
    IN Must(Cat(Field(e.outs, "in")) = RowsQ(e.new), "inputs")
       \cup Must(Cat(Field(e.outs, "out")) = RowsQ(y), "taylor_value")
       \cup Must(IF st.hasee THEN Cat(Field(e.outs, "ee")) = RowsQ([i \in DOMAIN own |-> st.ee[own[i] + 1]])
                 ELSE \A r \in DOMAIN e.outs : IsNone(e.outs[r].ee), "inherited_error_estimate")
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "training_data_unchanged")
FixSum(own, i, v) == ISum([k \in DOMAIN own |-> IF own[k] = i - 1 THEN v[k] ELSE 0])
JProbS(st, e) ==
    LET own == TLCEval(TrOwn(st, e.new))
        y == TLCEval(NewValues(st, own, e.new, e.order))
        io == TLCEval(OwnerSeq(st.bins, y))
        ion == TLCEval(OwnerSeq(st.bins, TLCEval([i \in DOMAIN y |-> [k \in DOMAIN y[i] |-> QAdd(y[i][k], st.ee[own[i] + 1][k])]])))
        n == Len(e.new)
        vol == IF e.hasvol THEN e.vol ELSE [i \in 1..n |-> Q(1, n)]
        pr == TLCEval(InverseProb(vol, io, e.prob))
        cell == TLCEval(OwnerSeq(Vor(e.svals, e.sp), e.new))
        InR(reg) == {i \in 1..n : e.lab[cell[i] + 1] = reg}
        w == [i \in 1..n |-> One]
        Err(reg) == TLCEval(ModelError(io, ion, w, [i \in 1..n |-> IF i \in InR(reg) THEN One ELSE Zero], e.prob))
        o == e.outs[1]
        eid == TLCEval(Cat(Field(e.outs, "eid")))
        last == TLCEval(Err(e.regions[Len(e.regions)]))
        m == Len(st.x)
        tot == TLCEval(Totals(m, own, pr))
    IN IF ~IsVec(o.probs, Len(e.regions)) \/ ~IsVec(o.errs, Len(e.regions)) THEN {"one_result_per_region"}
       ELSE Same(e, "probs") \cup Same(e, "errs")
            \cup Must(\A k \in DOMAIN e.regions : Eq(o.probs.v[k], QSumOver(InR(e.regions[k]), LAMBDA i : pr[i])), "region_probability")
            \cup Must(\A k \in DOMAIN e.regions : Eq(o.errs.v[k], Err(e.regions[k])), "region_error")
            \cup Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "training_data_unchanged")
            \cup (IF ~e.update THEN Must(\A r \in DOMAIN e.outs : e.outs[r].pkept, "training_probability_unchanged")
                  ELSE Must(\A r \in DOMAIN e.outs : IsVec(e.outs[r].tp, m) /\ \A i \in 1..m : Eq(e.outs[r].tp.v[i], tot[i]), "training_probability")
                       \cup Must(\A r \in DOMAIN e.outs : IsNone(e.outs[r].tpl) \/ e.outs[r].tpl = Part(e.outs[1].tp, Len(e.outs), r), "training_probability_local")
                       \cup Must(last = NaN \/ (IsVec(eid, n) /\ \A r \in DOMAIN e.outs : IsVec(e.outs[r].te, m) /\
                                 \A i \in 1..m : IAbs(e.outs[r].te.v[i] - FixSum(own, i, eid.v)) <= n + 2), "training_error"))
            \cup Must(last = NaN \/ (IsVec(eid, n) /\ IAbs(ISum(eid.v) - QFix(last, 10000)) <= n + 2), "error_identity")
JSur(st, e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "refused")
    ELSE IF ~NoExc(e.outs) THEN {"fails"}
    ELSE IF e.do = "gen" THEN JGen(st, e) ELSE JProbS(st, e)
=============================================================================
