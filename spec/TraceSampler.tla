---------------------------- MODULE TraceSampler ----------------------------
(* Recorded model evaluations through a sampler against Sampler.            *)
EXTENDS Sampler, Judge

Out(e) == Len(e.m.a)
IRows(a) == IF Len(a.sh) = 2 /\ a.sh[1] >= 0 THEN Rows(a) ELSE <<>>
\* the values the model was given, apart from the reference value
Given(e) == LET c == TLCEval(FlattenSeq([r \in DOMAIN e.outs |-> FlattenSeq([k \in DOMAIN e.outs[r].calls |-> IRows(e.outs[r].calls[k])])]))
            IN SelectSeq(c, LAMBDA x : ~(e.hasref /\ x = e.ref))
\* what an array over all samples is, globally and in parts
JField(e, f, w, sh) ==
    LET c == TLCEval(Cat(Field(e.outs, f \o "_l")))
    IN IF c # [sh |-> sh, v |-> w] THEN {f}
       ELSE IF e.glob THEN Must(\A r \in DOMAIN e.outs : e.outs[r][f] = c, f \o "_global")
       ELSE {}
JFile(e, f, w, sh) == Must(\A r \in DOMAIN e.outs : e.outs[r][f \o "_f"] = [sh |-> sh, v |-> w], f \o "_saved")
Each(e, Op(_, _, _)) ==
    LET n == Len(e.x)
        d == Len(e.x[1])
    IN Op("in", TLCEval(Flat(e.x, d)), <<n, d>>)
       \cup Op("out", AllOf(e.m, e.x, Y, Out(e)), <<n, Out(e)>>)
       \cup (IF e.ee THEN Op("ee", AllOf(e.m, e.x, EE, Out(e)), <<n, Out(e)>>) ELSE {})
       \cup (IF e.jac THEN Op("jac", AllOf(e.m, e.x, J, Out(e) * d), <<n, Out(e), d>>) ELSE {})
JQoi(e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "refused")
    ELSE IF ~NoExc(e.outs) THEN {"fails"}
    ELSE IF e.random
    THEN LET c == TLCEval(Cat(Field(e.outs, "in_l")))
             o == TLCEval(Cat(Field(e.outs, "out_l")))
         IN Must(c = o /\ c.sh = <<e.n, e.dim>>, "output_of_its_input")
            \cup Must(e.glob => \A r \in DOMAIN e.outs : e.outs[r].in = c /\ e.outs[r].out = c, "global")
            \cup Must(e.saved => \A r \in DOMAIN e.outs : e.outs[r].in_f = c /\ e.outs[r].out_f = c, "saved")
            \cup Must(\A r \in DOMAIN e.outs : e.outs[r].held, "held_by_sampler")
    ELSE Must(SameBag(Given(e), e.x), "evaluated_once")
         \cup Each(e, LAMBDA f, w, sh : JField(e, f, w, sh))
         \cup (IF e.saved THEN Each(e, LAMBDA f, w, sh : JFile(e, f, w, sh)) ELSE {})
         \cup Must(\A r \in DOMAIN e.outs : e.outs[r].refout = (IF e.hasref THEN Vec(Y(e.m, e.ref)) ELSE None), "reference_output")
         \cup Must(\A r \in DOMAIN e.outs : e.outs[r].refin = (IF e.hasref THEN Vec(e.ref) ELSE None), "reference_input")
         \cup Must(~e.ee => \A r \in DOMAIN e.outs : IsNone(e.outs[r].ee_l), "no_error_estimates")
         \cup Must(\A r \in DOMAIN e.outs : e.outs[r].held, "held_by_sampler")
=============================================================================
