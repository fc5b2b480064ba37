------------------------------ MODULE TracePdf ------------------------------
(* Recorded density evaluations on a set through changes of its models.     *)
EXTENDS Pdf

Near4(got, want) == IAbs(got - want) <= 10 + want \div 80
JCall(s, a, o) ==
    IF Refused(s, a) THEN Must(o.exc # "", "refused")
    ELSE IF o.exc # "" THEN {"fails"}
    ELSE LET M == Asked(s, a)
             n == Len(a.x)
         IN IF a.do = "joint" /\ M.t = "voronoi"
            THEN Must(IsVec(o.q, n) /\ \A k \in 1..n : o.q.v[k] = CellDens(s, a.x[k]), "probability_per_volume_of_the_cell")
            ELSE Must(IsVec(o.v, n), "one_per_point")
                 \cup (IF ~IsVec(o.v, n) THEN {}
                       ELSE Must(\A k \in 1..n : Near4(o.v.v[k], IF a.do = "joint" THEN JointDens(s, M, a.x[k]) ELSE MargDens(s, M, a.i, a.x[k][a.i])),
                                 IF a.do = "joint" THEN "density" ELSE "marginal_density"))
JPdf(e) ==
    LET S == TLCEval(FoldLeft(LAMBDA acc, a : Append(acc, TLCEval(Apply(acc[Len(acc)], a))), <<e.s0>>, e.steps))
    IN IF ~NoExc(e.outs) THEN {"fails"}
       ELSE UNION {UNION {IF e.steps[k].do \in {"joint", "marg"} THEN JCall(S[k], e.steps[k], e.outs[r].res[k]) ELSE {} : k \in DOMAIN e.steps} : r \in DOMAIN e.outs}
=============================================================================
