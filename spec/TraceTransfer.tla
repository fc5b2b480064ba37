--------------------------- MODULE TraceTransfer ----------------------------
(* Recorded transfers of probability between sets against Measure.          *)
(* st: sequence of [dim, vals, part, p]; p = <<>> when it has none.         *)
EXTENDS Judge, Functions

Small(q) == q[2] <= 10000 /\ IAbs(q[1]) <= 30000
SameQ(w, g) == ~Small(w) \/ w = g
SameVec(want, a) == a.sh = <<Len(want)>> /\ \A i \in DOMAIN want : SameQ(want[i], a.v[i])

XferBad(st, e) == \/ \E k \in {e.a, e.b} \cup (IF e.c = 0 THEN {} ELSE {e.c}) : st[k].dim # st[e.a].dim
XferWant(st, e) ==
    LET old == st[e.a]
        new == st[e.b]
        nn == NumCells(new.part)
    IN IF e.do = "em"
       THEN TransferEmulated(nn, old.p, OwnerSeq(old.part, st[e.c].vals), OwnerSeq(new.part, st[e.c].vals))
       ELSE Aggregate(nn, OwnerSeq(new.part, old.vals), old.p)

JXfer(st, e) ==
    IF e.do = "new" THEN [st |-> e.pool, bad |-> {}]
    ELSE IF st = <<>> THEN [st |-> st, bad |-> {}]
    ELSE IF XferBad(st, e)
    THEN [st |-> st, bad |-> Must(\A r \in DOMAIN e.outs : e.outs[r].exc = "dim_not_matching", "not_refused")]
    ELSE IF st[e.a].p = <<>> /\ e.do = "disc"
    THEN [st |-> st, bad |-> Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "missing_probability_not_refused")]
    \* no emulated point in any cell of positive probability: nothing to move,
    \* the result and what is derived from it are unspecified
    ELSE IF e.do = "em" /\ \A x \in Range(OwnerSeq(st[e.a].part, st[e.c].vals)) : ~QLess(Zero, st[e.a].p[x + 1])
    THEN [st |-> <<>>, bad |-> {}]
    ELSE IF ~NoExc(e.outs) THEN [st |-> st, bad |-> {"raised"}]
    ELSE LET want == TLCEval(XferWant(st, e))
             t == [st EXCEPT ![e.b].p = want]
         IN [st |-> t,
             bad |-> UNION {Must(SameVec(want, e.outs[r].ret), "returned_probability")
                            \cup UNION {Must(t[k].p = <<>> \/ (IsNone(e.outs[r].pr[k]) /\ t[k].loc) \/ SameVec(t[k].p, e.outs[r].pr[k]), "probabilities")
                                        : k \in DOMAIN t} : r \in DOMAIN e.outs}
                     \cup Must(AllEq(e.outs, "ptype", "voronoi"), "prob_type")]
=============================================================================
