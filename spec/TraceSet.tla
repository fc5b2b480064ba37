------------------------------ MODULE TraceSet ------------------------------
(* Recorded operations on sample sets against SampleSet.                    *)
EXTENDS SampleSet, TraceMeasure

StoreDiff(S, outs) ==
    UNION {UNION {IF k <= Len(outs[r].sets) THEN Diff(S[k], r, outs[r].sets[k]) ELSE {"missing_set"}
                  : k \in DOMAIN S} : r \in DOMAIN outs}
ArgsKept(outs) == Must(\A r \in DOMAIN outs : outs[r].argok, "caller_array_modified")

\* merge: the result joins the samples; the operands may get distributed
JMerge(S, e) ==
    LET a == S[e.a]
        b == S[e.b]
        d == MergeL(a, b)
        res == [r \in DOMAIN e.outs |-> IF e.c <= Len(e.outs[r].sets) THEN e.outs[r].sets[e.c] ELSE e.outs[r].sets[1]]
        got == res[1].g["values"]
        operand(k, u, v) == UNION {LET x == Diff(u, r, e.outs[r].sets[k])
                                       y == Diff(v, r, e.outs[r].sets[k])
                                   IN IF x = {} \/ y = {} THEN {} ELSE x : r \in DOMAIN e.outs}
        nd == IF ~IsNone(a.dom) THEN a.dom ELSE b.dom
    IN IF ~MergeOk(a, b)
       THEN [st |-> S, bad |-> Must(\A r \in DOMAIN e.outs : e.outs[r].exc \in {"dim_not_matching", "domain_not_matching"}, "not_refused")
                               \cup StoreDiff(S, e.outs)]
       ELSE IF ~NoExc(e.outs) THEN [st |-> S, bad |-> {"raised"}]
       ELSE IF ~(\A r \in DOMAIN e.outs : Len(res[r].g["values"].sh) = 2 /\ res[r].g["values"] = got)
       THEN [st |-> S, bad |-> {"merged_values"}]
       ELSE [st |-> Put([S EXCEPT ![e.a] = d.x, ![e.b] = d.y], e.c,
                        [NewSet(a.dim, res[1].cls, Len(e.outs)) EXCEPT
                           !.dom = nd, !.p = res[1].p,
                           !.g = [f \in FSet |-> res[1].g[f]],
                           !.l = [r \in DOMAIN e.outs |-> [f \in FSet |-> res[r].l[f]]],
                           !.li = [r \in DOMAIN e.outs |-> res[r].li]]),
             bad |-> Must(SameBag(Rows(got), Rows(AllValues(a)) \o Rows(AllValues(b))), "merged_samples")
                     \cup Must(Cat(Field([r \in DOMAIN e.outs |-> res[r].l], "values")) = got, "merged_local")
                     \cup Must(\A r \in DOMAIN e.outs : res[r].dom = nd, "merged_domain")
                     \cup Must(\A r \in DOMAIN e.outs : res[r].dim = a.dim, "merged_dim")
                     \cup operand(e.a, a, d.x) \cup operand(e.b, b, d.y)]

JEq(S, e) ==
    LET want == [r \in DOMAIN e.outs |-> View(S[e.a], r) = View(S[e.b], r)]
    IN IF S[e.a].cls # S[e.b].cls
       THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc = "TypeError", "different_class_not_refused")
       ELSE IF ~NoExc(e.outs) THEN {"comparison_failed"}
       ELSE Must(\A r \in DOMAIN e.outs : e.outs[r].ret = Sc(IF want[r] THEN One ELSE Zero), "equality")
            \cup StoreDiff(S, e.outs)

\* discretization merge: input and output rows stay paired
ZipRows(a, b) == [i \in 1..Num(a) |-> <<Row(a, i), Row(b, i)>>]
JDMerge(S, e) ==
    LET got(k) == e.outs[1].sets[e.o[k]].g["values"]
        all(m, k) == AllValues(S[m[k]])
        pair(i, j, c) ==
            IF e.m[i] = 0 THEN {}
            ELSE IF ~(got(i).sh[1] = got(j).sh[1] /\ Len(got(i).sh) = 2 /\ Len(got(j).sh) = 2) THEN {c}
            ELSE Must(SameBag(ZipRows(got(i), got(j)),
                              ZipRows(all(e.m, i), all(e.m, j)) \o ZipRows(all(e.m2, i), all(e.m2, j))), c)
    IN IF ~NoExc(e.outs) THEN [st |-> S, bad |-> {"raised"}]
       ELSE [st |-> S,
             bad |-> pair(1, 2, "merged_pairs") \cup pair(4, 4, "merged_emulated_inputs") \cup pair(5, 5, "merged_emulated_outputs")
                     \cup Must(\A r \in DOMAIN e.outs : \A k \in 1..2 : e.outs[r].sets[e.o[k]].g["values"] = got(k), "merged_alike")
                     \cup Must(\A k \in {e.m[i] : i \in DOMAIN e.m} \cup {e.m2[i] : i \in DOMAIN e.m2} : k = 0 \/
                             \A r \in DOMAIN e.outs : Diff(S[k], r, e.outs[r].sets[k]) = {}
                                                     \/ Diff(Distribute(S[k]), r, e.outs[r].sets[k]) = {}, "operand_changed")
                     \cup ArgsKept(e.outs)]
JDEq(S, e) ==
    LET mem(i, r) == IF e.m[i] = 0 \/ e.m2[i] = 0 THEN e.m[i] = e.m2[i]
                     ELSE S[e.m[i]].cls = S[e.m2[i]].cls /\ View(S[e.m[i]], r) = View(S[e.m2[i]], r)
        want == [r \in DOMAIN e.outs |-> (\A i \in DOMAIN e.m : mem(i, r)) /\ e.p1 = e.p2]
    IN IF ~NoExc(e.outs) THEN {"comparison_failed"}
       ELSE Must(\A r \in DOMAIN e.outs : e.outs[r].ret = Sc(IF want[r] THEN One ELSE Zero), "equality")
            \cup StoreDiff(S, e.outs)

\* the cells a set currently has
PName(p) == IF p = Inf THEN "inf" ELSE IF p = One THEN "1" ELSE "2"
CellsOf(s) ==
    LET n == Num(s.g["values"])
    IN IF s.cls \in {"rectangle_sample_set", "cartesian_sample_set"}
       THEN [kind |-> "rect", left |-> Front(Rows(s.g["left"])), right |-> Front(Rows(s.g["right"]))]
       ELSE IF s.cls = "ball_sample_set"
       THEN [kind |-> "ball", p |-> PName(s.p), vals |-> Front(Rows(s.g["values"])), rad |-> Front(s.g["radii"].v)]
       ELSE [kind |-> "vor", p |-> PName(s.p), vals |-> Rows(s.g["values"])]
SmallQ(q) == q[2] <= 10000 /\ IAbs(q[1]) <= 30000
JQuery(S, e) ==
    LET P == TLCEval(CellsOf(S[e.a]))
        m == Len(e.pts)
        shape == IF e.k = 1 THEN <<m>> ELSE <<m, e.k>>
        at(o, i) == SubSeq(o.ptr.v, (i - 1) * e.k + 1, i * e.k)
        dist(o, i) == SubSeq(o.dist.v, (i - 1) * e.k + 1, i * e.k)
        okd(x, c, d) == IF P.kind = "vor"
                        THEN LET w == DistP(P.p, x, P.vals[c + 1]) IN ~SmallQ(w) \/ w = d
                        ELSE d = IF c = NumCells(P) - 1 THEN Inf ELSE Zero
    IN IF ~NoExc(e.outs) THEN {"raised"}
       ELSE IF ~(\A r \in DOMAIN e.outs : e.outs[r].ptr.sh = shape /\ e.outs[r].dist.sh = shape) THEN {"answer_shape"}
       ELSE UNION {UNION {
              IF P.kind = "vor"
              THEN IF KNearestOk(P, e.pts[i], at(e.outs[r], i))
                   THEN Must(\A j \in 1..e.k : okd(e.pts[i], at(e.outs[r], i)[j], dist(e.outs[r], i)[j]), "distance")
                   ELSE {"nearest"}
              ELSE IF at(e.outs[r], i) = KContaining(P, e.pts[i], e.k)
                   THEN Must(\A j \in 1..e.k : okd(e.pts[i], at(e.outs[r], i)[j], dist(e.outs[r], i)[j]), "distance")
                   ELSE {"containing"}
              : i \in 1..m} : r \in DOMAIN e.outs}
            \cup StoreDiff(S, e.outs)

\* the gathering helper: parts in the order of the processes
JGather(e) == IF ~NoExc(e.outs) THEN {"raised"}
              ELSE Must(\A r \in DOMAIN e.outs : e.outs[r].ret = Cat(e.xs), "parts_in_process_order") \cup ArgsKept(e.outs)
\* a process whose own part does not fit refuses; one whose part fits may be left without partners
RefusedBy(outs, exc) == /\ \E r \in DOMAIN outs : outs[r].exc \in exc
                      /\ \A r \in DOMAIN outs : outs[r].exc \in exc \cup {"SimMPIError"}
JSet(S, e) ==
    IF e.do = "query" THEN [st |-> S, bad |-> JQuery(S, e)] ELSE
    IF e.do = "merge" THEN JMerge(S, e)
    ELSE IF e.do = "dmerge" THEN JDMerge(S, e)
    ELSE IF e.do = "deq" THEN [st |-> S, bad |-> JDEq(S, e)]
    ELSE IF e.do = "eq" THEN [st |-> S, bad |-> JEq(S, e) \cup ArgsKept(e.outs)]
    ELSE LET w == SetApply(S, e)
         IN IF w.exc # {}
            THEN [st |-> S, bad |-> Must(RefusedBy(e.outs, w.exc), "not_refused")
                                    \cup StoreDiff(S, e.outs)]
            ELSE IF ~NoExc(e.outs) THEN [st |-> S, bad |-> {"raised"}]
            ELSE [st |-> w.S, bad |-> StoreDiff(w.S, e.outs) \cup ArgsKept(e.outs)
                     \cup Must(w.ret = None \/ \A r \in DOMAIN e.outs : e.outs[r].ret = w.ret, "answer")]
=============================================================================
