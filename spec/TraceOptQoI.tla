---------------------------- MODULE TraceOptQoI -----------------------------
(* Recorded choices of quantities of interest against OptQoI.               *)
EXTENDS OptQoI

Near2(a, b) == (a >= Huge /\ b >= Huge) \/ (a < Huge /\ b < Huge /\ IAbs(a - b) <= 4 + b \div 120)
\* singular values sv (1/10000) of the rows s of G
SingOk(G, s, sv) ==
    LET k == Len(s)
        M == TLCEval(Gram(G, s))
        t == TLCEval([i \in 1..k |-> sv[i] \div 10])                       \* 1/1000
        tr == ISum([i \in 1..k |-> M[i][i]])
        pr == FoldLeft(LAMBDA a, b : (a * b) \div 1000, 1000, t)
        h == TLCEval([i \in 1..k |-> (t[i] * t[i]) \div 10000])            \* squares in 1/100
        e2 == ISumOver({<<i, j>> \in (1..k) \X (1..k) : i < j}, LAMBDA p : (h[p[1]] * h[p[2]]) \div 100)
        m2 == ISumOver({<<i, j>> \in (1..k) \X (1..k) : i < j}, LAMBDA p : M[p[1]][p[1]] * M[p[2]][p[2]] - M[p[1]][p[2]] * M[p[1]][p[2]])
    IN /\ \A i \in 1..k : sv[i] >= 0 /\ sv[i] < 100000
       /\ \A i \in 1..(k - 1) : sv[i] >= sv[i + 1]
       /\ IAbs(ISum([i \in 1..k |-> t[i] * t[i]]) - tr * 1000000) <= 60000
       /\ IAbs(pr - SqrtM(Det3(M))) <= 80 + pr \div 60
       /\ k < 3 \/ IAbs(e2 - m2 * 100) <= 300 + e2 \div 50
\* data of one centre for the set s: sd a sequence
DataOk(G, s, which, sd) ==
    IF Vol2(G, s) = 0 THEN TRUE
    ELSE IF which = "skew" THEN \A i \in DOMAIN s : sd[i] < Huge /\ Near2(sd[i] \div 10, SkewOf(G, s, i))
    ELSE SingOk(G, s, sd)
JAvg(e) ==
    LET o == e.outs[1]
        s == e.s
        k == Len(s)
        nc == Len(e.G)
        want == CASE e.which = "measure" -> AvgMeasure(e.G, s, e.bm)
                  [] e.which = "skew" -> AvgSkew(e.G, s)
                  [] OTHER -> HMean(TLCEval([c \in 1..nc |-> IF Vol2(e.G[c], s) = 0 \/ o.data.v[(c - 1) * k + 1] > 1000000 THEN Huge ELSE (o.data.v[(c - 1) * k + 1] * 1000) \div IMax(1, o.data.v[c * k])]))
    IN IF o.data.sh # <<nc, k>> THEN {"singular_data"}
       ELSE Must(\A c \in 1..nc : DataOk(e.G[c], s, e.which, SubSeq(o.data.v, (c - 1) * k + 1, c * k)), "singular_data")
            \cup Must(Near2(o.val, want), "average")
            \cup Must(\A r \in DOMAIN e.outs : e.outs[r].val = o.val, "same_on_all_processes")
Seq1(a) == [i \in DOMAIN a.v |-> a.v[i] + 1]
JUniq(e) ==
    LET u == e.outs[1].u
    IN IF Len(u.sh) # 1 THEN {"remaining_quantities"}
       ELSE IF ~(Range(Seq1(u)) \subseteq Range(e.I)) THEN {"quantities_asked_for"}
       ELSE Must(Cardinality(Range(u.v)) = Len(u.v) /\ Remains(e.G, Range(e.I), Range(Seq1(u)), e.tol, e.rz), "remaining_quantities")
            \cup Must(\A r \in DOMAIN e.outs : e.outs[r].u = u, "same_on_all_processes")
\* one table of best sets: m (n x k+1, 1/1000), d (centres x k x n, 1/10000), of the admissible sets A
TableOk(Gs, A, measure, n, k, m, d) ==
    IF m.sh # <<n, k + 1>> THEN {"table_shape"}
    ELSE IF d.sh # <<Len(Gs), k, n>> THEN {"singular_data_shape"}
    ELSE LET V(i) == m.v[(i - 1) * (k + 1) + 1]
             E(i, j) == m.v[(i - 1) * (k + 1) + 1 + j]
             Whole(i) == \A j \in 1..k : E(i, j) % 1000 = 0
             S(i) == {(E(i, j) \div 1000) + 1 : j \in 1..k}
             s(i) == [j \in 1..k |-> (E(i, j) \div 1000) + 1]
             As == TLCEval(SetToSeq(A))
             val == TLCEval([q \in DOMAIN As |-> TLCEval(Value(Gs, AscSeq(As[q]), measure))])
             vals == TLCEval(Sorted(val))
             Of(X) == val[CHOOSE q \in DOMAIN As : As[q] = X]
             Fin == {i \in 1..n : V(i) < Huge}
             W(i) == IF i <= Len(vals) THEN vals[i] ELSE Huge
         IN Must(\A i \in 1..(n - 1) : V(i) <= V(i + 1), "sorted")
            \cup Must(\A i \in 1..n : Near2(V(i), W(i)), "smallest_values")
            \cup (IF \E i \in Fin : ~Whole(i) \/ S(i) \notin A THEN {"admissible_sets"}
                  ELSE Must(\A i \in Fin : Near2(V(i), Of(S(i))), "set_attains_value")
                       \cup Must(\A i, j \in Fin : i # j => S(i) # S(j), "no_set_twice")
                       \cup Must(\A i \in Fin : \A c \in DOMAIN Gs :
                                   DataOk(Gs[c], s(i), IF measure THEN "measure" ELSE "skew", [j \in 1..k |-> d.v[(c - 1) * k * n + (j - 1) * n + i]]), "matching_singular_data"))
JBest(e) ==
    LET o == e.outs[1]
        K == TLCEval(Range(Seq1(o.u)))
    IN IF JUniq(e) # {} THEN JUniq(e) ELSE
       TableOk(e.G, TLCEval(Subsets(K, e.k)), e.measure, e.n, e.k, o.m, o.d)
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].m = o.m /\ e.outs[r].d = o.d, "same_on_all_processes")
       \cup Must(e.brief => o.m = o.m2, "brief_form")
JLarge(e) ==
    LET o == e.outs[1]
        K == TLCEval(Range(Seq1(o.u)))
    IN IF JUniq(e) # {} THEN JUniq(e) ELSE
       (IF Len(o.ms) # e.k - 1 \/ Len(o.ds) # e.k - 1 THEN {"one_table_per_size"}
             ELSE UNION {TableOk(e.G, TLCEval(Grown(e.G, K, q, e.mtol, e.measure)), e.measure, e.n, q, o.ms[q - 1], o.ds[q - 1]) : q \in 2..e.k})
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].ms = o.ms /\ e.outs[r].ds = o.ds, "same_on_all_processes")
JOpt(e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "refused")
    ELSE IF ~NoExc(e.outs) THEN {"fails"}
    ELSE CASE e.do = "avg" -> JAvg(e)
           [] e.do = "uniq" -> JUniq(e)
           [] e.do = "best" -> JBest(e)
           [] e.do = "large" -> JLarge(e)
=============================================================================
