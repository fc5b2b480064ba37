----------------------------- MODULE SampleSet ------------------------------
(* A sample set as a distributed object: every per-sample array has a       *)
(* global view g (the same on all processes) and a local view l (one piece  *)
(* per process). The store is a sequence of sets; an operation maps a store *)
(* to the store, the value and the refusals it may answer with.             *)
EXTENDS Judge

Fields == <<"values", "volumes", "probabilities", "densities", "jacobians", "error_estimates", "right",
            "left", "width", "radii", "normalized_radii", "region", "error_id">>
FSet == {Fields[i] : i \in DOMAIN Fields}
\* an unspecified array: matches whatever the implementation holds
Wild == [sh |-> <<-9>>, v |-> <<>>]
NoFields == [f \in FSet |-> None]

\* quantities the set only carries (labels, cluster maps, weights, probability
\* models): canonical tokens, "~" when absent
OpqNames == {"labels", "cluster_maps", "weights", "weights_init", "prob_type_init", "prob_parameters", "prob_parameters_init"}
NoOpq == [f \in OpqNames |-> "~"]

NewSet(dim, cls, R) ==
    [cls |-> cls, dim |-> dim, p |-> QI(2), g |-> NoFields, l |-> [r \in 1..R |-> NoFields],
     li |-> [r \in 1..R |-> None], dom |-> None, domo |-> None, ref |-> None, bbox |-> None,
     ptype |-> "", label |-> "", opq |-> NoOpq, hid |-> NoFields, hidl |-> [r \in 1..R |-> NoFields]]

Ranks(s) == DOMAIN s.l
Present(s) == {f \in FSet : ~IsNone(s.g[f])}
PresentL(s) == {f \in FSet : ~IsNone(s.l[1][f])}
Consistent(s) == \A f, h \in Present(s) : Num(s.g[f]) = Num(s.g[h])
ConsistentL(s, r) == \A f, h \in PresentL(s) : Num(s.l[r][f]) = Num(s.l[r][h])
NumSet(s) == IF Present(s) # {} THEN Num(s.g[CHOOSE f \in Present(s) : TRUE])
             ELSE IF PresentL(s) # {}
             THEN ISum([r \in Ranks(s) |-> Num(s.l[r][CHOOSE f \in PresentL(s) : TRUE])]) ELSE 0
NumOk(s) == Consistent(s) /\ (Present(s) = {} => \A r \in Ranks(s) : ConsistentL(s, r))

\* distribute: consecutive blocks of every global array, in rank order
Distribute(s) ==
    LET R == Len(s.l)
    IN [s EXCEPT !.l = [r \in 1..R |-> [f \in FSet |->
                           IF IsNone(s.g[f]) THEN s.l[r][f] ELSE Part(s.g[f], R, r)]],
                 !.li = [r \in 1..R |-> LocalIndex(NumSet(s), R, r)]]
\* gather: concatenation of the pieces in rank order
Gather(s) ==
    [s EXCEPT !.g = [f \in FSet |->
         IF IsNone(s.l[1][f]) THEN s.g[f] ELSE ConcatAll([r \in Ranks(s) |-> s.l[r][f]])]]
\* gather what is only held locally
GatherMissing(s) ==
    [s EXCEPT !.g = [f \in FSet |->
         IF ~IsNone(s.g[f]) \/ IsNone(s.l[1][f]) THEN s.g[f]
         ELSE ConcatAll([r \in Ranks(s) |-> s.l[r][f]])]]

First(a, n) == IF IsNone(a) THEN a ELSE SliceRows(a, 1, IMin(n, Num(a)))
Clip(s, n) ==
    LET t == GatherMissing(s)
        c == [t EXCEPT !.g = [f \in FSet |-> First(t.g[f], n)]]
    IN IF ~IsNone(s.l[1]["values"]) THEN Distribute(c) ELSE c

\* ---- coordinate changes ------------------------------------------------
Lo(s, i) == s.dom.v[2 * i - 1]
Wid(dom, i) == QSub(dom.v[2 * i], dom.v[2 * i - 1])
Col(a, d, k) == ((k - 1) % d) + 1              \* last-axis index of flat entry k
AffFields == {"values", "left", "right"}
ToUnit(s, a) == IF IsNone(a) THEN a
    ELSE [sh |-> a.sh, v |-> TLCEval([k \in 1..Len(a.v) |->
            LET i == Col(a, s.dim, k) IN IF IsFin(a.v[k]) THEN QDiv(QSub(a.v[k], Lo(s, i)), Wid(s.dom, i)) ELSE a.v[k]])]
FromUnit(s, a) == IF IsNone(a) THEN a
    ELSE [sh |-> a.sh, v |-> TLCEval([k \in 1..Len(a.v) |->
            LET i == Col(a, s.dim, k) IN IF IsFin(a.v[k])
            THEN QAdd(QMul(a.v[k], Wid(s.domo, i)), s.domo.v[2 * i - 1]) ELSE a.v[k]])]
ScaleUp(s, a) == IF IsNone(a) THEN a
    ELSE [sh |-> a.sh, v |-> TLCEval([k \in 1..Len(a.v) |-> QMul(a.v[k], Wid(s.dom, Col(a, s.dim, k)))])]
ScaleDown(s, a) == IF IsNone(a) THEN a
    ELSE [sh |-> a.sh, v |-> TLCEval([k \in 1..Len(a.v) |-> QDiv(a.v[k], Wid(s.domo, Col(a, s.dim, k)))])]
NormMap(s, F) == [f \in FSet |-> IF f \in AffFields THEN ToUnit(s, F[f])
                                 ELSE IF f = "jacobians" THEN ScaleUp(s, F[f])
                                 ELSE IF f \in {"error_estimates", "width"} /\ ~IsNone(F[f]) THEN Wild ELSE F[f]]
UndoMap(s, F, H) == [f \in FSet |-> IF f \in AffFields THEN FromUnit(s, F[f])
                                 ELSE IF f = "jacobians" THEN ScaleDown(s, F[f])
                                 ELSE IF F[f] = Wild THEN H[f] ELSE F[f]]
UnitDom(d) == [sh |-> <<d, 2>>, v |-> FlattenSeq([i \in 1..d |-> <<Zero, One>>])]
Normalize(s) ==
    IF IsNone(s.dom) THEN s
    ELSE [s EXCEPT !.g = NormMap(s, @), !.l = [r \in Ranks(s) |-> NormMap(s, s.l[r])],
                   !.ref = ToUnit(s, @), !.domo = s.dom, !.dom = UnitDom(s.dim),
                   !.bbox = IF IsNone(@) THEN @ ELSE Wild,
                   !.hid = s.g, !.hidl = s.l]
Undo(s) ==
    IF IsNone(s.dom) \/ IsNone(s.domo) THEN s
    ELSE [s EXCEPT !.g = UndoMap(s, @, s.hid), !.l = [r \in Ranks(s) |-> UndoMap(s, s.l[r], s.hidl[r])],
                   !.ref = FromUnit(s, @), !.dom = s.domo, !.domo = None,
                   !.hid = NoFields, !.hidl = [r \in Ranks(s) |-> NoFields]]

\* every sample gets the domain as its bounds
Bounds(s, n) == LET lo == [i \in 1..s.dim |-> s.dom.v[2 * i - 1]]
                    hi == [i \in 1..s.dim |-> s.dom.v[2 * i]]
                    w == [i \in 1..s.dim |-> Wid(s.dom, i)]
                IN [left |-> Mat([k \in 1..n |-> lo], s.dim), right |-> Mat([k \in 1..n |-> hi], s.dim),
                    width |-> Mat([k \in 1..n |-> w], s.dim)]
PutBounds(F, b) == [f \in FSet |-> IF f \in {"left", "right", "width"} THEN b[f] ELSE F[f]]

BBox(s) == LET rows == Rows(s.g["values"])
           IN [sh |-> <<s.dim, 2>>,
               v |-> FlattenSeq([i \in 1..s.dim |->
                        <<QMinSeq([k \in DOMAIN rows |-> rows[k][i]]), QMaxSeq([k \in DOMAIN rows |-> rows[k][i]])>>])]

\* the samples of both sets, those of the same process together
MergeOk(a, b) == a.dim = b.dim /\ (~IsNone(a.dom) /\ ~IsNone(b.dom) => a.dom = b.dom)
MergeL(a, b) == LET x == IF IsNone(a.l[1]["values"]) THEN Distribute(a) ELSE a
                    y == IF IsNone(b.l[1]["values"]) THEN Distribute(b) ELSE b
                IN [x |-> x, y |-> y]
AllValues(s) == IF ~IsNone(s.g["values"]) THEN s.g["values"]
                ELSE ConcatAll([r \in Ranks(s) |-> s.l[r]["values"]])
SameBag(x, y) == /\ Len(x) = Len(y)
                 /\ \A i \in DOMAIN x : Cardinality({j \in DOMAIN x : x[j] = x[i]})
                                        = Cardinality({j \in DOMAIN y : y[j] = x[i]})

\* coordinates cols (0-based) of the last axis of a, rows kept
Pick(a, d, cols) == IF IsNone(a) THEN a
    ELSE LET k == Len(cols)
             m == Len(a.v) \div d
         IN [sh |-> Front(a.sh) \o <<k>>,
             v |-> TLCEval([t \in 1..(m * k) |-> a.v[((t - 1) \div k) * d + cols[((t - 1) % k) + 1] + 1]])]
PickRows(a, rows) == IF IsNone(a) THEN a
    ELSE [sh |-> <<Len(rows)>> \o Tail(a.sh), v |-> FlattenSeq([t \in DOMAIN rows |-> Row(a, rows[t] + 1)])]
\* Jacobians (n, outputs, inputs)
PickJac(a, outs, ins) == IF IsNone(a) THEN a
    ELSE LET o == a.sh[2]
             i == a.sh[3]
             m == Len(outs) * Len(ins)
         IN [sh |-> <<a.sh[1], Len(outs), Len(ins)>>,
             v |-> TLCEval([t \in 1..(a.sh[1] * m) |->
                      LET n == (t - 1) \div m
                          u == (t - 1) % m
                      IN a.v[n * o * i + outs[(u \div Len(ins)) + 1] * i + ins[(u % Len(ins)) + 1] + 1]])]

\* a set restricted to the coordinates cols; Jacobians (of an input set) to
\* the outputs jouts and the inputs cols
ChooseSet(s, cols, jouts) ==
    LET rest(F, isIn) == [f \in FSet |->
            IF f \in {"values", "error_estimates"} THEN Pick(F[f], s.dim, cols)
            ELSE IF f = "jacobians" /\ isIn THEN PickJac(F[f], jouts, cols) ELSE None]
        pickv(a) == IF IsNone(a) THEN a ELSE Vec([t \in DOMAIN cols |-> a.v[cols[t] + 1]])
    IN [NewSet(Len(cols), "sample_set", Len(s.l)) EXCEPT
          !.p = s.p, !.dom = PickRows(s.dom, cols), !.ref = pickv(s.ref),
          !.g = rest(s.g, TRUE), !.l = [r \in Ranks(s) |-> rest(s.l[r], TRUE)]]

\* ---- equality ------------------------------------------------------------
\* as seen by process r
View(s, r) == [cls |-> s.cls, dim |-> s.dim, p |-> s.p, g |-> s.g, l |-> s.l[r], li |-> s.li[r], dom |-> s.dom,
               domo |-> s.domo, ref |-> s.ref, bbox |-> s.bbox, ptype |-> s.ptype, label |-> s.label,
               opq |-> s.opq]
\* which parts of a recorded projection differ from the specification's view
EqA(w, got) == w = Wild \/ w = got
Diff(s, r, x) ==
    LET w == View(s, r)
    IN UNION {Must(EqA(w.g[f], x.g[f]), f) : f \in FSet}
       \cup UNION {Must(EqA(w.l[f], x.l[f]), f \o "_local") : f \in FSet}
       \cup Must(EqA(w.li, x.li), "local_index") \cup Must(w.dom = x.dom, "domain")
       \cup Must(w.domo = x.domo, "domain_original") \cup Must(w.ref = x.ref, "reference_value")
       \cup Must(EqA(w.bbox, x.bbox), "bounding_box") \cup Must(w.dim = x.dim, "dim")
       \cup Must(w.p = x.p, "p_norm") \cup Must(w.cls = x.cls, "class")
       \cup Must(w.ptype = x.ptype, "prob_type") \cup Must(w.label = x.label, "label")
       \cup UNION {Must(w.opq[f] = x.opq[f], f) : f \in OpqNames}

\* ---- operations ------------------------------------------------------------
Put(S, k, s) == [i \in 1..IMax(Len(S), k) |-> IF i = k THEN s ELSE S[i]]
Ok(S) == [S |-> S, exc |-> {}, ret |-> None]
Ret(S, x) == [S |-> S, exc |-> {}, ret |-> x]
Refuse(S, names) == [S |-> S, exc |-> names, ret |-> None]
Sc(q) == [sh |-> <<>>, v |-> <<q>>]

SetApply(S, e) ==
    CASE e.do = "new"  -> Ok(Put(S, e.a, NewSet(e.dim, e.cls, e.R)))
      [] e.do = "set"  -> Ok([S EXCEPT ![e.a].g[e.f] = e.x])
      [] e.do = "setl" -> Ok([S EXCEPT ![e.a].l = [r \in Ranks(S[e.a]) |-> [S[e.a].l[r] EXCEPT ![e.f] = e.xs[r]]]])
      [] e.do = "unset" -> Ok([S EXCEPT ![e.a].g[e.f] = None])
      [] e.do = "dom"  -> Ok([S EXCEPT ![e.a].dom = e.x])
      [] e.do = "ref"  -> IF e.x.sh = <<S[e.a].dim>> THEN Ok([S EXCEPT ![e.a].ref = e.x])
                          ELSE Refuse(S, {"dim_not_matching"})
      [] e.do = "p"    -> Ok([S EXCEPT ![e.a].p = e.x])
      [] e.do = "ptype" -> Ok([S EXCEPT ![e.a].ptype = e.x])
      [] e.do = "opq" -> Ok([S EXCEPT ![e.a].opq[e.f] = e.x])
      [] e.do = "label" -> Ok([S EXCEPT ![e.a].label = e.x])
      [] e.do = "g2l"  -> IF NumOk(S[e.a]) THEN Ok([S EXCEPT ![e.a] = Distribute(@)])
                          ELSE Refuse(S, {"length_not_matching"})
      [] e.do = "l2g"  -> Ok([S EXCEPT ![e.a] = Gather(@)])
      [] e.do = "num"  -> IF NumOk(S[e.a]) THEN Ret(S, Sc(QI(NumSet(S[e.a])))) ELSE Refuse(S, {"length_not_matching"})
      [] e.do = "clip" -> IF NumOk(S[e.a]) THEN Ok(Put(S, e.b, Clip(S[e.a], e.n)))
                          ELSE Refuse(S, {"length_not_matching"})
      [] e.do = "copy" -> Ok(Put(S, e.b, S[e.a]))
      [] e.do = "app"  -> Ok([S EXCEPT ![e.a].g[e.f] = ConcatRows(@, e.x)])
      [] e.do = "appl" -> Ok([S EXCEPT ![e.a].l = [r \in Ranks(S[e.a]) |->
                                [S[e.a].l[r] EXCEPT ![e.f] = ConcatRows(@, e.xs[r])]]])
      [] e.do = "qry" -> Ok(S)
      \* boxes and balls: the shapes and, last, everything else
      [] e.do = "rsetup" ->
             LET n == Len(e.left)
                 d == S[e.a].dim
                 mid(i) == [j \in 1..d |-> QDiv(QAdd(e.left[i][j], e.right[i][j]), QI(2))]
                 row(q) == <<[j \in 1..d |-> q]>>
             IN Ok([S EXCEPT ![e.a].g["values"] = Mat([i \in 1..n |-> mid(i)] \o row(Inf), d),
                             ![e.a].g["left"] = Mat(e.left \o row(NInf), d),
                             ![e.a].g["right"] = Mat(e.right \o row(Inf), d),
                             ![e.a].g["width"] = Mat([i \in 1..n |-> [j \in 1..d |-> QSub(e.right[i][j], e.left[i][j])]] \o row(Inf), d),
                             ![e.a].g["region"] = Vec([i \in 1..(n + 1) |-> QI(i - 1)])])
      [] e.do = "bsetup" ->
             LET n == Len(e.vals)
                 d == S[e.a].dim
             IN Ok([S EXCEPT ![e.a].g["values"] = Mat(e.vals \o <<[j \in 1..d |-> NaN]>>, d),
                             ![e.a].g["radii"] = Vec(e.rad \o <<Inf>>),
                             ![e.a].g["region"] = Vec([i \in 1..(n + 1) |-> QI(i - 1)])])
      [] e.do = "norm" -> Ok([S EXCEPT ![e.a] = Normalize(@)])
      [] e.do = "undo" -> Ok([S EXCEPT ![e.a] = Undo(@)])
      [] e.do = "bounds" -> Ok([S EXCEPT ![e.a].g = PutBounds(@, Bounds(S[e.a], Num(S[e.a].g["values"])))])
      [] e.do = "boundsl" -> Ok([S EXCEPT ![e.a].l = [r \in Ranks(S[e.a]) |->
                                PutBounds(S[e.a].l[r], Bounds(S[e.a], Num(S[e.a].l[r]["values"])))]])
      [] e.do = "bbox" -> LET b == IF IsNone(S[e.a].bbox) \/ S[e.a].bbox = Wild THEN BBox(S[e.a]) ELSE S[e.a].bbox
                          IN Ret([S EXCEPT ![e.a].bbox = b], b)
      [] e.do \in {"dg2l", "dl2g"} ->
             LET M == {e.m[i] : i \in DOMAIN e.m} \ {0}
             IN IF e.do = "dg2l" /\ \E k \in M : ~NumOk(S[k]) THEN Refuse(S, {"length_not_matching"})
                ELSE Ok([k \in DOMAIN S |-> IF k \in M THEN (IF e.do = "dg2l" THEN Distribute(S[k]) ELSE Gather(S[k])) ELSE S[k]])
      [] e.do = "dcopy" -> Ok(FoldLeft(LAMBDA acc, i : IF e.m[i] = 0 THEN acc ELSE Put(acc, e.o[i], S[e.m[i]]),
                                       S, [i \in DOMAIN e.m |-> i]))
      [] e.do = "dclip" -> Ok(FoldLeft(LAMBDA acc, i : IF e.m[i] = 0 \/ e.o[i] = 0 THEN acc
                                              ELSE Put(acc, e.o[i], IF i <= 2 THEN Clip(S[e.m[i]], e.n) ELSE S[e.m[i]]),
                                       S, [i \in DOMAIN e.m |-> i]))
      [] e.do = "dchoose" -> Ok(Put(Put(S, e.o[1], ChooseSet(S[e.m[1]], e.ins, e.outc)),
                                    e.o[2], ChooseSet(S[e.m[2]], e.outc, e.ins)))
      [] OTHER -> Refuse(S, {"unknown"})
=============================================================================
