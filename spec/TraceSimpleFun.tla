--------------------------- MODULE TraceSimpleFun ---------------------------
(* Recorded constructions of output probabilities against SimpleFun.        *)
(* Random bins and points are recorded in 1/500 of a unit, or finer.         *)
EXTENDS SimpleFun, TraceVolume

S500(q) == QFix(q, 500)
Rect(e) == IF e.form = "size" THEN RectSize(e.ref, e.size)
           ELSE IF e.form = "scaled" THEN RectScaled(e.ref, e.size, e.vals)
           ELSE RectDomain(e.lo, e.hi)
Boxes(o) == {<<Row(o.left, i), Row(o.right, i)>> : i \in 1..Num(o.left)}
JRegular(e) ==
    LET R == TLCEval(Rect(e))
        d == Len(R)
        o == e.outs[1]
        N == IProd(e.cells)
    IN IF ~IsMat(o.left, N, d) \/ ~IsMat(o.right, N, d) THEN {"number_of_bins"}
       ELSE Must(Boxes(o) = GridBoxes(R, e.cells), "bins")
            \cup Must(o.prob = Vec(RegularProb(N)), "bin_probability")
            \cup Must(\A r \in DOMAIN e.outs : e.outs[r].prob = o.prob /\ e.outs[r].left = o.left, "same_on_all")
            \cup Must(e.holder # "disc" \/
                      Cat(Field(e.outs, "ptr")) =
                        Vec(OwnerSeq([kind |-> "rect", left |-> Rows(o.left), right |-> Rows(o.right)], e.vals)), "pointers")
\* owners of the data among bins known to 1/500, up to that accuracy
PtrOk(vals, ptr, bins) ==
    LET x == TLCEval([k \in DOMAIN vals |-> [i \in DOMAIN vals[k] |-> S500(vals[k][i])]])
    IN IsVec(ptr, Len(vals)) /\ \A k \in DOMAIN x :
         /\ ptr.v[k] \in 0..(Len(bins) - 1)
         /\ LET D == TLCEval([i \in DOMAIN bins |-> Sqrt(D2(x[k], bins[i]))])
            IN D[ptr.v[k] + 1] <= Min({D[i] : i \in DOMAIN D}) + 6
\* bins' generating points and the quadrature points, in 1/e.unit
SU(e, q) == QFix(q, e.unit)
\* bins whose points agree to the accuracy of the recording cannot be told apart
Alone(bins, k) == \A j \in DOMAIN bins \ {k} : \E i \in DOMAIN bins[k] : IAbs(bins[j][i] - bins[k][i]) > 3
\* half width of the region of the bins' generating points, and of its central half
Reach(e, i) == IF e.call = "us" THEN LET r == Rect(e)[i] IN (3 * SU(e, QSub(r[2], r[1]))) \div 4
               ELSE IF e.call = "un" THEN 2 * SU(e, e.std[i]) ELSE 100000
Inner(e, i) == IF e.call = "us" THEN Reach(e, i) \div 2
               ELSE IF e.call = "un" THEN SU(e, e.std[i]) ELSE (6745 * SU(e, e.std[i])) \div 10000
Centre(e, i) == IF e.call = "us" /\ e.form = "domain" THEN SU(e, QDiv(QAdd(e.lo[i], e.hi[i]), QI(2))) ELSE SU(e, e.ref[i])
Points(e, d) ==
    IF e.call = "us"
    THEN LET R == Rect(e) IN Tensor([i \in 1..d |-> UniformLine(SU(e, R[i][1]), SU(e, QSub(R[i][2], R[i][1])), Levels(d))])
    ELSE Tensor([i \in 1..d |-> NormalLine(SU(e, e.ref[i]), SU(e, e.std[i]), d)])
QuadErr(d) == IF d = 1 THEN 110 ELSE IF d = 2 THEN 600 ELSE 1000
JRandomBins(e) ==
    LET o == e.outs[1]
        d == e.dim
    IN IF ~IsMat(o.valf, e.M, d) \/ ~IsMat(o.valg, e.M, d) \/ ~IsVec(o.cnt, e.M) THEN {"number_of_bins"}
       ELSE LET bins == TLCEval([k \in 1..e.M |-> Row(o.valg, k)])
                coarse == TLCEval([k \in 1..e.M |-> Row(o.valf, k)])
            IN Must(\A r \in DOMAIN e.outs : e.outs[r].valg = o.valg /\ e.outs[r].cnt = o.cnt, "same_on_all")
               \cup Must(\A k \in 1..e.M : \A i \in 1..d : IAbs(bins[k][i] - Centre(e, i)) <= Reach(e, i) + 3, "region_of_bins")
               \cup Must(\A k \in 1..e.M : o.cnt.v[k] >= 0, "multiple_of_one_over_n")
               \cup Must(ISum(o.cnt.v) = e.n, "counts_every_point_once")
               \cup Must(e.M >= 100 => \A i \in 1..d :
                    /\ IAbs(2 * Cardinality({k \in 1..e.M : bins[k][i] < Centre(e, i)}) - e.M) <= 6 * Sqrt(e.M) + 6
                    /\ IAbs(2 * Cardinality({k \in 1..e.M : IAbs(bins[k][i] - Centre(e, i)) < Inner(e, i)}) - e.M)
                         <= 6 * Sqrt(e.M) + 6, "layout_of_bins")
               \cup Must(e.n >= 1000 => LET m == TLCEval(QuadMass(bins, Points(e, d)))
                                        IN \A k \in {x \in 1..e.M : Alone(bins, x)} : Near(o.probf.v[k], m[k], Sigma6(m[k], e.n) + QuadErr(d)), "bin_probability")
               \cup Must(e.holder # "disc" \/ PtrOk(e.vals, Cat(Field(e.outs, "ptr")), coarse), "pointers")
\* every datum points to itself, or to another bin at the same place
SameSample(vals, ptr) == IsVec(ptr, Len(vals)) /\ \A i \in DOMAIN vals :
    ptr.v[i] \in 0..(Len(vals) - 1) /\ vals[ptr.v[i] + 1] = vals[i]
JData(e) ==
    LET n == Len(e.vals)
    IN Must(AllEq(e.outs, "val", Mat(e.vals, e.dim)), "bins")
       \cup Must(AllEq(e.outs, "prob", Vec([i \in 1..n |-> Q(1, n)])), "bin_probability")
       \cup Must(e.outs[1].ptr.sh = <<-1>> \/ SameSample(e.vals, Cat(Field(e.outs, "ptr"))), "pointers")
JUser(e) ==
    LET P == [kind |-> "vor", p |-> "2", vals |-> e.bins]
        pts == FlattenSeq(e.distr)
    IN Must(AllEq(e.outs, "val", Mat(e.bins, e.dim)), "bins")
       \cup Must(AllEq(e.outs, "prob", Vec(EmulatedVol(Len(e.bins), OwnerSeq(P, pts)))), "bin_probability")
       \cup Must(e.outs[1].ptr.sh = <<-1>> \/ Cat(Field(e.outs, "ptr")) = Vec(OwnerSeq(P, e.vals)), "pointers")
JSimple(e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "must_refuse")
                  \cup Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "refusal_keeps_discretization")
    ELSE IF ~NoExc(e.outs) THEN {"raised"}
    ELSE Must(\A r \in DOMAIN e.outs : e.outs[r].odim = e.dim, "dimension")
         \cup Must(e.holder = "disc" => \A r \in DOMAIN e.outs : e.outs[r].isout, "becomes_output_probability_set")
         \cup Must(\A r \in DOMAIN e.outs : e.outs[r].datakept, "data_unchanged")
         \cup CASE e.call = "rs" -> JRegular(e)
                [] e.call = "ds" -> JData(e)
                [] e.call = "user" -> JUser(e)
                [] OTHER -> JRandomBins(e)
=============================================================================
