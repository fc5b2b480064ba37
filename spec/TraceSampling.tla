--------------------------- MODULE TraceSampling ----------------------------
(* Recorded samplings against Sampling.  Values in thousandths.             *)
EXTENDS Sampling, Judge

\* floor of the square root of small numbers
RECURSIVE RootFrom(_, _)
RootFrom(x, g) == IF (g + 1) * (g + 1) > x THEN g ELSE RootFrom(x, g + 1)
\* six standard deviations of a count of n with probability p/q, and a little
Dev(n, p, q) == 6 * (RootFrom((n * p * (q - p)) \div (q * q), 0) + 1) + 1
CountNear(c, n, p, q) == IAbs(c - (n * p) \div q) <= Dev(n, p, q)

Loc(e) == Cat(Field(e.outs, "loc"))
Col(a, d, i) == TLCEval([k \in 1..(Len(a.v) \div d) |-> a.v[(k - 1) * d + i]])
Below(c, x) == Cardinality({k \in DOMAIN c : c[k] < x})

\* the requested number in all, of the right dimension; one global set if asked
JNumber(e) ==
    LET a == TLCEval(Loc(e))
    IN IF ~IsMat(a, e.n, e.dim) THEN {"number_of_samples"}
       ELSE IF e.glob THEN Must(\A r \in DOMAIN e.outs : e.outs[r].glo = a, "global_is_all_parts")
       ELSE Must(\A r \in DOMAIN e.outs : IsNone(e.outs[r].glo), "not_globalised")
JRecord(e) ==
    Must(\A r \in DOMAIN e.outs : e.outs[r].ptype = e.ptype, "recorded_type")
    \cup Must(\A r \in DOMAIN e.outs : e.outs[r].pars = e.pars, "recorded_parameters")
    \cup Must(\A r \in DOMAIN e.outs : e.outs[r].dom = e.dom, "recorded_domain")

\* quartiles (thousandths) of the standard distributions
Quart(t) == CASE t = "uniform" -> <<250, 500, 750>>
              [] t = "norm" -> <<-674, 0, 674>>
              [] t = "expon" -> <<288, 693, 1386>>
              [] t = "beta" -> <<326, 500, 674>>           \* a = b = 2
\* loc and scale are halves
At(rv, x) == (1000 * rv.loc + rv.scale * x) \div 2
Inside(rv, c) == CASE rv.t \in {"uniform", "beta"} -> \A k \in DOMAIN c : c[k] >= At(rv, 0) - 1 /\ c[k] <= At(rv, 1000) + 1
                   [] rv.t = "expon" -> \A k \in DOMAIN c : c[k] >= At(rv, 0) - 1
                   [] OTHER -> TRUE
JRandom(e) ==
    LET a == TLCEval(Loc(e))
        c == TLCEval([i \in 1..e.dim |-> Col(a, e.dim, i)])
        h == TLCEval([i \in 1..e.dim |-> At(e.rv[i], Quart(e.rv[i].t)[2])])
    IN Must(\A i \in 1..e.dim : Inside(e.rv[i], c[i]), "inside_support")
       \cup Must(\A i \in 1..e.dim : \A q \in 1..3 :
                    CountNear(Below(c[i], At(e.rv[i], Quart(e.rv[i].t)[q])), e.n, q, 4), "quantiles")
       \cup Must(\A i, j \in 1..e.dim : i < j =>
                    CountNear(Cardinality({k \in 1..e.n : (c[i][k] < h[i]) = (c[j][k] < h[j])}), e.n, 1, 2), "independent")
       \cup Must(e.n >= 20 /\ e.n < 1000 => Cardinality({c[1][k] : k \in 1..e.n}) * 2 > e.n, "distinct")
\* e.nrm: n (v - lo) / width of the samples of all parts, thousandths
JLhs(e) ==
    LET a == TLCEval(Cat(Field(e.outs, "nrm")))
    IN IF ~IsMat(a, e.n, e.dim) THEN {"number_of_samples"}
       ELSE Must(\A i \in 1..e.dim : Latin(Col(a, e.dim, i)), "one_per_stratum")
            \cup Must(e.centred => \A i \in 1..e.dim : Centred(Col(a, e.dim, i)), "stratum_centres")
            \cup Must(e.n >= 12 /\ e.dim >= 2 => Sorted(Col(a, e.dim, 1)) = Col(a, e.dim, 1)
                        \/ Col(a, e.dim, 1) # Col(a, e.dim, 2), "strata_paired_at_random")
JGrid(e) ==
    LET a == TLCEval(Loc(e))
        g == TLCEval(GridPoints(e.box, e.per))
    IN IF e.n # Len(g) \/ ~IsMat(a, e.n, e.dim) THEN {"number_of_samples"}
       ELSE Must(\A k \in 1..e.n, i \in 1..e.dim :
                   IAbs(a.v[(k - 1) * e.dim + i] - QFix(g[k][i], 1000)) <= 1, "bin_centres")
            \cup Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "given_set_unchanged")
\* clusters around 20 c (thousandths 20000 c), spread s (tenths) in each coordinate
Home(x) == (x + 10000) \div 20000
JUpd(e) ==
    LET a == TLCEval(Loc(e))
        act == {c \in DOMAIN e.w : e.act[c]}
        tot == QSumOver(act, LAMBDA c : e.w[c])
        w == TLCEval([c \in DOMAIN e.w |-> IF e.act[c] THEN QDiv(e.w[c], tot) ELSE Zero])
        c1 == TLCEval([k \in 1..e.n |-> Home(a.v[(k - 1) * e.dim + 1])])
        cnt == TLCEval([c \in DOMAIN e.w |-> Cardinality({k \in 1..e.n : c1[k] = c})])
        z == TLCEval([i \in 1..e.dim |-> [k \in 1..e.n |-> a.v[(k - 1) * e.dim + i] - 20000 * c1[k]]])
    IN Must(\A k \in 1..e.n, i \in 1..e.dim : Home(a.v[(k - 1) * e.dim + i]) = c1[k], "coordinates_of_one_cluster")
       \cup Must(CountsOk(cnt, w, e.n), "share_of_each_cluster")
       \cup Must(\A i \in 1..e.dim : CountNear(Below(z[i], 0), e.n, 1, 2), "centred_on_cluster")
       \cup Must(e.kind = "gmm" => \A i \in 1..e.dim :
                    /\ CountNear(Below(z[i], -67 * e.s), e.n, 1, 4) /\ CountNear(Below(z[i], 67 * e.s), e.n, 3, 4), "spread_of_cluster")
       \* correlation 9/10: same side in 86 of 100
       \cup Must(e.kind = "gmm" /\ e.dim >= 2 => CountNear(Cardinality({k \in 1..e.n : (z[1][k] < 0) = (z[2][k] < 0)}), e.n, 86, 100),
                 "correlation_of_cluster")
       \cup Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "given_set_unchanged")
\* balls: nrm the p-norm over the radius (thousandths), val the coordinates over the radius
JBallS(e) ==
    LET a == TLCEval(Loc(e))
        x == TLCEval(Cat(Field(e.outs, "nrm")))
    IN IF ~IsMat(a, e.n, e.dim) \/ ~IsVec(x, e.n) THEN {"number_of_samples"}
       ELSE Must(e.kind # "normal" => \A k \in 1..e.n : x.v[k] >= 0 /\ x.v[k] <= 1001, "within_radius")
            \cup Must(\A i \in 1..e.dim : CountNear(Below(Col(a, e.dim, i), 0), e.n, 1, 2), "centred")
            \cup Must(e.kind = "unif" => CountNear(Below(x.v, 500), e.n, 1, 2 ^ e.dim), "uniform_in_ball")
            \cup Must(e.kind = "beta" /\ e.p = 2 /\ e.dim = 2 => CountNear(Below(x.v, 500), e.n, 1, 4), "beta_radius")
            \* the scale (tenths) of the p-th power; p = 2: half of it is the variance
            \cup Must(e.kind = "normal" /\ e.p = 1 => \A i \in 1..e.dim :
                        CountNear(Below(Col(a, e.dim, i), 693 * e.s), e.n, 3, 4), "laplace_quantiles")
            \cup Must(e.kind = "normal" /\ e.p = 2 => \A i \in 1..e.dim :
                        CountNear(Below(Col(a, e.dim, i), 477 * e.s), e.n, 3, 4), "normal_quantiles")
            \cup Must(\A i, j \in 1..e.dim : i < j => CountNear(Cardinality({k \in 1..e.n :
                        (a.v[(k - 1) * e.dim + i] < 0) = (a.v[(k - 1) * e.dim + j] < 0)}), e.n, 1, 2), "all_directions")

JSample(e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "refused")
    ELSE IF ~NoExc(e.outs) THEN {"fails"}
    ELSE IF e.call = "ball" THEN JBallS(e)
    ELSE LET b == TLCEval(JNumber(e) \cup JRecord(e))
         IN IF b # {} THEN b
            ELSE CASE e.call = "rand" -> JRandom(e)
                   [] e.call = "lhs" -> JLhs(e)
                   [] e.call = "grid" -> JGrid(e)
                   [] e.call = "upd" /\ e.kind = "rv" -> JRandom(e)
                   [] e.call = "upd" -> JUpd(e)
=============================================================================
