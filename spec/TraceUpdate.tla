----------------------------- MODULE TraceUpdate ----------------------------
(* Recorded density-based inversions against Update.  The recorded ratios   *)
(* are judged against the kernel estimates, everything built from them      *)
(* against the recorded ratios (rn: scaled so that the largest is 20000).   *)
EXTENDS Update, TLCExt

Cl(e) == DOMAIN e.pred
NearU(x, y, tol) == IAbs(x - y) <= tol
\* every process reports the same
SameAll(e) == Must(\A r \in DOMAIN e.outs : e.outs[r].tok = e.outs[1].tok, "same_on_all")
JRatios(e) ==
    LET o == e.outs[1]
    IN IF Len(o.r) # Len(e.pred) \/ Len(o.lam) # Len(e.pred) THEN {"number_of_clusters"}
       ELSE Must(\A i \in Cl(e) : o.lam[i] = Vec(e.idx[i]), "cluster_members")
            \cup Must(\A i \in Cl(e) : Active(e, i) => IsVec(o.r[i], Len(e.pred[i])), "ratio_shape")
            \cup UNION {IF Active(e, i) /\ IsVec(o.r[i], Len(e.pred[i]))
                        THEN LET w == Ratios(e, i)
                             IN Must(\A k \in DOMAIN w : NearU(o.r[i].v[k], w[k], 60 + w[k] \div 50), "observed_over_predicted")
                        ELSE {} : i \in Cl(e)}
            \* the weights recorded with the samples are the ratios
            \cup Must(IsVec(o.weights, e.n) /\
                      \A i \in Cl(e) : \A k \in DOMAIN e.idx[i] :
                         o.weights.v[e.idx[i][k] + 1] = (IF Active(e, i) THEN o.r[i].v[k] ELSE 0), "weights_of_samples")
            \cup Must(\A i \in Cl(e) : Active(e, i) /\ IsVec(o.r[i], Len(e.pred[i])) =>
                         NearU(o.rs[i], ISum(o.r[i].v) \div Len(e.pred[i]), 4), "mean_ratio")
JWeights(e, cw) == Must(cw = Vec([i \in Cl(e) |-> ClusterWeight(e, i)]), "cluster_weights")
\* input rows (quarters) of a cluster
Inp(e, i) == [k \in DOMAIN e.idx[i] |-> e.inq[e.idx[i][k] + 1]]
\* a density model built from weights that all vanish is undefined
Pos(e, i) == Active(e, i) /\ \E k \in DOMAIN e.outs[1].rn[i] : e.outs[1].rn[i][k] > 200
JMoments(m, c, x, w) ==
    LET d == Len(x[1])
    IN IF ~IsVec(m, d) \/ ~IsMat(c, d, d) THEN {"moment_shape"}
       ELSE Must(\A i \in 1..d : NearU(m.v[i], Mom1(x, w, i), 12), "mean")
            \cup Must(\A i, j \in 1..d : NearU(c.v[(i - 1) * d + j], Mom2(x, w, i, j), 200), "covariance")
JGmm(e) ==
    LET o == e.outs[1]
    IN IF Len(o.means) # Len(e.pred) \/ Len(o.covs) # Len(e.pred) THEN {"number_of_clusters"}
       ELSE JWeights(e, o.cw) \cup
            UNION {IF Pos(e, i) THEN JMoments(o.means[i], o.covs[i], Inp(e, i), o.rn[i]) ELSE {} : i \in Cl(e)}
\* all samples, weighted by ratio times share of observations (order of idx)
AllIdx(e) == FlattenSeq([i \in Cl(e) |-> e.idx[i]])
AllRows(e) == LET ix == AllIdx(e) IN [k \in DOMAIN ix |-> e.inq[ix[k] + 1]]
JGauss(e) ==
    LET o == e.outs[1]
        x == TLCEval(AllRows(e))
    IN IF Len(o.means) # 1 \/ Len(o.covs) # 1 THEN {"one_gaussian"}
       ELSE Must(o.cw = Vec(<<One>>), "cluster_weights") \cup JMoments(o.means[1], o.covs[1], x, o.tw)
\* effective number of samples of integer weights, in 1/100
Effective(w) == LET big == Max({w[k] : k \in DOMAIN w})
                    v == [k \in DOMAIN w |-> (w[k] * 300) \div big]
                IN (100 * ISum(v) * ISum(v)) \div ISum([k \in DOMAIN v |-> v[k] * v[k]])
JKde(e) ==
    LET o == e.outs[1]
        d == Len(e.inq[1])
    IN IF Len(o.kdes) # d \/ \E a \in 1..d : Len(o.kdes[a]) # Len(e.pred) THEN {"number_of_marginals"}
       ELSE JWeights(e, o.cw) \cup
            UNION {UNION {
                LET k == o.kdes[a][i]
                IN IF ~Pos(e, i) THEN {}
                   ELSE Must(k.ds = Vec([j \in DOMAIN e.idx[i] |-> Q(e.inq[e.idx[i][j] + 1][a], 4)]), "kernel_samples")
                        \cup Must(IsVec(k.w, Len(e.idx[i])) /\ \A j \in DOMAIN e.idx[i] :
                                NearU(k.w.v[j], (o.rn[i][j] * 10000) \div ISum(o.rn[i]), 3), "kernel_weights")
                        \* the bandwidth asked for, else Scott's for the effective number of samples
                        \cup Must(IF e.bw # 0 THEN NearU(k.f2, e.bw, 2)
                                  ELSE LET n == Effective(o.rn[i]) IN NearU(k.f5 \div 10, n, 4 + n \div 60), "kernel_bandwidth")
                : i \in Cl(e)} : a \in 1..d}
\* fitted normal / uniform variables of the reweighted samples
JRv(e) ==
    LET o == e.outs[1]
        x == TLCEval(AllRows(e))
        T == ISum(o.tw)
        \* a sample is repeated round(N w / T) times
        sure == {k \in DOMAIN x : 2 * o.tw[k] * e.nrw > T + T \div 20 + e.nrw}
        mayb == {k \in DOMAIN x : 2 * o.tw[k] * e.nrw + T \div 20 + e.nrw >= T}
    IN IF Len(o.rv) # Len(e.rvs) THEN {"number_of_variables"}
       ELSE UNION {
            LET p == o.rv[a]
                m == Mom1(x, o.tw, a)
                v == Mom2(x, o.tw, a, a)
                lo(S) == Min({x[k][a] : k \in S})
                hi(S) == Max({x[k][a] : k \in S})
            IN Must(p.name = e.rvs[a], "variable_type")
               \* what the caller fixed stays
               \cup Must(/\ e.fix[a].loc # 99 => p.loc = 1000 * e.fix[a].loc
                         /\ p.a = 1000 * e.fix[a].a /\ p.b = 1000 * e.fix[a].b, "fixed_parameters")
               \cup IF e.rvs[a] = "norm" /\ e.fix[a].loc # 99
                    THEN LET u == m - 1000 * e.fix[a].loc
                         IN Must(NearU(p.scale, SqrtI(IMax(v + (u * u) \div 1000, 0) * 1000), 90 + 60000 \div e.nrw), "fit")
                    ELSE IF e.rvs[a] = "gamma"
                    THEN Must(NearU(p.scale, (m - 1000 * e.fix[a].loc) \div e.fix[a].a, 20 + 40000 \div e.nrw), "fit")
                    ELSE IF e.rvs[a] = "expon"
                    THEN Must(/\ p.loc <= 1000 * lo(sure) + 2 /\ p.loc >= 1000 * lo(mayb) - 2
                              /\ NearU(p.loc + p.scale, m, 20 + 40000 \div e.nrw), "fit")
                    ELSE IF e.rvs[a] = "beta" THEN {}        \* the rest is a numerical search
                    ELSE IF e.rvs[a] = "norm"
                    THEN Must(NearU(p.loc, m, 20 + 40000 \div e.nrw) /\
                              NearU(p.scale, SqrtI(IMax(v, 0) * 1000), 90 + 60000 \div e.nrw), "fit")
                    ELSE Must(/\ p.loc <= 1000 * lo(sure) + 2 /\ p.loc >= 1000 * lo(mayb) - 2
                              /\ p.loc + p.scale >= 1000 * hi(sure) - 4 /\ p.loc + p.scale <= 1000 * hi(mayb) + 4, "fit")
            : a \in DOMAIN e.rvs}
\* repeated rejection: counts of how often each sample was kept in e.reps runs
JReject(e) ==
    LET o == e.outs[1]
    IN Must(o.subset, "only_input_samples")
       \cup Must(o.probok, "equal_probabilities")
       \cup Must(o.domok, "bounding_box")
       \cup Must(IsVec(o.kept, e.n), "kept_shape")
       \cup IF ~IsVec(o.kept, e.n) THEN {} ELSE
            UNION {IF ~Pos(e, i)
                   THEN Must(Active(e, i) \/ \A k \in DOMAIN e.idx[i] : o.kept.v[e.idx[i][k] + 1] = 0, "inactive_contributes_nothing")
                   ELSE UNION {LET c == o.kept.v[e.idx[i][k] + 1]
                                   q == o.rn[i][k]                       \* acceptance 1/20000
                               IN Must(c <= e.reps, "kept_once")
                                  \cup Must(q >= 20000 => c = e.reps, "most_likely_kept")
                                  \cup Must(NearU(c, (q * e.reps) \div 20000,
                                                  6 * SqrtI((((q * (20000 - q)) \div 20000) * e.reps) \div 20000) + 12), "acceptance")
                               : k \in DOMAIN e.idx[i]}
                   : i \in Cl(e)}
JUpdate(e) ==
    IF e.bad THEN Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "must_refuse")
    ELSE IF ~NoExc(e.outs) THEN {"raised"}
    ELSE SameAll(e) \cup JRatios(e) \cup
         (IF JRatios(e) # {} THEN {} ELSE
          Must(e.call = "inv" \/ e.call = "rej" \/ \A r \in DOMAIN e.outs : e.outs[r].ptype = e.ptype, "prob_type")
          \cup Must(\A r \in DOMAIN e.outs : e.outs[r].ret, "parameters_recorded")
          \cup CASE e.call = "gmm" -> JGmm(e)
                 [] e.call = "mg" -> JGauss(e)
                 [] e.call = "kde" -> JKde(e)
                 [] e.call = "rv" -> JRv(e)
                 [] e.call = "rej" -> JReject(e)
                 [] OTHER -> {})
=============================================================================
