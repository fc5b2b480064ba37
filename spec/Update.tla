------------------------------- MODULE Update -------------------------------
(* The data-consistent update.  A problem is                                *)
(*   pred[i], obs[i]: the predicted / observed values compared in cluster i *)
(*   pw[i]: integer weights of the predicted values, idx[i]: which samples  *)
(*   more: observations in clusters that nothing predicted belongs to       *)
(* A cluster takes part when both sides have more than one value.           *)
EXTENDS Density

Active(e, i) == Len(e.pred[i]) > 1 /\ Len(e.obs[i]) > 1
F2(e, n, d) == IF e.bw = 0 THEN Scott(n, d) ELSE e.bw
PredKde(e, i) == Kde(e.pred[i], e.pw[i], F2(e, Len(e.pred[i]), Len(e.pred[i][1])))
ObsKde(e, i) == Kde(e.obs[i], [k \in DOMAIN e.obs[i] |-> 1], F2(e, Len(e.obs[i]), Len(e.obs[i][1])))
\* ratio in 1/10000 for the predicted samples of an active cluster
Ratios(e, i) == LET Ko == TLCEval(ObsKde(e, i))
                    Kp == TLCEval(PredKde(e, i))
                IN TLCEval([k \in DOMAIN e.pred[i] |-> KdeRatio(Ko, Kp, e.pred[i][k])])
ClusterWeight(e, i) == Q(Len(e.obs[i]), e.more + ISum([j \in DOMAIN e.obs |-> Len(e.obs[j])]))
\* moments of rows (quarters) under integer weights, in 1/1000 of a quarter
Mom1(x, w, i) == QFix(Q(ISum([k \in DOMAIN x |-> w[k] * x[k][i]]), ISum(w)), 1000)
Mom2(x, w, i, j) ==
    QFix(Q(ISum([k \in DOMAIN x |-> w[k] * x[k][i] * x[k][j]]), ISum(w)), 1000)
    - (Mom1(x, w, i) * Mom1(x, w, j)) \div 1000
=============================================================================
