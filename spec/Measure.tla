------------------------------- MODULE Measure ------------------------------
(* The measure-theoretic stochastic inverse problem on a finite partition.  *)
EXTENDS Cells

\* cells of the input space whose output lies in output cell j
Preimage(io, j) == {i \in DOMAIN io : io[i] = j}

\* probability on input cells: bin probability spread over its preimage in
\* proportion to cell volume, nothing anywhere else
InverseProb(vol, io, p) ==
    LET js == {io[i] : i \in DOMAIN io}
        S == TLCEval([j \in js |-> QSumOver(Preimage(io, j), LAMBDA i : vol[i])])
    IN TLCEval([i \in DOMAIN io |->
          IF QLess(Zero, p[io[i] + 1]) /\ QLess(Zero, S[io[i]])
          THEN QDiv(QMul(p[io[i] + 1], vol[i]), S[io[i]]) ELSE Zero])

\* probability on emulated points: ii[e] the input cell of point e
InverseProbEmulated(ii, io, p) ==
    LET bin == TLCEval([e \in DOMAIN ii |-> io[ii[e] + 1]])
    IN TLCEval([e \in DOMAIN ii |->
          IF QLess(Zero, p[bin[e] + 1])
          THEN QDiv(p[bin[e] + 1], QI(Cardinality({f \in DOMAIN ii : bin[f] = bin[e]})))
          ELSE Zero])

\* volume of n cells as the fraction of emulated points they own
EmulatedVol(n, ptr) ==
    TLCEval([i \in 1..n |-> Q(Cardinality({e \in DOMAIN ptr : ptr[e] = i - 1}), Len(ptr))])

\* probability of cells of a new partition, from a set carrying probabilities
Aggregate(n, ptr, prob) ==
    TLCEval([i \in 1..n |-> QSumOver({e \in DOMAIN ptr : ptr[e] = i - 1}, LAMBDA e : prob[e])])

\* old cells -> emulated points -> new cells; renormalised when an old cell of
\* positive probability holds no emulated point
TransferEmulated(nnew, oldp, ptrOld, ptrNew) ==
    LET cnt == TLCEval([i \in DOMAIN oldp |-> Cardinality({e \in DOMAIN ptrOld : ptrOld[e] = i - 1})])
        raw == TLCEval([e \in DOMAIN ptrOld |->
                  IF QLess(Zero, oldp[ptrOld[e] + 1])
                  THEN QDiv(oldp[ptrOld[e] + 1], QI(cnt[ptrOld[e] + 1])) ELSE Zero])
        lost == \E i \in DOMAIN oldp : QLess(Zero, oldp[i]) /\ cnt[i] = 0
        tot == QSum(raw)
        pe == TLCEval(IF lost THEN [e \in DOMAIN raw |-> QDiv(raw[e], tot)] ELSE raw)
    IN Aggregate(nnew, ptrNew, pe)
=============================================================================
