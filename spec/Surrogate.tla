------------------------------ MODULE Surrogate -----------------------------
(* Piecewise Taylor interpolants on the cells of training samples.          *)
(* tr: [x, y (rows of rationals), jac (flat per sample), ee, p]             *)
EXTENDS ErrorEst

TrOwn(tr, xs) == OwnerSeq([kind |-> "vor", p |-> tr.p, vals |-> tr.x], xs)
Taylor(tr, o, x, order) ==
    LET d == Len(x)
        y == tr.y[o + 1]
        c == tr.x[o + 1]
    IN IF order = 0 THEN y
       ELSE TLCEval([j \in DOMAIN y |-> QAdd(y[j], QSum([k \in 1..d |-> QMul(tr.jac[o + 1][(j - 1) * d + k], QSub(x[k], c[k]))]))])
NewValues(tr, own, xs, order) == TLCEval([i \in DOMAIN xs |-> Taylor(tr, own[i], xs[i], order)])
\* totals over the owned new inputs
Totals(n, own, v) == TLCEval([i \in 1..n |-> QSumOver({e \in DOMAIN own : own[e] = i - 1}, LAMBDA e : v[e])])
=============================================================================
