----------------------------- MODULE MC_Compare -----------------------------
(* Distances vanish on equal densities, are symmetric where they should be  *)
(* and bounded; what is answered depends on the current points only; the    *)
(* default interval covers both sets.                                       *)
EXTENDS Compare
CONSTANTS N, Mode       \* Mode: "fresh"; "keep": normalising overwrites what later distances use; "half": one set's range, one side
VARIABLES p, q, norm, got, held, steps
vars == <<p, q, norm, got, held, steps>>
Dens == [1..N -> {Zero, Q(1, 4), One, QI(2)}]
Init == /\ p \in Dens /\ q \in Dens /\ norm = FALSE /\ got = <<>> /\ held = <<>> /\ steps = 0
Pos(f) == QSum(f) # Zero
Next == /\ steps < 2 /\ steps' = steps + 1 /\ UNCHANGED <<p, q>> /\ Pos(p) /\ Pos(q)
        /\ norm' \in BOOLEAN
        /\ LET use == IF Mode = "keep" /\ held # <<>> THEN held ELSE <<p, q>>
           IN /\ got' = <<Value("tv", use[1], use[2], norm', One, TRUE)>>
              /\ held' = IF norm' THEN <<Normed(use[1]), Normed(use[2])>> ELSE use
Spec == Init /\ [][Next]_vars
Fns == {"tv", "mink1", "mink2", "norm", "euclid", "sqhell", "hell", "user"}
Metric == steps # 0 \/
    /\ \A fn \in Fns : Value(fn, p, p, FALSE, One, TRUE) = 0 /\ Value(fn, p, q, FALSE, One, TRUE) = Value(fn, q, p, FALSE, One, TRUE)
    /\ \A fn \in Fns : (p # q /\ Value(fn, p, q, FALSE, One, TRUE) = 0) => FALSE
    /\ (Pos(p) /\ Pos(q)) =>
          /\ Value("tv", p, q, TRUE, One, TRUE) \in 0..10001
          /\ Value("hell", p, q, TRUE, One, TRUE) \in 0..10010
          /\ Value("kl", p, q, FALSE, One, TRUE) >= -20
          /\ Value("kl", p, p, FALSE, One, TRUE) = 0
          \* Pinsker
          /\ LET t == Value("tv", p, q, TRUE, One, TRUE) IN 2 * ((t * t) \div 10000) <= Value("kl", p, q, FALSE, One, TRUE) + 30
          /\ LET h == Value("sqhell", p, q, TRUE, One, TRUE) IN h <= Value("tv", p, q, TRUE, One, TRUE) + 30
History == got = <<>> \/ got[1] = Value("tv", p, q, norm, One, TRUE)
Set(f) == [dim |-> 1, dom |-> <<>>, cells |-> [vals |-> [k \in 1..N |-> <<f[k]>>]]]
Iv == IF Mode = "half" THEN Interval(Set(p), Set(p), 1, Zero) ELSE Interval(Set(p), Set(q), 1, Q(1, 2))
Covers == steps # 0 \/ (\A k \in 1..N : QLeq(Iv[1], p[k]) /\ QLeq(q[k], Iv[2]) /\ QLeq(Iv[1], q[k]) /\ QLeq(p[k], Iv[2]))
Logarithm == steps # 0 \/ (IAbs(Ln4(QI(3)) - 10986) <= 6 /\ IAbs(Ln4(Q(1, 10)) + 23026) <= 8)
=============================================================================
