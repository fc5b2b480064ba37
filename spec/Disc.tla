-------------------------------- MODULE Disc --------------------------------
(* A discretization: five member sets and three cached pointers.            *)
(* pool[k] is a set object: [dim, vals (rows), part (its cells; kind "none" *)
(* if it is never queried), vol, p, prg, prl]; members name pool entries,   *)
(* 0 is no member.  prg/prl: its recorded probabilities, global and local.  *)
EXTENDS Judge

Any9 == [sh |-> <<-9>>, v |-> <<>>]          \* unspecified array
Free == <<Any9>>                             \* unspecified local parts
Is(w, got) == w = Any9 \/ w = got

DNew(pool, m) == [pool |-> pool, m |-> m]
\* which replacements are refused
DimsOf(st, fs) == {st.pool[st.m[f]].dim : f \in {g \in fs : st.m[g] # 0}}
Refused(st, f, x) ==
    \/ x = 0
    \/ f = "op" /\ DimsOf(st, {"out", "eo"}) \ {st.pool[x].dim} # {}
    \/ f = "eo" /\ DimsOf(st, {"out", "op"}) \ {st.pool[x].dim} # {}
    \/ f = "ei" /\ DimsOf(st, {"in"}) \ {st.pool[x].dim} # {}
DSet(st, f, x) == IF Refused(st, f, x) THEN st ELSE [st EXCEPT !.m[f] = x]
\* a set whose samples were given anew, in the opposite order, and is a member from then on
Flip(st, f, x) ==
    LET vs == Reverse(st.pool[x].vals)
    IN [st EXCEPT !.pool[x].vals = vs, !.pool[x].hg = TRUE,
                  !.pool[x].part = IF f = "in" THEN [@ EXCEPT !.vals = vs] ELSE @]

Mem(st, f) == st.pool[st.m[f]]
CanIO(st) == st.m["out"] # 0 /\ st.m["op"] # 0
CanII(st) == st.m["in"] # 0 /\ st.m["ei"] # 0
CanOO(st) == st.m["eo"] # 0 /\ st.m["op"] # 0
\* the pointers of the current members
IO(st) == OwnerSeq(Mem(st, "op").part, Mem(st, "out").vals)
II(st) == OwnerSeq(Mem(st, "in").part, Mem(st, "ei").vals)
OO(st) == OwnerSeq(Mem(st, "op").part, Mem(st, "eo").vals)

WithProb(st, k, want, R, glob) ==
    [st EXCEPT !.pool[k].prg = IF glob THEN Vec(want) ELSE Any9,
               !.pool[k].prl = SplitAt(Vec(want), st.pool[k].sz)]
\* solves: probabilities of the current inputs or emulated points
DProb(st, R, glob) == WithProb(st, st.m["in"], InverseProb(Mem(st, "in").vol, IO(st), Mem(st, "op").p), R, glob)
DVemu(st, R) ==
    LET v == EmulatedVol(Len(Mem(st, "in").vals), II(st))
    IN DProb([st EXCEPT !.pool[st.m["in"]].vol = v], R, TRUE)
DEmu(st, R, glob) == WithProb([st EXCEPT !.pool[st.m["ei"]].hg = @ \/ glob], st.m["ei"], InverseProbEmulated(II(st), IO(st), Mem(st, "op").p), R, glob)

\* distributing and gathering all members
Members5(st) == {st.m[f] : f \in DOMAIN st.m} \ {0}
EvenSz(n, R) == [r \in 1..R |-> PartSize(n, R, r)]
DG2L(st, R) ==
    [st EXCEPT !.pool = [k \in DOMAIN st.pool |->
        LET s == st.pool[k]
        IN IF k \notin Members5(st) \/ s.sz = <<>> \/ ~s.hg THEN s
           ELSE [s EXCEPT !.sz = EvenSz(Len(s.vals), R),
                          !.prl = IF s.prg = Any9 THEN Free ELSE IF IsNone(s.prg) THEN @ ELSE Split(s.prg, R)]]]
DL2G(st) ==
    [st EXCEPT !.pool = [k \in DOMAIN st.pool |->
        LET s == st.pool[k]
        IN IF k \notin Members5(st) \/ s.sz = <<>> THEN s
           ELSE [s EXCEPT !.hg = TRUE,
                          !.prg = IF s.prl = Free THEN Any9 ELSE IF IsNone(s.prl[1]) THEN @ ELSE ConcatAll(s.prl)]]]
=============================================================================
