------------------------------- MODULE MC_Par -------------------------------
(* One workflow as the package runs it: the samples are distributed in      *)
(* blocks, every process solves for its own, totals over bins are reduced,  *)
(* shares computed locally and gathered, the object is saved by one process *)
(* and loaded by all.  Under every interleaving each process ends with what *)
(* one process would have.                                                  *)
EXTENDS Comm
CONSTANTS N, R, Race, LocalSum       \* Race: no barrier after saving; LocalSum: totals of the own block only
VARIABLES vol, bin, pc, mine, tot, share, whole, file, loaded
vars == <<vol, bin, pc, mine, tot, share, whole, file, loaded>>
Bins == 1..2
Cut0(r) == (r * (N \div R)) + IMin(r, N % R)
OwnBlock(r) == (Cut0(r - 1) + 1)..Cut0(r)
OwnPart(r, f) == [k \in 1..(Cut0(r) - Cut0(r - 1)) |-> f[Cut0(r - 1) + k]]
RECURSIVE BinTotal(_, _, _)
BinTotal(v, b, c) == IF v = <<>> THEN 0 ELSE (IF Head(b) = c THEN Head(v) ELSE 0) + BinTotal(Tail(v), Tail(b), c)
RECURSIVE Joined(_, _)
Joined(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Joined(s, k + 1)
NoFile == <<0>>
Init == /\ vol \in [1..N -> 1..2] /\ bin \in [1..N -> Bins]
        /\ pc = [r \in 1..R |-> "solve"] /\ mine = [r \in 1..R |-> <<>>] /\ tot = [r \in 1..R |-> <<>>]
        /\ share = [r \in 1..R |-> <<>>] /\ whole = [r \in 1..R |-> <<>>] /\ file = NoFile /\ loaded = [r \in 1..R |-> NoFile]
Go(r, p) == pc' = [pc EXCEPT ![r] = p]
Solve(r) == /\ pc[r] = "solve" /\ mine' = [mine EXCEPT ![r] = [c \in Bins |-> BinTotal(OwnPart(r, vol), OwnPart(r, bin), c)]] /\ Go(r, "reduce")
            /\ UNCHANGED <<vol, bin, tot, share, whole, file, loaded>>
Everyone(p) == \A r \in 1..R : pc[r] = p
ReduceAll == /\ Everyone("reduce") /\ tot' = [r \in 1..R |-> IF LocalSum THEN mine[r] ELSE Reduce("SUM", mine)] /\ pc' = [r \in 1..R |-> "share"]
             /\ UNCHANGED <<vol, bin, mine, share, whole, file, loaded>>
Share(r) == /\ pc[r] = "share"
            /\ share' = [share EXCEPT ![r] = [k \in DOMAIN OwnPart(r, vol) |-> <<OwnPart(r, vol)[k], tot[r][OwnPart(r, bin)[k]]>>]]
            /\ Go(r, "gather") /\ UNCHANGED <<vol, bin, mine, tot, whole, file, loaded>>
Gather == /\ Everyone("gather") /\ whole' = [r \in 1..R |-> Joined(share, 1)] /\ pc' = [r \in 1..R |-> "save"]
          /\ UNCHANGED <<vol, bin, mine, tot, share, file, loaded>>
Save(r) == /\ pc[r] = "save" /\ file' = (IF r = 1 THEN whole[r] ELSE file) /\ Go(r, IF Race THEN "load" ELSE "barrier")
           /\ UNCHANGED <<vol, bin, mine, tot, share, whole, loaded>>
Barrier == /\ Everyone("barrier") /\ pc' = [r \in 1..R |-> "load"] /\ UNCHANGED <<vol, bin, mine, tot, share, whole, file, loaded>>
Load(r) == /\ pc[r] = "load" /\ loaded' = [loaded EXCEPT ![r] = file] /\ Go(r, "done")
           /\ UNCHANGED <<vol, bin, mine, tot, share, whole, file>>
Next == ReduceAll \/ Gather \/ Barrier \/ \E r \in 1..R : Solve(r) \/ Share(r) \/ Save(r) \/ Load(r)
Spec == Init /\ [][Next]_vars
OneProcess2 == [k \in 1..N |-> <<vol[k], BinTotal(vol, bin, bin[k])>>]
Ended(r) == pc[r] = "done"
Serial == \A r \in 1..R : Ended(r) => loaded[r] = OneProcess2 /\ whole[r] = OneProcess2
SameEverywhere == \A r, q \in 1..R : Ended(r) /\ Ended(q) => loaded[r] = loaded[q]
Partition == \A k \in 1..N : Cardinality({r \in 1..R : k \in OwnBlock(r)}) = 1
Progress == (\A r \in 1..R : Ended(r)) \/ ENABLED Next
=============================================================================
