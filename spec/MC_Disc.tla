------------------------------- MODULE MC_Disc ------------------------------
(* The pointer cache of a discretization. Members are version numbers; a    *)
(* cached pointer remembers the versions it was computed from, as a local   *)
(* and a global copy. Solves reuse a cached pointer when there is one - so  *)
(* the design is right only if every replacement discards what depends on   *)
(* it. Discard = FALSE is the design without invalidation (violates Fresh). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Discard

VARIABLES m, L, G, used, hist, last
vars == <<m, L, G, used, hist, last>>
view == <<m, L, G, used, last>>

Ptr == {"io", "ii", "oo"}
Deps == [io |-> {"out", "op"}, ii |-> {"in", "ei"}, oo |-> {"eo", "op"}]
None == [none |-> TRUE]
Cur(k) == [f \in Deps[k] |-> m[f]]
Can(k) == \A f \in Deps[k] : m[f] # 0
First == [in |-> 1, out |-> 3, op |-> 5, ei |-> 7, eo |-> 9]

Rec(o) == hist' = Append(hist, o)
Drop(X, f) == IF Discard THEN [k \in Ptr |-> IF f \in Deps[k] THEN None ELSE X[k]] ELSE X

Init == /\ m \in {[First EXCEPT !.op = a, !.ei = b, !.eo = c] : a \in {0, 5}, b \in {0, 7}, c \in {0, 9}}
        /\ L = [k \in Ptr |-> None] /\ G = L /\ used = None
        /\ hist = <<[do |-> "new", m |-> m]>>
        /\ last = "new"

Replace(f, x) == /\ m' = [m EXCEPT ![f] = x]
                 /\ L' = Drop(L, f) /\ G' = Drop(G, f) /\ used' = None
                 /\ Rec([do |-> "set", f |-> f, x |-> x]) /\ last' = "set"
Set == \E f \in DOMAIN First : \E x \in {First[f], First[f] + 1} : Replace(f, x)
\* wrong kind, or wrong dimension where it can be told: nothing changes
Refuse == \/ \E f \in DOMAIN First :
               /\ Rec([do |-> "set", f |-> f, x |-> 0]) /\ last' = "refused" /\ UNCHANGED <<m, L, G>> /\ used' = None
          \/ \E f \in {"op", "ei", "eo"} :
               /\ Rec([do |-> "set", f |-> f, x |-> IF f = "op" THEN 11 ELSE IF f = "ei" THEN 12 ELSE 13])
               /\ last' = "refused" /\ UNCHANGED <<m, L, G>> /\ used' = None
Sfp == /\ \E x \in {IF m["op"] >= 14 THEN m["op"] + 1 ELSE 14} : x <= 15 /\ m' = [m EXCEPT !.op = x]
       /\ LET m2 == [m EXCEPT !.op = IF m["op"] >= 14 THEN m["op"] + 1 ELSE 14]
          IN /\ L' = [Drop(L, "op") EXCEPT !["io"] = [f \in Deps["io"] |-> m2[f]]]
             /\ G' = [Drop(G, "op") EXCEPT !["io"] = None]
       /\ used' = None /\ Rec([do |-> "sfp"]) /\ last' = "sfp"
Point(k, glob) == /\ Can(k)
                  /\ L' = [L EXCEPT ![k] = Cur(k)]
                  /\ G' = [G EXCEPT ![k] = IF glob THEN Cur(k) ELSE None]
                  /\ used' = None /\ UNCHANGED m
                  /\ Rec([do |-> k, glob |-> glob]) /\ last' = "point"
Globalize == /\ G' = [k \in Ptr |-> IF G[k] = None THEN L[k] ELSE G[k]]
             /\ UNCHANGED <<m, L>> /\ used' = None /\ Rec([do |-> "gptr"]) /\ last' = "gptr"
\* solves: take the cached pointer when there is one
Take(X, k) == IF X[k] = None THEN Cur(k) ELSE X[k]
Prob == /\ Can("io") /\ UNCHANGED m
        /\ used' = [io |-> Take(L, "io")]
        /\ L' = [L EXCEPT !["io"] = Take(L, "io")] /\ UNCHANGED G
        /\ Rec([do |-> "prob", glob |-> TRUE]) /\ last' = "prob"
Emu == /\ Can("io") /\ Can("ii") /\ UNCHANGED m
       /\ used' = [io |-> IF L["io"] = None THEN Cur("io") ELSE Take(G, "io"), ii |-> Take(L, "ii")]
       /\ L' = [L EXCEPT !["io"] = Take(L, "io"), !["ii"] = Take(L, "ii")]
       /\ G' = [G EXCEPT !["io"] = IF L["io"] = None THEN Cur("io") ELSE IF G["io"] = None THEN L["io"] ELSE G["io"]]
       /\ Rec([do |-> "emu", glob |-> TRUE]) /\ last' = "emu"
Vemu == /\ Can("io") /\ Can("ii") /\ UNCHANGED <<m, G>>
        /\ used' = [io |-> Take(L, "io")]
        /\ L' = [L EXCEPT !["io"] = Take(L, "io")]
        /\ Rec([do |-> "vemu", glob |-> TRUE]) /\ last' = "vemu"
Copy == /\ UNCHANGED <<m, L, G>> /\ used' = None /\ Rec([do |-> "cp"]) /\ last' = "cp"

Next == /\ Len(hist) < Depth
        /\ \/ Set \/ Refuse \/ Sfp \/ Globalize \/ Prob \/ Emu \/ Vemu \/ Copy
           \/ \E k \in Ptr, g \in BOOLEAN : Point(k, g)
        /\ PrintT("EDGE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

\* every cached pointer, and every pointer a solve used, is the current one
Fresh == \A k \in Ptr : L[k] \in {None, Cur(k)} /\ G[k] \in {None, Cur(k)}
Solved == \A k \in DOMAIN used : used = None \/ used[k] = Cur(k)
\* a refused replacement or a read changes nothing (checked by construction
\* of the actions; the histories are replayed on the implementation)
=============================================================================
