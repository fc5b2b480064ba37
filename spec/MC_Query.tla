------------------------------ MODULE MC_Query ------------------------------
(* The search tree of a Voronoi set is a cache of its values: v is the      *)
(* version of the global values, w of the local ones, tree the version the  *)
(* cached tree was built from. Queries reuse a tree when there is one, so   *)
(* every change of the values must discard it (Discard = FALSE shows the    *)
(* violation).                                                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Discard

VARIABLES v, w, tree, n, norm, ver, used, hist, last
vars == <<v, w, tree, n, norm, ver, used, hist, last>>
view == <<v, w, tree, n, norm, used, last>>

Init == /\ v = 1 /\ w = 0 /\ tree = 0 /\ n = 3 /\ norm = FALSE /\ ver = 1 /\ used = 0
        /\ hist = <<>> /\ last = "init"
New(k) == /\ v' = ver + 1 /\ ver' = ver + 1 /\ n' = k /\ tree' = IF Discard THEN 0 ELSE tree
Do(o) == hist' = Append(hist, o) /\ last' = o
Query == /\ tree' = (IF tree = 0 THEN v ELSE tree) /\ used' = tree'
         /\ UNCHANGED <<v, w, n, norm, ver>> /\ Do("query")
Set == New(3) /\ UNCHANGED <<w, norm>> /\ used' = 0 /\ Do("set")
SetFew == New(2) /\ UNCHANGED <<w, norm>> /\ used' = 0 /\ Do("setfew")
App == n < 5 /\ New(n + 1) /\ UNCHANGED <<w, norm>> /\ used' = 0 /\ Do("app")
Clip == n > 1 /\ New(n - 1) /\ w' = (IF w = 0 THEN 0 ELSE v') /\ UNCHANGED norm /\ used' = 0 /\ Do("clip")
Norm == /\ ~norm /\ New(n) /\ w' = (IF w = 0 THEN 0 ELSE v') /\ norm' = TRUE /\ used' = 0 /\ Do("norm")
Undo == /\ norm /\ New(n) /\ w' = (IF w = 0 THEN 0 ELSE v') /\ norm' = FALSE /\ used' = 0 /\ Do("undo")
G2L == w' = v /\ UNCHANGED <<v, tree, n, norm, ver>> /\ used' = 0 /\ Do("g2l")
SetL == /\ w' = ver + 1 /\ ver' = ver + 1 /\ UNCHANGED <<v, tree, n, norm>> /\ used' = 0 /\ Do("setl")
L2G == /\ w # 0 /\ v' = w /\ tree' = (IF Discard THEN 0 ELSE tree) /\ UNCHANGED <<w, n, norm, ver>> /\ used' = 0 /\ Do("l2g")
P == UNCHANGED <<v, w, tree, n, norm, ver>> /\ used' = 0 /\ Do("p")
Copy == UNCHANGED <<v, w, tree, n, norm, ver>> /\ used' = 0 /\ Do("copy")
Next == /\ Len(hist) < Depth
        /\ (Query \/ Set \/ SetFew \/ App \/ Clip \/ Norm \/ Undo \/ G2L \/ SetL \/ L2G \/ P \/ Copy)
        /\ PrintT("EDGE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
Fresh == tree \in {0, v}
Answer == used \in {0, v}
=============================================================================
