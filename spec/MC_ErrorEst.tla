---------------------------- MODULE MC_ErrorEst -----------------------------
(* All orders of samples on a line (or chosen points of the plane), all     *)
(* maps to bins before and after correction, all regions.                   *)
EXTENDS ErrorEst
CONSTANTS N, NB, Rule
VARIABLES x, io, ion, A
vars == <<x, io, ion, A>>
Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : f[i] = f[j] => i = j}
Plane == [i \in 1..N |-> << <<0, 0>>, <<5, 1>>, <<1, 4>>, <<3, 6>>, <<7, 7>> >>[i]]
Init == /\ x \in {[i \in 1..N |-> <<3 * f[i] - 2 - (f[i] % 2)>>] : f \in Perms} \cup {Plane}
        /\ io \in [1..N -> 0..(NB - 1)] /\ ion = io /\ A = {}
Correct == /\ ion = io /\ A = {} /\ \E i \in 1..N, b \in 0..(NB - 1) : b # io[i] /\ ion' = [ion EXCEPT ![i] = b]
           /\ UNCHANGED <<x, io, A>>
Region == /\ A = {} /\ A' \in (SUBSET (1..N)) \ {{}} /\ UNCHANGED <<x, io, ion>>
Spec == Init /\ [][Correct \/ Region]_vars
p == [b \in 1..NB |-> Q(b - 1, (NB * (NB - 1)) \div 2)]                  \* bin 0 has none
vol == [i \in 1..N |-> Q(i, 2 * N)]
\* neighbours as the specification has them, or by mistaking the order for ranks
Nb == IF Rule = "delaunay" THEN NextBins(x, io)
      ELSE LET s == TLCEval(SetToSortSeq(1..N, LAMBDA i, j : x[i][1] < x[j][1]))
           IN [i \in 1..N |-> {io[j] : j \in {k \in 1..N : IAbs(s[k] - s[i]) = 1}}]
Reset == ion = io /\ A = {}
nn == Neighbours(x)
Symmetric == Reset => \A i, j \in 1..N : (i \in nn[j]) = (j \in nn[i])
Connected == Reset => \A i \in 1..N : nn[i] # {} /\ i \notin nn[i]
Line == Reset /\ Len(x[1]) = 1 =>
          \A i \in 1..N : Cardinality(nn[i]) = (IF x[i][1] \in {x[j][1] : j \in {k \in 1..N :
                \/ \A m \in 1..N : x[m][1] <= x[k][1] \/ FALSE
                \/ \A m \in 1..N : x[m][1] >= x[k][1]}} THEN 1 ELSE 2)
\* whoever lies between two cells keeps them apart
Sets == Reset => \A b \in 0..(NB - 1) :
          /\ Inner(Nb, io, b) \subseteq Preimage(io, b)
          /\ Inner(Nb, io, b) \subseteq Outer(Nb, io, b)
True == Reset => Nb = NextBins(x, io)
Upper == Reset => \A b \in 0..(NB - 1) : LET c == ContourBounds(Nb, io, vol, p[b + 1], b)
          IN c[1] = NaN \/ (QLeq(c[2], c[1]) /\ QLeq(c[2], Zero) /\ QLeq(Zero, c[1]))
\* a cell inside its bin's interior away from others: nothing lost or gained
Whole == Reset /\ (\A i \in 1..N : io[i] = 1) => ContourBounds(Nb, io, vol, p[2], 1) = <<Zero, Zero>>
wA == [i \in 1..N |-> IF i \in A THEN vol[i] ELSE Zero]
wB == [i \in 1..N |-> IF i \in A THEN Zero ELSE vol[i]]
E == ModelError(io, ion, vol, wA, p)
Nothing == io = ion => E \in {Zero, NaN}
Opposite == A # {} => LET F == ModelError(io, ion, vol, wB, p) IN IF E = NaN THEN F = NaN ELSE QAdd(E, F) = Zero
own == [e \in 1..N |-> e - 1]
Everything == A = 1..N /\ ion = io =>
    LET r == RegionBounds(Nb, io, own, [e \in 1..N |-> TRUE], p) IN r[1] = NaN \/ QLeq(r[2], r[1])
=============================================================================
