------------------------------ MODULE SimpleFun -----------------------------
(* Output probabilities as simple functions: which rectangle is meant, the  *)
(* bins of a regular partition, and equal-mass quadrature points of the     *)
(* stated distributions, to which random partitions are compared.           *)
EXTENDS Measure

\* ---- the rectangle, as <<lo, hi>> per dimension ------------------------------
RectSize(ref, size) == [i \in DOMAIN ref |-> <<QSub(ref[i], QDiv(size[i], QI(2))), QAdd(ref[i], QDiv(size[i], QI(2)))>>]
Extent(vals, i) == QSub(QMaxSeq([k \in DOMAIN vals |-> vals[k][i]]), QMinSeq([k \in DOMAIN vals |-> vals[k][i]]))
RectScaled(ref, scale, vals) == RectSize(ref, [i \in DOMAIN ref |-> QMul(scale[i], Extent(vals, i))])
RectDomain(lo, hi) == [i \in DOMAIN lo |-> <<lo[i], hi[i]>>]

\* ---- regular partitions -------------------------------------------------------
BinEdge(r, c, k) == QAdd(r[1], QMul(QSub(r[2], r[1]), Q(k, c)))
RECURSIVE GridBoxes(_, _)
\* the set of <<left, right>> boxes of the grid with c[i] cells in dimension i
GridBoxes(r, c) ==
    IF r = <<>> THEN {<< <<>>, <<>> >>}
    ELSE {<< <<BinEdge(Head(r), Head(c), k)>> \o b[1], <<BinEdge(Head(r), Head(c), k + 1)>> \o b[2] >> :
            k \in 0..(Head(c) - 1), b \in GridBoxes(Tail(r), Tail(c))}
RegularProb(nbox) == [i \in 1..(nbox + 1) |-> IF i <= nbox THEN Q(1, nbox) ELSE Zero]

\* ---- equal-mass points ----------------------------------------------------------
\* normal quantiles at (k - 1/2)/G in thousandths of a standard deviation
NQ200 == <<-2807,-2432,-2241,-2108,-2005,-1919,-1845,-1780,-1722,-1670,
   -1621,-1576,-1534,-1495,-1457,-1422,-1388,-1356,-1326,-1296,-1267,-1240,
   -1213,-1188,-1163,-1138,-1115,-1092,-1069,-1047,-1026,-1005,-984,-964,
   -944,-925,-906,-887,-869,-851,-833,-815,-798,-781,-764,-747,-731,-714,
   -698,-682,-667,-651,-636,-620,-605,-590,-575,-561,-546,-532,-517,-503,
   -489,-475,-461,-447,-433,-419,-406,-392,-379,-365,-352,-338,-325,-312,
   -299,-286,-273,-260,-247,-234,-221,-208,-196,-183,-170,-157,-145,-132,
   -119,-107,-94,-82,-69,-56,-44,-31,-19,-6,6,19,31,44,56,69,82,94,107,119,
   132,145,157,170,183,196,208,221,234,247,260,273,286,299,312,325,338,352,
   365,379,392,406,419,433,447,461,475,489,503,517,532,546,561,575,590,605,
   620,636,651,667,682,698,714,731,747,764,781,798,815,833,851,869,887,906,
   925,944,964,984,1005,1026,1047,1069,1092,1115,1138,1163,1188,1213,1240,
   1267,1296,1326,1356,1388,1422,1457,1495,1534,1576,1621,1670,1722,1780,
   1845,1919,2005,2108,2241,2432,2807>>
NQ20 == <<-1960,-1440,-1150,-935,-755,-598,-454,-319,-189,-63,63,189,319,
   454,598,755,935,1150,1440,1960>>
NQ8 == <<-1534,-887,-489,-157,157,489,887,1534>>
Levels(dim) == IF dim = 1 THEN 200 ELSE IF dim = 2 THEN 20 ELSE 8
NQ(dim) == IF dim = 1 THEN NQ200 ELSE IF dim = 2 THEN NQ20 ELSE NQ8
\* all integers are in 1/S; lo, w: corner and width of the rectangle
UniformLine(lo, w, G) == TLCEval([k \in 1..G |-> lo + (w * (2 * k - 1)) \div (2 * G)])
NormalLine(mean, std, dim) == TLCEval([k \in 1..Levels(dim) |-> mean + (std * NQ(dim)[k]) \div 1000])
\* all points of a tensor product of lines of equal length, as a sequence
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Tensor(ls) ==
    LET lines == TLCEval(ls)
        d == Len(lines)
        G == Len(lines[1])
        st == TLCEval([i \in 1..d |-> Pow(G, i - 1)])
    IN TLCEval([k \in 1..Pow(G, d) |-> [i \in 1..d |-> lines[i][(((k - 1) \div st[i]) % G) + 1]]])
D2(x, y) == ISum([i \in DOMAIN x |-> (x[i] - y[i]) * (x[i] - y[i])])
\* fraction (1/10000) of the points nearest to each of vals
QuadMass(vals, points) ==
    LET pts == TLCEval(points)
        own == TLCEval([k \in DOMAIN pts |->
                 LET D == TLCEval([i \in DOMAIN vals |-> D2(pts[k], vals[i])])
                     m == Min({D[i] : i \in DOMAIN D})
                 IN CHOOSE i \in DOMAIN D : D[i] = m])
    IN TLCEval([i \in DOMAIN vals |-> (10000 * Cardinality({k \in DOMAIN own : own[k] = i})) \div Len(pts)])
=============================================================================
