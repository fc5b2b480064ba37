------------------------------- MODULE Sampler ------------------------------
(* Evaluation of a model over distributed samples.  The model of the        *)
(* specification is y_j = b_j + sum_k a_jk x_k^2 with its Jacobian 2 a_jk x_k *)
(* and a declared error estimate, all over integers.                        *)
EXTENDS Measure

Y(m, x) == [j \in DOMAIN m.a |-> m.b[j] + ISum([k \in DOMAIN x |-> m.a[j][k] * x[k] * x[k]])]
EE(m, x) == [j \in DOMAIN m.a |-> j + ISum([k \in DOMAIN x |-> k * x[k]])]
J(m, x) == FlattenSeq([j \in DOMAIN m.a |-> [k \in DOMAIN x |-> 2 * m.a[j][k] * x[k]]])
\* flat row-major results for rows X
Flat(f, w) == [i \in 1..(Len(f) * w) |-> f[((i - 1) \div w) + 1][((i - 1) % w) + 1]]
AllOf(m, X, Op(_, _), w) == LET f == TLCEval([i \in DOMAIN X |-> Op(m, X[i])]) IN TLCEval(Flat(f, w))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
\* t is s in another order
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
=============================================================================
