------------------------------- MODULE Judge --------------------------------
(* Helpers to compare recorded per-process outcomes with the specification. *)
EXTENDS Measure

\* failing clause c unless b
Must(b, c) == IF b THEN {} ELSE {c}
NoExc(outs) == \A r \in DOMAIN outs : outs[r].exc = ""
\* concatenation over ranks of a recorded per-rank field; None if malformed
Cat(fs) == IF (\A r \in DOMAIN fs : Len(fs[r].sh) >= 1 /\ fs[r].sh[1] >= 0)
              /\ (\A r \in DOMAIN fs : Tail(fs[r].sh) = Tail(fs[1].sh))
           THEN ConcatAll(fs) ELSE None
Field(outs, f) == [r \in DOMAIN outs |-> outs[r][f]]
AllEq(outs, f, x) == \A r \in DOMAIN outs : outs[r][f] = x
=============================================================================
