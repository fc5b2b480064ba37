----------------------------- MODULE TraceDisc ------------------------------
(* Recorded histories of a discretization against Disc.                     *)
EXTENDS Disc

F5 == <<"in", "out", "op", "ei", "eo">>
IVec(s) == [sh |-> <<Len(s)>>, v |-> s]
\* a reported pointer is absent or the current one; absent only if allowed
GPtr(outs, g, can, want, must) ==
    \/ ~must /\ \A r \in DOMAIN outs : IsNone(outs[r][g])
    \/ can /\ \A r \in DOMAIN outs : outs[r][g] = IVec(want)
LPtr(outs, l, can, want, sz, must) ==
    \/ ~must /\ \A r \in DOMAIN outs : IsNone(outs[r][l])
    \/ can /\ \A r \in DOMAIN outs : outs[r][l] = SplitAt(IVec(want), sz)[r]
Ptrs(st, e) ==
    LET Local(l) == e.do \in {"gptr", "l2g"} /\ ~IsNone(e.outs[1][l])   \* gathered with the others
        g(k) == (e.do = k /\ e.glob) \/ Local(k \o "l")
        io == IF CanIO(st) THEN IO(st) ELSE <<>>
        ii == IF CanII(st) THEN II(st) ELSE <<>>
        oo == IF CanOO(st) THEN OO(st) ELSE <<>>
    IN Must(GPtr(e.outs, "io", CanIO(st), io, g("io")), "io_pointer")
       \cup Must(LPtr(e.outs, "iol", CanIO(st), io, IF CanIO(st) THEN Mem(st, "out").sz ELSE <<>>, e.do = "io"), "io_pointer_local")
       \cup Must(GPtr(e.outs, "ii", CanII(st), ii, g("ii")), "emulated_input_pointer")
       \cup Must(LPtr(e.outs, "iil", CanII(st), ii, IF CanII(st) THEN Mem(st, "ei").sz ELSE <<>>, e.do = "ii"), "emulated_input_pointer_local")
       \cup Must(GPtr(e.outs, "oo", CanOO(st), oo, g("oo")), "emulated_output_pointer")
       \cup Must(LPtr(e.outs, "ool", CanOO(st), oo, IF CanOO(st) THEN Mem(st, "eo").sz ELSE <<>>, e.do = "oo"), "emulated_output_pointer_local")
Members(st, e) == Must(\A r \in DOMAIN e.outs : e.outs[r].ids = [i \in 1..5 |-> st.m[F5[i]]], "members")
PoolOk(st, e) ==
    UNION {UNION {Must(Is(st.pool[k].prg, e.outs[r].pr[k].g), "probability_global")
                  \cup Must(st.pool[k].prl = Free \/ st.pool[k].prl[r] = e.outs[r].pr[k].l, "probability_local")
                  : k \in DOMAIN st.pool} : r \in DOMAIN e.outs}

DStep(st, e) ==
    LET R == e.R
    IN CASE e.do = "new" -> DNew(e.pool, e.m)
         [] e.do = "set" -> DSet(IF e.flip THEN Flip(st, e.f, e.x) ELSE st, e.f, e.x)
         [] e.do = "pset" -> [st EXCEPT !.pool[e.x].p = e.p, !.pool[e.x].prg = Vec(e.p)]
         [] e.do = "prob" -> DProb(st, R, e.glob)
         [] e.do = "emu" -> DEmu(st, R, e.glob)
         [] e.do = "vemu" -> DVemu(st, R)
         \* a simple function: the set it returned is the probability set
         [] e.do = "sfp" -> [st EXCEPT !.pool = Append(@, [e.outs[1].new EXCEPT !.vol = <<>>]),
                                       !.m["op"] = Len(st.pool) + 1]
         [] e.do = "g2l" -> DG2L(st, R)
         [] e.do = "l2g" -> DL2G(st)
         [] OTHER -> st                                   \* io ii oo gptr cp

JDisc(st, e) ==
    LET refuse == e.do = "set" /\ Refused(st, e.f, e.x)
    IN IF refuse
       THEN [st |-> st, bad |-> Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "not_refused")
                                \cup Must(\A r \in DOMAIN e.outs : e.outs[r].kept, "refusal_changed_pointers")
                                \cup Members(st, e) \cup Ptrs(st, e) \cup PoolOk(st, e)]
       ELSE IF ~NoExc(e.outs) THEN [st |-> st, bad |-> {"raised"}]
       ELSE IF e.do = "sfp" /\ ~(\A r \in DOMAIN e.outs : e.outs[r].new = e.outs[1].new)
       THEN [st |-> st, bad |-> {"constructed_set_differs"}]
       ELSE LET t == TLCEval(DStep(st, e))
            IN [st |-> t, bad |-> Members(t, e) \cup Ptrs(t, e) \cup PoolOk(t, e)]
=============================================================================
