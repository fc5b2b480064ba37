----------------------------- MODULE TraceFile ------------------------------
(* Recorded saves and loads against the meaning of a file: the object that  *)
(* was saved last under its name.                                           *)
EXTENDS TraceSet

\* a discretization: six members (cls "" if absent), three pointers, global and per process
NoSet(R) == [NewSet(0, "", R) EXCEPT !.p = NaN]
IsSet(s) == s.cls # ""
AllG(s, R) == IF IsSet(s) THEN Gather(s) ELSE s
\* which member a pointer belongs to: output, emulated input, emulated output
PtrOf == <<2, 4, 5>>
DGather(d) ==
    [d EXCEPT !.mem = [i \in 1..6 |-> AllG(d.mem[i], Len(d.pl))],
              !.pg = [i \in 1..3 |-> IF IsNone(d.pg[i]) /\ ~IsNone(d.pl[1][i])
                                     THEN ConcatAll([r \in DOMAIN d.pl |-> d.pl[r][i]]) ELSE d.pg[i]]]
DDistribute(d) ==
    LET R == Len(d.pl)
    IN [d EXCEPT !.mem = [i \in 1..6 |-> IF IsSet(d.mem[i]) THEN Distribute(d.mem[i]) ELSE d.mem[i]],
                 !.pl = [r \in 1..R |-> [i \in 1..3 |->
                    IF ~IsNone(d.pg[i]) /\ ~IsNone(d.mem[PtrOf[i]].g["values"]) THEN Part(d.pg[i], R, r) ELSE d.pl[r][i]]]]

\* what a global file leaves open: the local view on processes other than the writer
WildS(t, R) == [t EXCEPT !.l = [r \in 1..R |-> [f \in FSet |-> IF IsNone(t.g[f]) THEN None ELSE Wild]],
                         !.li = [r \in 1..R |-> IF IsNone(t.li[1]) THEN None ELSE Wild],
                         !.hidl = [r \in 1..R |-> NoFields]]
WildD(d, R) == [d EXCEPT !.mem = [i \in 1..6 |-> WildS(d.mem[i], R)],
                         !.pl = [r \in 1..R |-> [i \in 1..3 |-> IF IsNone(d.pg[i]) THEN None ELSE Wild]]]

Save(F, e, obj) ==
    LET rec == [name |-> e.name, o |-> e.o, dist |-> e.R > 1 /\ ~e.glob, R |-> e.R, obj |-> obj]
    IN Append(SelectSeq(F, LAMBDA x : x.name # e.name), rec)
File(F, n) == LET k == CHOOSE k \in DOMAIN F : F[k].name = n IN F[k]
Refused2(x, R) == x.dist /\ x.R # R
Loaded(x, R, loc) ==
    LET t == x.obj
    IN IF x.dist THEN t
       ELSE LET b == IF R = 1 /\ x.R = 1 THEN t ELSE IF x.o = "s" THEN WildS(t, R) ELSE WildD(t, R)
            IN IF ~loc THEN b ELSE IF x.o = "s" THEN Distribute(b) ELSE DDistribute(b)

PtrNames == <<"io_pointer", "emulated_input_pointer", "emulated_output_pointer">>
DiscDiff(D, outs) ==
    UNION {UNION {
        IF k > Len(outs[r].discs) THEN {"missing_discretization"}
        ELSE UNION {Diff(D[k].mem[i], r, outs[r].discs[k].mem[i]) : i \in 1..6}
             \cup UNION {Must(EqA(D[k].pg[i], outs[r].discs[k].pg[i]), PtrNames[i]) : i \in 1..3}
             \cup UNION {Must(EqA(D[k].pl[r][i], outs[r].discs[k].pl[i]), PtrNames[i] \o "_local") : i \in 1..3}
        : k \in DOMAIN D} : r \in DOMAIN outs}
\* two processes writing one file at the same time destroy it on some schedule
OneWriter(outs) ==
    \A r, q \in DOMAIN outs : r # q => {outs[r].wr[i] : i \in DOMAIN outs[r].wr} \cap {outs[q].wr[i] : i \in DOMAIN outs[q].wr} = {}

DView(d, r) == [mem |-> [i \in 1..6 |-> View(d.mem[i], r)], pg |-> d.pg, pl |-> d.pl[r]]
JFile(st, e) ==
    CASE e.do = "phase" -> [st |-> [S |-> <<>>, D |-> <<>>, F |-> IF "F" \in DOMAIN st THEN st.F ELSE <<>>], bad |-> {}]
      [] e.do = "dnew" ->
           LET mem(i) == IF e.m[i] = 0 THEN NoSet(e.R) ELSE st.S[e.m[i]]
               d == [mem |-> [i \in 1..6 |-> mem(i)], pg |-> e.pg, pl |-> e.pl]
               t == [st EXCEPT !.D = Put(st.D, e.k, d)]
           IN [st |-> t, bad |-> IF ~NoExc(e.outs) THEN {"raised"} ELSE DiscDiff(t.D, e.outs)]
      [] e.do = "save" ->
           LET obj == IF e.o = "s" THEN (IF e.glob THEN Gather(st.S[e.k]) ELSE st.S[e.k])
                      ELSE (IF e.glob THEN DGather(st.D[e.k]) ELSE st.D[e.k])
               t == TLCEval(IF e.o = "s" THEN [st EXCEPT !.S[e.k] = obj, !.F = Save(st.F, e, obj)]
                            ELSE [st EXCEPT !.D[e.k] = obj, !.F = Save(st.F, e, obj)])
           IN [st |-> t, bad |-> IF ~NoExc(e.outs) THEN {"raised"}
                                 ELSE StoreDiff(t.S, e.outs) \cup DiscDiff(t.D, e.outs)
                                      \cup Must(OneWriter(e.outs), "concurrent_writers")]
      [] e.do = "load" ->
           LET x == File(st.F, e.name)
           IN IF Refused2(x, e.R)
              THEN [st |-> st, bad |-> Must(\A r \in DOMAIN e.outs : e.outs[r].exc # "", "not_refused")
                                       \cup StoreDiff(st.S, e.outs) \cup DiscDiff(st.D, e.outs)]
              ELSE IF ~NoExc(e.outs) THEN [st |-> st, bad |-> {"raised"}]
              ELSE LET y == Loaded(x, e.R, e.loc)
                       t == TLCEval(IF x.o = "s" THEN [st EXCEPT !.S = Put(st.S, e.k, y)] ELSE [st EXCEPT !.D = Put(st.D, e.k, y)])
                   IN [st |-> t, bad |-> StoreDiff(t.S, e.outs) \cup DiscDiff(t.D, e.outs)]
      [] e.do = "dcmp" ->
           [st |-> st, bad |-> IF ~NoExc(e.outs) THEN {"raised"}
              ELSE Must(\A r \in DOMAIN e.outs :
                     e.outs[r].ret = Sc(QI(IF DView(st.D[e.k], r) = DView(st.D[e.k2], r) THEN 1 ELSE 0)), "equality")]
      [] OTHER -> LET j == JSet(st.S, e)
                  IN [st |-> [st EXCEPT !.S = j.st], bad |-> j.bad \cup (IF j.bad = {} THEN DiscDiff(st.D, e.outs) ELSE {})]
=============================================================================
