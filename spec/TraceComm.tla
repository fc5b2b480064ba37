------------------------------ MODULE TraceComm -----------------------------
(* Recorded collectives (of the fallback, of an MPI library, of the test    *)
(* runtime), equality of workflows with and without an MPI library, and     *)
(* of parallel workflows with serial ones.                                  *)
EXTENDS Comm

JColl(e) ==
    IF ~NoExc(e.outs) THEN {"fails"}
    ELSE UNION {LET w == Answer(e.kind, e.root, e.red, e.c, r)
                    o == e.outs[r]
                IN Must(o.size = Len(e.c) /\ o.rank = r - 1, "size_and_rank")
                   \cup (IF IsBuffer(e.kind) THEN Must(o.buf = w.buf, "receive_buffer")
                         ELSE IF e.kind \in {"barrier", "Barrier"} THEN {} ELSE Must(o.ret = w.ret, "returned")) : r \in DOMAIN e.outs}
\* texts of what a workflow recorded without and with an MPI library of one process
JSame(e) == Must(e.without = e.with, "same_as_one_process")

\* a program on one process and on several: results <<name, "g" (whole, everywhere) or "l" (parts), array>>
Close1(x, y) == \/ x = y
                \/ (x < 200000000 /\ y < 200000000 /\ x > -200000000 /\ y > -200000000 /\ x - y \in -1..1)
                \/ (x < 200000000 /\ y < 200000000 /\ x > 1000000 /\ y > 1000000 /\ x - y \in -20..20)
CloseAll(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : Close1(v[i], w[i])
RECURSIVE CatRes(_, _, _)
CatRes(outs, k, r) == IF r > Len(outs) THEN <<>> ELSE outs[r].res[k][3].v \o CatRes(outs, k, r + 1)
RECURSIVE CatNum(_, _, _)
CatNum(outs, k, r) == IF r > Len(outs) THEN 0 ELSE (IF outs[r].res[k][3].sh = <<>> THEN 0 ELSE Head(outs[r].res[k][3].sh)) + CatNum(outs, k, r + 1)
Names(o) == [k \in DOMAIN o.res |-> o.res[k][1]]
JPar(e) ==
    IF e.serial.exc # "" THEN {"serial_run_fails"}
    ELSE IF ~NoExc(e.outs) THEN {"collectives_do_not_match"}
    ELSE IF \E r \in DOMAIN e.outs : Names(e.outs[r]) # Names(e.serial) THEN {"other_course_than_serial"}
    ELSE UNION {LET w == e.serial.res[k]
                IN IF w[2] = "g" THEN Must(\A r \in DOMAIN e.outs : e.outs[r].res[k][3].sh = w[3].sh /\ CloseAll(e.outs[r].res[k][3].v, w[3].v), "global_result_not_serial")
                   ELSE IF w[3].sh = <<-1>> \/ \E r \in DOMAIN e.outs : e.outs[r].res[k][3].sh \in {<<-1>>, <<-2>>} THEN Must(\A r \in DOMAIN e.outs : e.outs[r].res[k][3].sh = w[3].sh, "parts")
                   ELSE Must(CloseAll(CatRes(e.outs, k, 1), w[3].v) /\ (w[3].sh = <<>> \/ CatNum(e.outs, k, 1) = Head(w[3].sh)), "parts_do_not_make_the_serial_result") : k \in DOMAIN e.serial.res}
         \cup Must(e.spmd, "same_collectives")
=============================================================================
