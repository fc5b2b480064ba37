-------------------------------- MODULE Trace -------------------------------
(* Trace validation: every recorded behaviour of the implementation is an   *)
(* initial state; each event must be a step the specification allows.       *)
EXTENDS TraceSet, TraceDisc, TraceTransfer, TraceVolume, TraceFile, TraceSimpleFun, TraceUpdate, TraceSampling, TraceSampler, TraceErrorEst, TraceSurrogate, TraceGradient, TraceOptQoI, TracePost, TracePdf, TraceCompare, TraceComm, TraceShape, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* [st |-> next model state, bad |-> clauses of the specification it breaks]
Stateless(b, st) == [st |-> st, bad |-> b]
Step(st, e) ==
    CASE e.op = "prob" -> Stateless(JProb(e), st)
      [] e.op = "gather" -> Stateless(JGather(e), st)
      [] e.op = "ss" -> JSet(st, e)
      [] e.op = "vol" -> Stateless(JVol(e), st)
      [] e.op = "sf" -> Stateless(JSimple(e), st)
      [] e.op = "dci" -> Stateless(JUpdate(e), st)
      [] e.op = "smp" -> Stateless(JSample(e), st)
      [] e.op = "qoi" -> Stateless(JQoi(e), st)
      [] e.op = "err" -> Stateless(JErr(st, e), st)
      [] e.op = "sur" -> Stateless(JSur(st, e), st)
      [] e.op = "grad" -> Stateless(JGrad(e), st)
      [] e.op = "opt" -> Stateless(JOpt(e), st)
      [] e.op = "post" -> Stateless(JPost(e), st)
      [] e.op = "pdf" -> Stateless(JPdf(e), st)
      [] e.op = "cmp" -> Stateless(JCompare(e), st)
      [] e.op = "coll" -> Stateless(JColl(e), st)
      [] e.op = "same" -> Stateless(JSame(e), st)
      [] e.op = "par" -> Stateless(JPar(e), st)
      [] e.op = "shape" -> Stateless(JShape(e), st)
      [] e.op = "file" -> JFile(st, e)
      [] e.op = "xfer" -> JXfer(st, e)
      [] e.op = "disc" -> JDisc(st, e)
      [] OTHER -> [st |-> st, bad |-> {"unknown_event"}]

VARIABLES tid, l, st
vars == <<tid, l, st>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = Traces[tid].init

Next == /\ l <= Len(Traces[tid].ev)
        /\ LET r == Step(st, Traces[tid].ev[l])
           IN /\ st' = r.st
              /\ IF r.bad = {} THEN l' = l + 1
                 ELSE /\ PrintT("VERDICT " \o ToJson(<<tid, l, r.bad>>))
                      /\ l' = Len(Traces[tid].ev) + 2     \* rejected
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
\* every trace was consumed to its end or rejected with a verdict
Consumed == TLCGet("stats").distinct >= 0 /\ PrintT("CONSUMED " \o ToString(Len(Traces)))
=============================================================================
