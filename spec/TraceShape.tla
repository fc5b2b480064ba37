----------------------------- MODULE TraceShape -----------------------------
(* Recorded conversions of data and the histories of sets given data in      *)
(* different shapes.                                                         *)
EXTENDS Shape

JFix(e) ==
    LET w == CASE e.kind = "vector" -> Flattened(e.a)
               [] e.kind = "column" -> Column(e.a)
               [] e.kind = "domain" -> Intervals(e.a)
               [] e.kind = "data" -> IF e.dim = 0 THEN AnySamples(e.a) ELSE Samples(e.a, e.dim)
               [] e.kind = "grid" -> Grid(e.vs)
               [] e.kind = "clean" -> Clean(e.a)
               [] OTHER -> NoShape
        o == e.outs[1]
    IN IF w = NoShape THEN IF e.kind = "data" THEN {} ELSE Must(o.exc # "", "impossible_shape_refused")
       ELSE IF o.exc # "" THEN {"refuses_or_fails"}
       ELSE Must(o.sh = w.sh, "shape") \cup (IF o.sh = w.sh THEN Must(o.v = w.v, "entries") ELSE {}) \cup Must(o.same, "argument_unchanged")
\* the history of one set
RECURSIVE Follow(_, _, _)
Follow(e, st, k) ==
    IF k > Len(e.steps) THEN {}
    ELSE LET s == e.steps[k]
             d == Store(st, s.what, s.a, e.dim)
             o == s.o
             bad == Must((o.exc = "") = d.ok, IF d.ok THEN "accepted_shape_refused" ELSE "impossible_shape_refused")
                    \cup Must(o.whole = d.st.whole, "values") \cup Must(o.part = d.st.part, "local_values")
                    \cup Must(o.dom = d.st.dom, "domain") \cup Must(o.ref = d.st.ref, "reference")
         IN IF bad # {} THEN bad ELSE Follow(e, d.st, k + 1)
JShape(e) == IF e.kind = "history" THEN Follow(e, NewSet, 1) ELSE JFix(e)
=============================================================================
