---------------------------- MODULE TraceMeasure ----------------------------
(* Recorded solves and probability transfers against Measure.               *)
EXTENDS Judge

InVor(p, vals) == [kind |-> "vor", p |-> p, vals |-> vals]

JProb(e) ==
    LET io == OwnerSeq(e.bins, e.outv)
        n == Len(e.outv)
        vol == IF e.call = "emu" THEN EmulatedVol(n, OwnerSeq(InVor(e.ip, e.inv), e.emu)) ELSE e.vol
        want == Vec(InverseProb(vol, io, e.p))
    IN IF ~NoExc(e.outs) THEN {"raised"}
       ELSE Must(Cat(Field(e.outs, "probl")) = want, "probability_local")
            \cup Must(e.glob => AllEq(e.outs, "prob", want), "probability_global")
            \cup Must(e.call = "emu" => AllEq(e.outs, "vol", Vec(vol)), "emulated_volume")
            \cup Must(AllEq(e.outs, "ptype", "voronoi"), "prob_type")
            \cup Must(AllEq(e.outs, "pbins", Vec(e.p)), "bin_probabilities_kept")
            \cup Must(\A r \in DOMAIN e.outs : Len(e.outs[r].probl.sh) = 1 /\
                        e.outs[r].probl.sh[1] = e.outs[r].vall.sh[1], "local_alignment")
            \cup Must(Cat(Field(e.outs, "vall")) = Mat(e.inv, Len(e.inv[1])), "values_kept")
=============================================================================
