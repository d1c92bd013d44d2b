------------------------- MODULE TraceStepSizeControl -------------------------
(* Accepts a trace of drivers/ssc.cpp if every decision is allowed. *)
EXTENDS Integers, Sequences, Rat, TraceTools
CONSTANT Props
SSC == INSTANCE StepSizeControl
VARIABLES l, par
Init == l = 1 /\ par = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       CASE e.e = "par" -> par' = e.par
         [] e.e = "ctl" -> SSC!Allowed(par, e.h, e.err, e.order, e.newh, e.acc, e.chg) /\ UNCHANGED par
         [] e.e \in {"scenario", "end"} -> par' = <<>>
         [] OTHER -> FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, par>>
=============================================================================
