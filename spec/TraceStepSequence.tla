--------------------------- MODULE TraceStepSequence ---------------------------
(***************************************************************************)
(* Accepts a trace of drivers/seq.cpp: each step-number sequence of the    *)
(* extrapolator, told to start again at any time, gives SubSteps(name, k)  *)
(* as its k-th number since its last start.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat, OdeMethods, TraceTools
CONSTANT Props
VARIABLES l, name, k
Init == l = 1 /\ name = "" /\ k = 0
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       CASE e.e = "new" -> name' = e.name /\ k' = 0
         [] e.e = "reset" -> k' = 0 /\ UNCHANGED name
         [] e.e = "next" -> e.n = SubSteps(name, k + 1) /\ k' = k + 1 /\ UNCHANGED name
         [] e.e \in {"scenario", "end"} -> UNCHANGED <<name, k>>
         [] OTHER -> FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, name, k>>
=============================================================================
