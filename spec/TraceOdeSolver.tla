---------------------------- MODULE TraceOdeSolver ----------------------------
(***************************************************************************)
(* Accepts a trace of drivers/ode.cpp if it is a behaviour of OdeSolver.   *)
(***************************************************************************)
EXTENDS OdeSolver, TraceTools
VARIABLES l, s
Init == l = 1 /\ s = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       CASE e.e \in {"scenario", "end"} -> s' = <<>>
         [] e.e = "config" ->
                /\ QAny({"P01", "P09", "P10", "P11", "P12"}, ValueProp(e.kind) \in Props => e.order = Order(e))
                /\ s' = New(e)
         [] OTHER -> s' \in Succ(s, e)
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
