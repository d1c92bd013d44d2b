----------------------------- MODULE TraceRestart -----------------------------
(***************************************************************************)
(* Accepts a trace of drivers/restart.cpp if every run of a solver with a  *)
(* past shows the same events as the run of a new solver: the state after  *)
(* a restart is a function of the configuration and the requests alone     *)
(* (invariant Forgotten of MCOdeSolver).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat, TraceTools
CONSTANT Props
VARIABLES l, mode, ref, pos
Tol == "1e-12"
Same(a, b) ==
    /\ a.e = b.e
    /\ CASE a.e = "pre" -> RClose(a.h, b.h, 0, Tol) /\ RClose(a.t, b.t, Tol, Tol) /\ VClose(a.x, b.x, Tol, Tol)
         [] a.e = "post" -> /\ RClose(a.h, b.h, 0, Tol) /\ a.acc = b.acc /\ a.chg = b.chg /\ a.trunc = b.trunc
                            /\ RClose(a.err, b.err, Tol, "1e-6") /\ a.izf = b.izf /\ a.tt = b.tt
                            /\ RClose(a.t, b.t, Tol, Tol) /\ VClose(a.x, b.x, Tol, Tol)
         [] a.e = "ctl" -> RClose(a.h, b.h, 0, Tol) /\ RClose(a.err, b.err, Tol, "1e-6") /\ REq(a.order, b.order)
         [] a.e = "switch" -> a.tr = b.tr /\ RClose(a.t, b.t, Tol, Tol) /\ VClose(a.xin, b.xin, Tol, Tol)
         [] a.e = "trunc" -> RClose(a.t2, b.t2, Tol, Tol) /\ VClose(a.xin, b.xin, Tol, Tol)
         [] a.e \in {"done", "state"} -> RClose(a.t, b.t, Tol, Tol) /\ VClose(a.x, b.x, Tol, Tol)
         [] a.e = "throw" -> a.what = b.what /\ RClose(a.t, b.t, Tol, Tol) /\ VClose(a.x, b.x, Tol, Tol)
         [] a.e = "seth" -> REq(a.h, b.h)
         [] a.e \in {"over", "wild"} -> TRUE
         [] OTHER -> FALSE
Init == l = 1 /\ mode = "none" /\ ref = <<>> /\ pos = 0
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       CASE e.e \in {"scenario", "end"} -> mode' = "none" /\ ref' = <<>> /\ pos' = 0
         [] e.e = "first" -> mode = "none" /\ mode' = "first" /\ UNCHANGED <<ref, pos>>
         [] e.e = "again" -> mode' = "again" /\ pos' = 0 /\ UNCHANGED ref
         [] e.e = "abort" -> FALSE
         [] mode = "first" -> ref' = Append(ref, e) /\ UNCHANGED <<mode, pos>>
         [] OTHER -> mode = "again" /\ pos < Len(ref) /\ Same(ref[pos + 1], e) /\ pos' = pos + 1 /\ UNCHANGED <<mode, ref>>
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, mode, ref, pos>>
=============================================================================
