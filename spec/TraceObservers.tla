---------------------------- MODULE TraceObservers ----------------------------
(***************************************************************************)
(* Accepts a trace of drivers/obs.cpp.  Every change is followed by the    *)
(* identifiers that the signal then lists (e.ids).                         *)
(***************************************************************************)
EXTENDS Observers, TLC, TraceTools
CONSTANT Props
VARIABLES l, st
NS == 4
NH == 4
Init == l = 1 /\ st = NoSignals(NS, NH)
Listed(n, i, e) == Ids(n, i) = e.ids
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       CASE e.e \in {"scenario", "end"} -> st' = NoSignals(NS, NH)
         [] e.e = "add" -> Fresh(st, e.sig, e.id) /\ st' = Add(st, e.sig, e.id, "obs", e.tag, e.ret) /\ Listed(st', e.sig, e)
         [] e.e = "fwd" -> Fresh(st, e.sig, e.id) /\ st' = Add(st, e.sig, e.id, "fwd", e.to, FALSE) /\ Listed(st', e.sig, e)
         [] e.e = "remove" -> st' = Unregister(st, e.sig, e.id) /\ Listed(st', e.sig, e)
         [] e.e = "clear" -> st' = Clear(st, e.sig) /\ Listed(st', e.sig, e)
         [] e.e = "hold" -> /\ e.ids # <<>> /\ Fresh(st, e.sig, Last(e.ids))
                            /\ st' = Hold(st, e.h, e.sig, Last(e.ids), e.tag, e.ret) /\ Listed(st', e.sig, e)
         [] e.e \in {"finish", "drop"} -> st' = Finish(st, e.h) /\ (e.sig # 0 => Listed(st', e.sig, e))
         [] e.e = "move" -> st' = Move(st, e.from, e.to) /\ Listed(st', e.sig, e)
         [] e.e = "empty" -> e.r = (st.sig[e.sig] = <<>>) /\ UNCHANGED st
         [] e.e = "notify" -> /\ e.tags = Calls(st, e.sig)
                              /\ \A k \in DOMAIN e.args : e.args[k] = e.arg
                              /\ e.r = Result(st, e.sig)
                              /\ UNCHANGED st
         [] OTHER -> FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
