----------------------------- MODULE GenObservers -----------------------------
(* Histories of MCObservers, to be replayed into the code (drivers/obs.cpp gen). *)
EXTENDS MCObservers
VARIABLE told
GInit == Init /\ told = FALSE
GNext == \/ ~told /\ Next /\ UNCHANGED told
         \/ Len(ops) = MaxOps /\ ~told /\ told' = TRUE /\ UNCHANGED vars /\ PrintT("SCN " \o ToJson([ops |-> ops]))
GSpec == GInit /\ [][GNext]_<<vars, told>>
=============================================================================
