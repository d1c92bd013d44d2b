---------------------------- MODULE GenOdeSolver ----------------------------
(* Histories of MCOdeSolver, to be replayed into the code (drivers/ode.cpp gen). *)
EXTENDS MCOdeSolver
VARIABLE told
GInit == Init /\ told = FALSE
GNext == \/ ~told /\ Next /\ UNCHANGED told
         \/ /\ calls = MaxCalls /\ s.ph \in {"idle", "failed"} /\ ~told /\ told' = TRUE /\ UNCHANGED vars
            /\ PrintT("SCN " \o ToJson([name |-> s.cfg.name, smooth |-> s.cfg.par.smooth, disable |-> s.cfg.par.disable,
                                        zf |-> s.cfg.sys.zf, speed |-> s.cfg.sys.f[2][1][1].c, ops |-> ops]))
GSpec == GInit /\ [][GNext]_<<vars, told>>
=============================================================================
