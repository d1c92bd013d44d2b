---------------------------- MODULE GenEventControl ----------------------------
(* Histories of MCEventControl, to be replayed into the code (drivers/ec.cpp). *)
EXTENDS MCEventControl, Json
VARIABLES ops, told
GInit == Init /\ ops = <<>> /\ told = FALSE
GNext ==
    \/ /\ Len(ops) < 12 /\ UNCHANGED told
       /\ \/ Start /\ ops' = Append(ops, [op |-> "start", v |-> z', z2 |-> <<>>, zr |-> <<>>])
          \/ Step /\ ops' = Append(ops, [op |-> "step", v |-> <<>>, z2 |-> last'.z2, zr |-> z'])
          \/ Reset /\ UNCHANGED ops
    \* (told once per behaviour: TLC evaluates every enabled action)
    \/ /\ Len(ops) = 12 /\ ~told /\ told' = TRUE /\ PrintT("SCN " \o ToJson([flags |-> flags, ops |-> ops])) /\ UNCHANGED <<vars, ops>>
GSpec == GInit /\ [][GNext]_<<vars, ops, told>>
=============================================================================
