----------------------------- MODULE GenDescent -----------------------------
(* All orders of directions, resets and reports, for drivers/descent.cpp.  *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS Kinds, Length
VARIABLES kind, ops
Last3(o) == IF ops = <<>> THEN "hard" ELSE ops[Len(ops)]
Allowed(o) == /\ (o \in {"ok", "fail"} => Last3(o) = "dir")
              /\ (o \in {"hard", "soft"} => ops # <<>> /\ Last3(o) \notin {"hard", "soft"})
              /\ (o = "dir" => Last3(o) \notin {"ok", "fail"})
Init == kind \in Kinds /\ ops = <<>>
Next == /\ Len(ops) < Length
        /\ \E o \in {"dir", "hard", "soft", "ok", "fail"} : Allowed(o) /\ ops' = Append(ops, o)
        /\ kind' = kind
        /\ (Len(ops') = Length /\ ops'[Length] = "dir" => PrintT("SCN " \o ToJson([kind |-> kind, ops |-> ops'])))
Spec == Init /\ [][Next]_<<kind, ops>>
=============================================================================
