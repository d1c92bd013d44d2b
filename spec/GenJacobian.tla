----------------------------- MODULE GenJacobian -----------------------------
(* All short histories of a Jacobian provider, for drivers/jac.cpp.  *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS Length
VARIABLES kind, ops
Init == kind \in {"default", "sparse"} /\ ops = <<>>
Next == /\ Len(ops) < Length
        /\ \E o \in {"map", "reset", "none", "width", "threshold", "compute", "poke"} :
            /\ (o = "poke" => ops # <<>> /\ ops[Len(ops)] = "compute")
            /\ (Len(ops) = Length - 1 => o = "compute")
            /\ ops' = Append(ops, o)
        /\ kind' = kind
        /\ (Len(ops') = Length => PrintT("SCN " \o ToJson([kind |-> kind, ops |-> ops'])))
Spec == Init /\ [][Next]_<<kind, ops>>
=============================================================================
