----------------------------- MODULE TraceSparse -----------------------------
(* Accepts a trace of drivers/sparse.cpp.  Every event lists all matrices (e.all) after the operation. *)
EXTENDS SparseMatrices, TLC, TraceTools
CONSTANT Props
VARIABLES l, env
NV == 5
Zero == [k \in 1..NV |-> Empty(k > 3, 0, 0)]
Operations == {"new", "data", "copy", "assign", "add", "sub", "set", "times", "mul", "identity", "addid", "zero", "resize", "shrink", "remove", "clear", "read", "norms", "mv", "vm", "text"}
Init == l = 1 /\ env = Zero
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       CASE e.e \in {"scenario", "end"} -> env' = Zero
         [] e.e \in Operations ->
                LET n == TLCEval(Step(env, e)) IN
                /\ \A k \in 1..NV : MEq(e.all[k], n[k])
                /\ Result(n, env, e)
                /\ env' = n
         [] OTHER -> FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, env>>
=============================================================================
