----------------------------- MODULE TraceVectors -----------------------------
(* Accepts a trace of drivers/vec.cpp.  Every event lists all vectors (e.all) after the operation. *)
EXTENDS Vectors, TLC, TraceTools
CONSTANT Props
VARIABLES l, env
NV == 4
Zero == [k \in 1..NV |-> <<>>]
Operations == {"new", "copy", "assign", "add", "sub", "mul", "set", "clear", "resize", "swap", "plus", "minus", "map", "read", "norms", "dot", "str"}
Same(a, b, exact) == \A k \in 1..NV : IF exact THEN VEq(a[k], b[k]) ELSE VClose(a[k], b[k], 0, Eps)
Init == l = 1 /\ env = Zero
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       CASE e.e \in {"scenario", "end"} -> env' = Zero
         [] e.e \in Operations ->
                LET n == TLCEval(Step(env, e)) IN
                /\ Same(e.all, n, ~(e.e = "map" /\ e.f = "sqrt"))
                /\ Result(n, e)
                /\ env' = e.all
         [] OTHER -> FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, env>>
=============================================================================
