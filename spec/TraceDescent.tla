----------------------------- MODULE TraceDescent -----------------------------
(* Accepts a trace of drivers/descent.cpp.  lu is TRUE after a refusal.  *)
EXTENDS Descent, TraceTools
CONSTANT Props
VARIABLES l, s
None == [d |-> NewStrategy("const"), n |-> 0, watch |-> FALSE, it |-> 0]
\* what the observers of a direction are told; the matrix may be shown any time it is known
InOrder(order, new, watch) ==
    LET get == IF new THEN <<"start", "compute", "stop">> ELSE <<>>
    IN /\ SelectSeq(order, LAMBDA a : a # "matrix") = get \o <<"pre", "post">>
       /\ Cardinality({i \in DOMAIN order : order[i] = "matrix"}) = (IF watch THEN 1 ELSE 0)
       /\ \A i \in DOMAIN order : order[i] = "matrix" => i > Len(get)
Near(M, A, tol) == Len(M) = Len(A) /\ \A i \in DOMAIN A : Len(M[i]) = Len(A) /\ \A j \in DOMAIN A : VAllNum(M[i]) /\ RLe(RAbs(RSub(M[i][j], A[i][j])), tol)
\* A*dir = -f
Descends(A, f, dir) ==
    LET r == TLCEval(MVec(A, dir))
        tol == TLCEval(RMul("1e-9", RAdd(RMul(Scale(A), RMul(Len(f), VInfNorm(dir))), VInfNorm(f))))
    IN VAllNum(dir) /\ \A i \in DOMAIN f : RLe(RAbs(RAdd(r[i], f[i])), tol)
Direction(e) ==
    LET need == Needs(s.d, e.it)
        c == TLCEval(At(s.d, e.x, e.f, e.it, IF need THEN e.computed[1].m ELSE <<>>))
        sure == Reliable(c)
        tol == RMul("1e-9", RMax(1, Scale(c.A)))
        known == c.kind # "hart" \/ ~c.ill
        sync == IF s.watch /\ known THEN [c EXCEPT !.A = e.seen] ELSE c
    IN IF /\ Len(e.computed) = (IF need THEN 1 ELSE 0)
          /\ (need => VEq(e.computed[1].x, e.x))
          /\ (e.thrown => need /\ ~Acceptable(e.computed[1].m))
       THEN IF e.thrown THEN [s EXCEPT !.it = 0]
            ELSE IF /\ InOrder(e.order, need, s.watch)
                    /\ (s.watch => VEq(e.obs.x, e.x) /\ VEq(e.obs.f, e.f) /\ (known => Near(e.seen, c.A, tol)))
                    /\ (sure => Descends(c.A, e.f, e.dir) /\ VEq(e.post, e.dir))
                 THEN [s EXCEPT !.d = sync, !.it = e.it + 1]
                 ELSE <<>>
       ELSE <<>>
\* The state after an event, or <<>> if the event is wrong
After(e) ==
    CASE e.e \in {"scenario", "end"} -> None
      [] e.e = "strategy" -> [d |-> NewStrategy(e.kind), n |-> e.n, watch |-> e.watch, it |-> 0]
      [] e.e = "lazy" -> [s EXCEPT !.d.lazy = e.n]
      [] e.e = "reset" -> IF e.computed = 0 /\ e.told = (IF e.hard THEN <<"hard">> ELSE <<>>) THEN [s EXCEPT !.d = ResetStrategy(s.d, e.hard)] ELSE <<>>
      [] e.e = "report" -> [s EXCEPT !.d = ReportTo(s.d, e.ok)]
      [] e.e = "dir" -> Direction(e)
      [] OTHER -> <<>>
Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
