------------------------------ MODULE TraceSearch ------------------------------
(* Accepts a trace of drivers/search.cpp. *)
EXTENDS LineSearch, TraceTools
CONSTANT Props
VARIABLES l, s
\* s = [e |-> estimator, p |-> its parameters]
Nothing == [e |-> NewEstimator, p |-> DefaultParams]
SearchOk(e) ==
    LET t == TLCEval(TryAll(StartSearch(e.max, Norm2(e.f0)), [i \in DOMAIN e.trials |-> Norm2(e.trials[i].f)], 1))
        r(i) == RMul(IF i > e.max THEN -1 ELSE 1, RPow("1/2", (i - 1) % e.max))
    IN /\ t.done /\ t.tried = Len(e.trials)
       /\ REq(e.ratio, t.ratio)
       /\ \A i \in DOMAIN e.trials :
            /\ VClose(e.trials[i].x, VAxpy(r(i), e.dir, e.x0), "1e-300", "1e-14")
            /\ e.told[i].it = i - 1 /\ REq(e.told[i].ratio, r(i)) /\ e.told[i].same /\ e.told[i].f = e.trials[i].f
       /\ Len(e.told) = Len(e.trials)
       \* the residual of the point returned; untouched if that is the starting point
       /\ e.asked => IF t.at = 0 THEN VEq(e.res, e.res0) ELSE e.res = e.trials[t.at].f
StatusOk(t, e) == /\ RClose(e.abs, t.e.abs, 0, 0) /\ RClose(e.rel, t.e.rel, "1e-300", "1e-14")
                  /\ e.status = EstStatus(e.abs, e.rel, t.p) /\ e.text = e.status
\* a parameter travels as text with 16 digits
Same(a, b) == RClose(a, b, 0, "1e-14")
ParamOk(t, e) == Same(e.at, t.p.at) /\ Same(e.rt, t.p.rt) /\ Same(e.am, t.p.am) /\ Same(e.rm, t.p.rm)
After(e) ==
    CASE e.e \in {"scenario", "end"} -> Nothing
      [] e.e = "search" -> IF SearchOk(e) THEN s ELSE <<>>
      [] e.e = "est-reset" -> LET t == TLCEval([s EXCEPT !.e = EstReset(e.x)]) IN IF StatusOk(t, e) THEN t ELSE <<>>
      [] e.e = "est-set" -> LET t == TLCEval([s EXCEPT !.e = EstSet(s.e, e.x, e.res)]) IN
            \* observers are told once, of this solution, and see the new errors
            IF StatusOk(t, e) /\ Len(e.told) = 1 /\ VEq(e.told[1].x, e.x) /\ VEq(e.told[1].res, e.res)
               /\ REq(e.told[1].abs, e.abs) /\ REq(e.told[1].rel, e.rel) THEN t ELSE <<>>
      [] e.e = "est-param" -> LET t == TLCEval([s EXCEPT !.p = [k \in DOMAIN s.p |-> IF k \in DOMAIN e.set THEN e.set[k] ELSE s.p[k]]]) IN
            LET u == TLCEval([t EXCEPT !.p = [at |-> e.at, rt |-> e.rt, am |-> e.am, rm |-> e.rm]]) IN
            IF ParamOk(t, e) /\ StatusOk(u, e) THEN u ELSE <<>>
      [] OTHER -> <<>>
Init == l = 1 /\ s = Nothing
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
