------------------------------- MODULE TraceLU -------------------------------
(* Accepts a trace of drivers/lu.cpp. *)
EXTENDS LU, TraceTools
CONSTANT Props
VARIABLES l, s
LayoutOk(t, e) == /\ e.n = t.n /\ e.empty = (t.n = 0) /\ ~e.fact
                  /\ e.p = [i \in 1..t.n |-> t.p[i] - 1] /\ e.q = [i \in 1..t.n |-> t.q[i] - 1]
                  /\ e.s = [i \in 1..t.n |-> MaxOf({j \in i..t.n : t.q[j] <= i}, i) - 1]
Small(h) == /\ RLe(Scale(h.L), 1000) /\ \A i \in DOMAIN h.U : RGt(RAbs(h.U[i][i]), RMul("1/1000", Scale(h.U)))
HartOk(t, h, e) ==
    LET want == TLCEval(MMul(h.L, h.U))
        tol == TLCEval(RMul("1e-9", RMax(Scale(want), Scale(t.A))))
    IN \A i, j \in 1..t.n : RLe(RAbs(RSub(e.m[i][j], want[i][j])), tol)
\* The state after an event, or <<>> if the event is wrong
After(e) ==
    CASE e.e \in {"scenario", "end"} -> Nothing
      [] e.e = "set" -> LET n == TLCEval(Set(s, e.m, e.thrown)) IN
            IF e.thrown = ~Acceptable(e.m) /\ (e.thrown \/ LayoutOk(n, e)) THEN n ELSE <<>>
      [] e.e = "fast" -> LET n == TLCEval(IF e.thrown THEN [Nothing EXCEPT !.ph = "ill"] ELSE SetFast(s, e.m)) IN
            IF e.thrown = (~Covered(s, e.m) /\ ~Acceptable(e.m)) /\ (e.thrown \/ LayoutOk(n, e)) THEN n ELSE <<>>
      [] e.e = "solve" -> IF e.fact /\ (s.ph = "set" => Solves(s.A, e.b, e.x)) THEN [s EXCEPT !.fact = TRUE] ELSE <<>>
      [] e.e = "elements" -> IF s.ph = "set" => Shows(s, e.m) /\ Shows(s, e.lu) THEN s ELSE <<>>
      [] e.e = "hart" ->
            IF ~e.fact THEN <<>>
            ELSE IF s.ph # "set" THEN [s EXCEPT !.fact = TRUE]
            ELSE LET h == TLCEval(Hart(s, e.d, e.y)) IN
                 IF ~Small(h) THEN [s EXCEPT !.fact = TRUE, !.ph = "ill"]
                 ELSE IF HartOk(s, h, e) /\ InPattern(s, e.m) THEN [s EXCEPT !.fact = TRUE, !.A = e.m, !.ph = IF WellPosed(e.m) THEN "set" ELSE "ill"]
                 ELSE <<>>
      [] OTHER -> <<>>
Init == l = 1 /\ s = Nothing
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
