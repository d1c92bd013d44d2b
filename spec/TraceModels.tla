---------------------------- MODULE TraceModels ----------------------------
(* Accepts a trace of drivers/models.cpp: the built-in models.               *)
EXTENDS Models, FiniteSets, SequencesExt, TraceTools
CONSTANT Props
VARIABLES l, s
None == [m |-> "", p |-> <<>>, sticking |-> FALSE]
U == "1p-52"
\* two values of a parameter; that of "n" is an integer
SameP(n, a, b) == IF n = "friction" THEN a = b ELSE RClose(a, b, 0, "1/1000000000000000")
SamePs(p, q) == DOMAIN p = DOMAIN q /\ \A n \in DOMAIN p : SameP(n, p[n], q[n])
\* an unknown friction is refused; names that the model does not have mean nothing
Refused(m, g) == m = "sliding_point" /\ "friction" \in DOMAIN g /\ g.friction \notin Frictions
Given(m, p, g) == [n \in DOMAIN p |-> IF n \in DOMAIN g THEN g[n] ELSE p[n]]
Counts(m, p, e) == /\ e.second = Second(m, p) /\ e.first = First(m) /\ e.vars = Vars(m, p) /\ e.ids = e.vars
                   /\ e.zf = Len(Flags(m)) /\ e.flags = Flags(m)
Told(q, e) == IF SamePs(q.p, e.p) /\ Counts(q.m, q.p, e) THEN [q EXCEPT !.p = e.p] ELSE <<>>
\* how much the k-th element of the derivative may be off
Slack(m, p, sticking, t, x) ==
    CASE m = "oscillator" -> <<0, RAdd(RAbs(p.f), RAbs(RMul(p.c, x[1])))>>
      [] m = "coupled_nl_osc" -> LET n == p.n
                                     d(k) == RAdd(RAbs(x[k]), IF k = 1 THEN 0 ELSE RAbs(x[k-1]))
                                     f(k) == RMul(d(k), RAdd(RAbs(p.c0), RMul(RAbs(p.c2), RMul(d(k), d(k)))))
                                 IN [k \in 1..2*n |-> IF k <= n THEN 0 ELSE RMul(4, RAdd(f(k-n), IF k < 2*n THEN f(k-n+1) ELSE RAbs(p.f)))]
      [] m = "stiff_1d" -> <<RMul(RAbs(p.a), RAdd(1, RAbs(x[1])))>>
      [] m = "bouncing_ball" -> <<0, 0>>
      [] m = "sliding_point" -> LET f == RDiv(RMul(RAbs(p.f0), RMax(1, RDiv(Speed(x[3], x[4]), p.v0))), RAbs(p.mass))
                                    d == RDiv(RMul(RAbs(p.F2), RAdd(1, RAbs(RMul(p.omega, t)))), RAbs(p.mass))
                                IN <<0, 0, RAdd(f, RAbs(RDiv(p.F1, p.mass))), RAdd(f, d)>>
RhsOK(q, e) == LET w == TLCEval(Rhs(q.m, q.p, q.sticking, e.t, e.x))
                   z == TLCEval(Slack(q.m, q.p, q.sticking, e.t, e.x))
               IN /\ e.observed /\ Len(e.d) = Vars(q.m, q.p) /\ Len(e.x) = Len(e.d)
                  /\ \A k \in DOMAIN e.d : RLe(RAbs(RSub(e.d[k], w[k])), RMul(RMul(8, U), z[k]))
SwitchOK(q, e) == IF q.m = "bouncing_ball" THEN VEq(VNum(e.y), VNum(AfterSwitch(q.p, e.x))) \/ (~Rests(q.p, e.x) /\ REq(e.x[1], e.y[1]) /\ RClose(e.y[2], AfterSwitch(q.p, e.x)[2], 0, U))
                  ELSE VEq(e.y, e.x)
After(e) ==
    CASE e.e \in {"scenario", "end"} -> None
      [] e.e = "type" -> [None EXCEPT !.m = e.m, !.p = Default(e.m)]
      [] e.e = "new" -> Told(s, e)
      [] e.e = "set" -> IF e.refused # Refused(s.m, e.given) THEN <<>> ELSE Told(IF e.refused THEN s ELSE [s EXCEPT !.p = Given(s.m, @, e.given)], e)
      [] e.e = "rhs" -> IF RhsOK(s, e) THEN s ELSE <<>>
      [] e.e = "zero" -> IF VEq(e.z, ZeroFunctions(s.m, e.x)) THEN s ELSE <<>>
      [] e.e = "switch" -> IF SwitchOK(s, e) THEN [s EXCEPT !.sticking = @ \/ (s.m = "bouncing_ball" /\ Rests(s.p, e.x))] ELSE <<>>
      \* once the ball rests it stays where it is
      [] e.e = "at" -> IF s.m = "bouncing_ball" /\ s.sticking => VEq(e.x, <<0, 0>>) THEN s ELSE <<>>
      [] e.e = "gave_up" -> s
      [] OTHER -> <<>>
Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
