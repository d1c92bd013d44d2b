----------------------------- MODULE TraceNewton -----------------------------
(* Accepts a trace of drivers/newton.cpp. *)
EXTENDS Newton, Rat, TraceTools
CONSTANT Props
VARIABLES l, s
\* s = the wires, the current solution
Nothing == [w |-> NoWires, x |-> <<>>]
Big(x) == RAdd(1, RMul(VInfNorm(x), VInfNorm(x)))
Near(a, b, x) == (VAllNum(a) /\ VAllNum(b) /\ VAllNum(x)) => VClose(a, b, RMul("1e-10", Big(x)), "1e-10")
Same(a, b) == ~VAllNum(b) \/ ~VAllNum(a) \/ VEq(a, b)
WiresOk(w, e) ==
    /\ \A i \in DOMAIN e.maps : e.maps[i] = w.map
    /\ e.est = w.est /\ e.regest = w.est
    /\ e.ddir = w.ddir /\ e.regddir = w.ddir
    /\ e.ls = w.ls /\ e.reg = w.reg /\ e.jp = w.jp /\ e.trim = w.trim
\* iteration entry e, in state t of the run, from point x
IterOk(t, p, x0, x, e, reg) ==
    LET d == e.dirs[1]
        q == e.searches[1]
        f(y) == PolyMap(p, 0, y, 200)
        y == TLCEval(IF VAllNum(x) /\ VAllNum(q.dir) THEN VAxpy(q.ratio, q.dir, x) ELSE <<>>)
    IN /\ e.n = t.num /\ e.same
       /\ Len(e.dirs) = 1 /\ Len(e.searches) = 1 /\ Len(e.ests) = 1
       \* an attempt starts with a reset, a hard one if it is the second
       /\ IF t.it = 0 THEN Len(e.estresets) > 0 /\ Same(e.estresets[Len(e.estresets)], x0) /\ Len(e.resets) > 0
          ELSE e.estresets = <<>> /\ e.resets = <<>>
       /\ (\E i \in DOMAIN e.resets : e.resets[i]) = (t.it = 0 /\ t.tried)
       \* the direction at the current point with its residual, searched and followed
       /\ Same(d.x, x) /\ Near(d.f, f(x), x) /\ d.it = t.it
       /\ Same(q.x, x) /\ q.f = d.f /\ q.dir = d.dir /\ q.asked
       /\ (y # <<>> /\ VAllNum(e.x)) => VClose(e.x, y, "1e-300", "1e-14")
       /\ e.ratio = q.ratio
       /\ Near(e.f, f(e.x), e.x)
       /\ Same(e.ests[1].x, e.x) /\ e.ests[1].f = e.f
       /\ e.adjusts = (IF reg /\ ~e.term THEN 1 ELSE 0)
RECURSIVE Runs(_, _, _, _, _, _, _)
\* the state of the run after its iterations, [result |-> "wrong"] if one of them is wrong
Runs(t, p, x0, x, es, i, reg) ==
    IF i > Len(es) THEN t
    ELSE IF t.result # "" THEN [t EXCEPT !.result = "wrong"]
    ELSE LET e == es[i] IN
         IF ~IterOk(t, p, x0, x, e, reg) THEN [t EXCEPT !.result = "wrong"]
         ELSE LET u == TLCEval(Iterate(t, Effective(e.st, REq(e.ratio, 0)), e.term, e.adj)) IN
              Runs(u, p, x0, IF u.it = 0 /\ u.result = "" THEN x0 ELSE e.x, es, i + 1, reg)
RunOk(st, e) ==
    LET t == TLCEval(Runs(StartRun(e.limit, e.help), e.polys, e.x0, e.x0, e.iters, 1, st.w.reg # 0))
        n == Len(e.iters)
    IN /\ t.result = e.status
       /\ ToldOk(t, e.told)
       /\ e.limit = e.set
       /\ WiresOk(st.w, e.wires)
       /\ Same(e.x0, st.x)
       /\ Same(e.x, IF n = 0 THEN e.x0 ELSE e.iters[n].x)
       /\ e.text = IF e.status = "limit" THEN "iteration count limit exceeded" ELSE e.status
\* the derivative of output i along input i (exact for quadratic polynomials)
Diagonal(p, x, i) == LET at(h) == PolyEval(p[i], <<0>> \o [x EXCEPT ![i] = RAdd(@, h)]) IN RDiv(RSub(at(1), at(-1)), 2)
RefusedOk(e) == ~VAllNum(e.x) \/ \E i \in DOMAIN e.x : RLt(RAbs(Diagonal(e.polys, e.x, i)), "1/1000")
After(e) ==
    CASE e.e \in {"scenario", "end"} -> Nothing
      [] e.e = "set" -> [s EXCEPT !.w = Wire(s.w, e.what, e.id)]
      [] e.e = "guess" ->
            IF /\ e.resets # <<>> /\ (\E i \in DOMAIN e.resets : e.resets[i]) = e.hard
               /\ e.estresets # <<>> /\ VEq(e.estresets[Len(e.estresets)], e.x)
               /\ VEq(e.sol, e.x)
            THEN [s EXCEPT !.x = e.x] ELSE <<>>
      [] e.e = "run" -> IF RunOk(s, e) THEN [s EXCEPT !.x = e.x] ELSE <<>>
      [] e.e = "refused" -> IF RefusedOk(e) THEN s ELSE <<>>
      [] OTHER -> <<>>
Init == l = 1 /\ s = Nothing
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
