---------------------------- MODULE TraceJacobian ----------------------------
(* Accepts a trace of drivers/jac.cpp. *)
EXTENDS Jacobian, TraceTools
CONSTANT Props
VARIABLES l, s
None == [map |-> <<>>, rows |-> 0, cols |-> 0, v |-> NewProvider("default"), have |-> <<>>, required |-> 0]
Shifted(e, x) == {j - 1 : j \in {i \in DOMAIN x : ~REq(e.x[i], x[i])}}
\* evaluations of a mapping: at x, and at points each of which moves some inputs by (nearly) h
EvalsOk(ev, x, h) ==
    /\ \E k \in DOMAIN ev : VEq(ev[k].x, x)
    /\ \A k \in DOMAIN ev : \A i \in DOMAIN x : REq(ev[k].x[i], x[i]) \/ RLe(RAbs(RSub(RSub(ev[k].x[i], x[i]), h)), RMul("1e-7", h))
MoverOf(ev, x, j) == LET ks == {k \in DOMAIN ev : j \in Shifted(ev[k], x)} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A b \in ks : k <= b
\* m[row, column] is the quotient given by the evaluation that moved the column
Quotients(ev, x, m, h) ==
    LET base == ev[CHOOSE k \in DOMAIN ev : VEq(ev[k].x, x)].f
    IN \A k \in DOMAIN m : LET mv == MoverOf(ev, x, m[k][2])
                               i == m[k][1] + 1
                               q == RDiv(RSub(ev[mv].f[i], base[i]), h)
                           IN mv > 0 /\ RIsNum(m[k][3]) /\ RClose(m[k][3], q, "0", "1e-7")
\* the matrix is near the exact differences D, where it has to be
Closely(m, D, ev) ==
    LET big == FoldLeft(LAMBDA a, b : RMax(a, VInfNorm(b.f)), 1, ev)
        A == AsDense(m, Len(D), IF D = <<>> THEN 0 ELSE Len(D[1]))
    IN \A i \in DOMAIN D : \A j \in DOMAIN D[i] : RIsNum(A[i][j]) /\ RClose(A[i][j], D[i][j], RMul("1e-7", RMul(10, big)), "1e-6")
InRange(m, rows, cols) == \A k \in DOMAIN m : m[k][1] \in 0..(rows - 1) /\ m[k][2] \in 0..(cols - 1)
DenseOk(p, x, h, ev, m) ==
    /\ EvalsOk(ev, x, h)
    /\ \A k \in DOMAIN ev : Cardinality(Shifted(ev[k], x)) <= 1
    /\ InRange(m, Len(p), Len(x)) /\ Quotients(ev, x, m, h)
    /\ Closely(m, ForwardDifferences(p, x, h), ev)
SparseOk(p, x, h, ev, m, pat) ==
    LET cols == Len(x)
        moving == SelectSeq(ev, LAMBDA e : Shifted(e, x) # {})
        gs == [k \in DOMAIN moving |-> Shifted(moving[k], x)]
    IN /\ EvalsOk(ev, x, h)
       /\ Len(ev) = Len(moving) + 1
       /\ GoodGroups(pat, cols, gs)
       /\ Positions(m) = pat /\ Len(m) = Cardinality(pat)
       /\ Quotients(ev, x, m, h)
       /\ (Structure(p, cols) \subseteq pat => Closely(m, ForwardDifferences(p, x, h), ev))
TrimOk(kind, par, m, out) == {out[k] : k \in DOMAIN out} = {m[k] : k \in {i \in DOMAIN m : Stays(kind, par, m, m[i])}} /\ Len(out) = Cardinality({out[k] : k \in DOMAIN out})
Step6 == "1/1000000"
Compute(e) ==
    LET v == s.v
        n == s.rows
        p == s.map
    IN IF e.size # <<n, n>> THEN <<>>
       ELSE IF UsesPattern(v)
       THEN IF e.trims = <<>> /\ SparseOk(p, e.x, Step6, e.evals, e.m, v.pat[1]) THEN s ELSE <<>>
       ELSE IF v.trim = "none"
       THEN IF e.trims = <<>> /\ DenseOk(p, e.x, Step6, e.evals, e.m) THEN [s EXCEPT !.v = Detected(v, Positions(e.m))] ELSE <<>>
       ELSE IF /\ Len(e.trims) = 1 /\ DenseOk(p, e.x, Step6, e.evals, e.trims[1].m)
               /\ TrimOk(v.trim, v.par, e.trims[1].m, e.trims[1].out)
               /\ Range(e.m) = Range(e.trims[1].out) /\ Len(e.m) = Len(e.trims[1].out)
            THEN s ELSE <<>>
\* The state after an event, or <<>> if the event is wrong
After(e) ==
    CASE e.e \in {"scenario", "end"} -> None
      [] e.e = "map" -> [s EXCEPT !.map = e.p, !.rows = e.rows, !.cols = e.cols]
      [] e.e = "dense" -> IF e.size = <<s.rows, s.cols>> /\ DenseOk(s.map, e.x, Step6, e.evals, e.m) THEN s ELSE <<>>
      [] e.e = "calculator" -> [s EXCEPT !.have = e.m, !.required = e.required]
      [] e.e = "calculate" -> IF SparseOk(s.map, e.x, e.h, e.evals, e.m, Positions(s.have)) /\ Len(e.evals) = s.required THEN s ELSE <<>>
      [] e.e = "trim" -> IF e.size = e.outsize /\ TrimOk(e.kind, e.par, e.m, e.out) THEN s ELSE <<>>
      [] e.e = "provider" -> [s EXCEPT !.v = NewProvider(e.kind)]
      [] e.e = "trimmer" -> [s EXCEPT !.v = SetTrimmer(@, e.kind, e.par)]
      [] e.e = "tune" -> [s EXCEPT !.v.par = e.par]
      [] e.e = "wired" -> IF e.ok THEN s ELSE <<>>
      [] e.e = "reset" -> IF e.empty THEN [s EXCEPT !.v = Forget(@)] ELSE <<>>
      [] e.e = "compute" -> Compute(e)
      [] OTHER -> <<>>
Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
