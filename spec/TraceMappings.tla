---------------------------- MODULE TraceMappings ----------------------------
(* Accepts a trace of drivers/map.cpp. *)
EXTENDS Mappings, TraceTools
CONSTANT Props
VARIABLES l, s
None == [b |-> [k |-> "diag", d |-> <<>>, inv |-> 0], ys |-> <<>>]
\* st matters where inputs are disabled only
Tol(arg, v) == RMul("1e-10", RAdd(RAdd(1, VInfNorm(v)), RMul(100, RMul(VInfNorm(arg), VInfNorm(arg)))))
Near(u, v, tol) == Len(u) = Len(v) /\ VAllNum(u) /\ \A i \in DOMAIN u : RLe(RAbs(RSub(u[i], v[i])), tol)
MapOk(e) ==
    LET arg == TLCEval(Argument(s.b, s.ys, e.x))
        v == TLCEval(Value(s.b, s.ys, e.x))
        tol == TLCEval(Tol(arg, v))
    IN /\ e.isize = InSize(s.b, s.ys, Len(s.ys)) /\ e.osize = OutSize(s.b, s.ys, Len(s.ys))
       /\ VEq(e.ins, InIds(s.b, s.ys)) /\ VEq(e.outs, OutIds(s.b, s.ys))
       /\ Near(e.v, v, tol) /\ VEq(e.after, e.x)
       /\ (s.b.k = "poly" => Len(e.args) >= 1 /\ \A k \in DOMAIN e.args : Near(e.args[k], arg, tol))
PartOk(e) ==
    LET i == e.i + 1
        y == s.ys[i]
        ni == InSize(s.b, s.ys, i - 1)
    IN VEq(e.v, CASE e.op = "narrowIn" -> Reduce(e.x, SetOf(y.din))
                  [] e.op = "widenIn" -> Widen(e.x, ni, SetOf(y.din), y.st)
                  [] e.op = "narrowOut" -> Reduce(e.x, SetOf(y.dout))
                  [] e.op = "orderIn" -> Order(e.x, y.iord)
                  [] e.op = "unorderIn" -> Unorder(e.x, y.iord)
                  [] e.op = "orderOut" -> Order(e.x, y.oord)
                  [] e.op = "unorderOut" -> Unorder(e.x, y.oord))
\* scales that make the diagonal of the Jacobian 1 in magnitude; no scale if an element of it is zero
NormalizeOk(e) ==
    LET ys == SubSeq(s.ys, 1, e.i)
        h == "1/1000000"
        at(j, d) == Value(s.b, ys, [e.x EXCEPT ![j] = RAdd(@, d)])[j]
        J == TLCEval([j \in DOMAIN e.x |-> RDiv(RSub(at(j, h), at(j, 0)), h)])
        big == VInfNorm(Value(s.b, ys, e.x))
        zero(j) == RLe(RAbs(J[j]), RMul("1e-7", RAdd(1, big)))
    IN IF e.thrown THEN (\E j \in DOMAIN J : zero(j)) /\ VEq(e.d, s.ys[e.i + 1].d)
       ELSE /\ Len(e.d) = Len(J) /\ \A j \in DOMAIN J : ~REq(J[j], 0)
            /\ \A j \in DOMAIN J : zero(j) \/ (RGt(e.d[j], 0) /\ RLe(RAbs(RSub(RMul(RMul(e.d[j], e.d[j]), RAbs(J[j])), 1)), RAdd("1e-6", RDiv(RMul("1e-7", RAdd(1, big)), RAbs(J[j])))))
\* The state after an event, or <<>> if the event is wrong
After(e) ==
    CASE e.e \in {"scenario", "end"} -> None
      [] e.e = "base" -> [s EXCEPT !.b = e.b]
      [] e.e = "push" -> [s EXCEPT !.ys = Append(@, e.y)]
      [] e.e = "config" -> [s EXCEPT !.ys[e.i + 1] = e.y]
      [] e.e = "map" -> IF MapOk(e) THEN s ELSE <<>>
      [] e.e = "part" -> IF PartOk(e) THEN s ELSE <<>>
      [] e.e = "readnarrow" -> LET y == s.ys[e.i + 1] IN
            IF /\ e.din = SortedIndices(SetOf(y.din), InSize(s.b, s.ys, e.i)) /\ e.dout = SortedIndices(SetOf(y.dout), OutSize(s.b, s.ys, e.i))
               /\ VEq(e.st, y.st) THEN s ELSE <<>>
      [] e.e = "readorder" -> IF e.iord = s.ys[e.i + 1].iord /\ e.oord = s.ys[e.i + 1].oord THEN s ELSE <<>>
      [] e.e = "normalize" -> IF NormalizeOk(e) THEN [s EXCEPT !.ys[e.i + 1].d = e.d] ELSE <<>>
      [] e.e = "refuse" -> IF e.thrown THEN s ELSE <<>>
      [] e.e = "time" -> IF e.ok THEN s ELSE <<>>
      [] e.e = "unmap" -> LET v == BaseAt([s.b EXCEPT !.inv = @ + 1], e.x) IN IF Near(e.v, v, Tol(e.x, v)) THEN s ELSE <<>>
      [] e.e = "euler" -> IF /\ REq(e.h, s.b.h) /\ REq(e.alpha, s.b.alpha) /\ REq(e.t, s.b.t) /\ VEq(e.x0, s.b.x0)
                             /\ VEq(e.eqn, SubSeq(s.b.x0, s.b.nd + 1, NN(s.b))) /\ RClose(e.ph, s.b.h, "0", "1e-14") /\ RClose(e.palpha, s.b.alpha, "0", "1e-14") THEN s ELSE <<>>
      [] e.e = "states" -> IF Near(e.full, Expand(s.b, e.x), "1e-10") /\ VEq(e.eqn, SubSeq(e.from, s.b.nd + 1, NN(s.b))) THEN s ELSE <<>>
      [] OTHER -> <<>>
Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
