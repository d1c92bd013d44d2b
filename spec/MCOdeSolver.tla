------------------------------ MODULE MCOdeSolver ------------------------------
(***************************************************************************)
(* Exhaustive check of the solver state machine.  A solver built the way   *)
(* the library builds them (one action per event) integrates a point that  *)
(* moves with speed 1 up to a wall (a zero function), where its event      *)
(* reverses or doubles the speed, under every sequence of restarts, step   *)
(* size requests and controller decisions within the bounds.  Every event  *)
(* must be allowed by OdeSolver, and because the exact motion is known,    *)
(* what the user sees can be compared with it directly.                    *)
(***************************************************************************)
EXTENDS OdeSolver, Json
CONSTANTS Kinds,      \* solvers
          Walls,      \* [flags, sgn, speed after the event] of the zero function, or flags 0 for none
          Hs,         \* step sizes that can be requested
          MaxCalls    \* restarts, requests and steps
VARIABLES s, ok, calls,
          x0, t0,     \* where the point was started
          ops         \* the requests made, for replaying
vars == <<s, ok, calls, x0, t0, ops>>

C == "7/8"             \* position of the wall
Speed(v) == <<<<[c |-> v, p |-> <<0, 0>>]>>>>
Sys(w) == [n2 |-> 0, n1 |-> 1, f |-> <<Speed(1), Speed(w.v)>>, stop |-> <<>>,
           zf |-> IF w.flags = 0 THEN <<>> ELSE <<[j |-> 1, c |-> C, sgn |-> w.sgn, flags |-> w.flags, toggle |-> TRUE]>>]
Par(k) == [hInit |-> "1/2", hMin |-> "1/16", tol |-> "1", ins |-> "1", incMin |-> "0", incMax |-> "0", decMax |-> "0", maxThr |-> "0",
           disable |-> k.disable, force |-> FALSE, hSwitch |-> "0", mode |-> 2, smooth |-> k.smooth, symmetric |-> FALSE, maxStages |-> 2,
           seq |-> "harmonic", ref |-> [kind |-> "euler", smooth |-> FALSE], d |-> "1", alpha |-> "1", atol |-> "1e-10",
           ctl |-> "scripted", norm |-> "inf"]
Config(k, w) == [e |-> "config", name |-> k.name, kind |-> k.kind, sys |-> Sys(w), par |-> Par(k), wrap |-> TRUE, raw |-> FALSE,
                 limited |-> FALSE, order |-> 1]
K(name, kind, smooth, disable) == [name |-> name, kind |-> kind, smooth |-> smooth, disable |-> disable]
AllKinds == {K("euler", "rk", FALSE, FALSE), K("gragg", "gragg", FALSE, FALSE), K("gragg", "gragg", TRUE, FALSE),
             K("dopri_45", "emb", FALSE, FALSE), K("dopri_45", "emb", FALSE, TRUE), K("extrapolator", "extrap", FALSE, FALSE),
             K("rosenbrock_w1", "w1", FALSE, FALSE), K("rosenbrock_sw2_4", "sw24", FALSE, FALSE)}
FewKinds == {K("gragg", "gragg", TRUE, FALSE), K("dopri_45", "emb", FALSE, FALSE), K("rosenbrock_sw2_4", "sw24", FALSE, FALSE)}
W(f, g, v) == [flags |-> f, sgn |-> g, v |-> v]
\* (a function of both directions would see the point coming back, and a recomputed one the point going on, as another crossing)
AllWalls == {W(0, 1, 1), W(1, -1, -1), W(2, 1, -1), W(5, -1, -1), W(6, 1, -1), W(1, -1, 2), W(2, 1, 2), W(3, 1, 2), W(3, -1, 2)}
FewWalls == {W(0, 1, 1), W(1, -1, -1), W(6, 1, -1), W(3, 1, 2)}
Half == {"1/4", "1/2"}
One == {"1/2"}
Everything == {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12"}

Init == /\ \E k \in Kinds, w \in Walls : s = New(Config(k, w))
        /\ ok = TRUE /\ calls = 0 /\ x0 = "0" /\ t0 = "0" /\ ops = <<>>
\* event e happens: it must be allowed
Do(e) == LET n == Succ(s, e) IN
         /\ ok' = (ok /\ n # {})
         /\ s' \in (IF n = {} THEN {s} ELSE n)
Same == UNCHANGED <<calls, x0, t0, ops>>
Call(op, h) == calls < MaxCalls /\ calls' = calls + 1 /\ ops' = Append(ops, [op |-> op, h |-> h, dec |-> <<>>])

HasEc == TRUE
Decisions(h) ==
    { [newh |-> h, acc |-> TRUE, chg |-> FALSE, id |-> "keep"],
      [newh |-> RStr(RMul(h, "1/2")), acc |-> TRUE, chg |-> TRUE, id |-> "shrink"],
      [newh |-> RStr(RMul(h, 2)), acc |-> TRUE, chg |-> TRUE, id |-> "grow"],
      [newh |-> RStr(RMul(h, "1/2")), acc |-> FALSE, chg |-> TRUE, id |-> "reject"] }

Restart == /\ s.ph \in {"none", "idle", "failed"}
           /\ \E x \in {"0", "1/2"} :
                /\ Call("state", x)
                /\ Do([e |-> "state", t |-> "0", x |-> <<x>>, soft |-> FALSE, phase |-> 0, stop |-> FALSE])
                /\ x0' = x /\ t0' = "0"
ResetEvents == s.ph = "idle" /\ ~s.ec.reset /\ Do([e |-> "ecReset"]) /\ Same
Request == /\ s.ph \in {"none", "idle"}
           /\ \E h \in Hs : ~REq(h, s.hInit) /\ Call("seth", h) /\ Do([e |-> "seth", h |-> h])
           /\ UNCHANGED <<x0, t0>>
\* A step call begins, or an attempt after a rejected one
Announce == [e |-> "pre", h |-> RStr(CurrentH(s)), t |-> s.t, x |-> VStr(Visible(s))]
Begin == s.ph = "idle" /\ s.ec.reset /\ Call("step", "0") /\ Do(Announce) /\ UNCHANGED <<x0, t0>>
Again == s.ph = "rejected" /\ Do(Announce) /\ Same
Open(p) == s.ph = "pre" /\ p
Started == ~s.ec.clean
Start == Open(~Started) /\ Do([e |-> "ecStart", t |-> s.t, x |-> s.x]) /\ Same
Decide == /\ Open(Started /\ HasControl(s) /\ s.att.ctl = <<>>)
          /\ \E d \in Decisions(s.att.h) :
               /\ Do([e |-> "ctl", h |-> s.att.h, err |-> "0", order |-> ControlOrder(s.cfg), newh |-> d.newh, acc |-> d.acc, chg |-> d.chg])
               /\ ops' = [ops EXCEPT ![Len(ops)].dec = Append(@, d.id)]
          /\ UNCHANGED <<calls, x0, t0>>
Rejected == s.att.ctl # <<>> /\ ~s.att.ctl[1].acc
TooSmall == s.att.ctl # <<>> /\ s.att.ctl[1].chg /\ RLe(s.att.ctl[1].newh, s.cfg.par.hMin)
Fail == Open(TooSmall /\ (Rejected \/ s.att.out # <<>>)) /\ Same
        /\ Do([e |-> "throw", what |-> "", t |-> IF Rejected THEN s.t ELSE s.att.out[1].t2, x |-> IF Rejected THEN VStr(Visible(s)) ELSE s.att.out[1].x2])
Reject == /\ Open(Rejected /\ ~TooSmall) /\ Same
          /\ Do([e |-> "post", h |-> s.att.h, acc |-> FALSE, chg |-> s.att.ctl[1].chg, trunc |-> FALSE, err |-> "0", izf |-> 0, tt |-> 0,
                 t |-> s.t, x |-> VStr(Visible(s)), self |-> TRUE])
Decided == HasControl(s) => s.att.ctl # <<>> /\ s.att.ctl[1].acc
T2 == RStr(RAdd(s.t, s.att.h))
X2 == VStr(s.att.cand.x)
AskEvents == Open(Started /\ Decided /\ s.att.end = <<>>) /\ Do([e |-> "ecEnd", x1 |-> VStr(s.x), x2 |-> X2, t2 |-> T2]) /\ Same
\* the event controller of the library, for the one function there is
Zf(x) == ZfValues(s, 0, x)[1]
Fires == Zfs(s) # <<>> /\ Crosses(s.ec.st[1], RSgn(s.ec.z[1]), RSgn(Zf(s.att.end[1].x2)), Zfs(s)[1].flags)
Frac == Where(s.ec.z[1], Zf(s.att.end[1].x2))
Tr1 == Transition(s.ec.st[1], RSgn(Zf(s.att.end[1].x2)), Zfs(s)[1].flags)
EvT == RStr(Mix(Frac, s.t, s.att.end[1].t2))
EvX == VStr(VMix(Frac, s.att.end[1].x1, s.att.end[1].x2))
Asked == Open(s.att.end # <<>> /\ s.att.out = <<>>)
Turn == Asked /\ Fires /\ s.att.sw = <<>> /\ Same
        /\ Do([e |-> "switch", tr |-> <<Tr1>>, t |-> EvT, xin |-> EvX, xout |-> EvX, phase |-> 1 - s.phase])
Answer == /\ Asked /\ (Fires => s.att.sw # <<>>) /\ Same
          /\ Do(IF Fires THEN [e |-> "ecOut", r |-> TRUE, izf |-> 1, tt |-> Tr1, t2 |-> EvT, x2 |-> EvX]
                ELSE [e |-> "ecOut", r |-> FALSE, izf |-> 0, tt |-> 0, t2 |-> s.att.end[1].t2, x2 |-> s.att.end[1].x2])
Finish == /\ Open(s.att.out # <<>> /\ ~TooSmall) /\ Same
          /\ LET o == s.att.out[1]
                 c == s.att.ctl
             IN Do([e |-> "post", h |-> s.att.h, acc |-> TRUE, chg |-> c # <<>> /\ c[1].chg, trunc |-> o.r, err |-> "0", izf |-> o.izf, tt |-> o.tt,
                    t |-> o.t2, x |-> IF Smooth(s) /\ ~o.r THEN VStr(Average(o.x2, s.att.cand.g.v)) ELSE o.x2, self |-> TRUE])
Return == s.ph = "post" /\ Do([e |-> "done", t |-> s.t, x |-> VStr(Visible(s))]) /\ Same
Next == Restart \/ ResetEvents \/ Request \/ Begin \/ Again \/ Start \/ Decide \/ Fail \/ Reject \/ AskEvents \/ Turn \/ Answer \/ Finish \/ Return
Spec == Init /\ [][Next]_vars
\* the requests do not distinguish states
View == <<s, ok, calls, x0, t0>>

---------------------------------------------------------------------------
Allowed == ok
\* Where the point really is: it moves with speed 1 from x0 and turns at the wall when its event is enabled
Wall == s.cfg.sys.zf
Meets == Wall # <<>> /\ RLe(x0, C)
TrueX == LET free == RAdd(x0, RSub(s.t, t0)) IN
         IF Meets /\ RGt(free, C) THEN RAdd(C, RMul(s.cfg.sys.f[2][1][1].c, RSub(free, C))) ELSE free
Running == s.ph \in {"idle", "post", "rejected"} /\ s.x # <<>>
Eps == "1e-20"        \* stages are trimmed to 170 bits
OnTheTrueMotion == Running => RClose(s.x[1], TrueX, Eps, 0) /\ (Smooth(s) => RClose(Visible(s)[1], TrueX, Eps, 0))
\* the model was switched exactly when the point has met the wall
SwitchedOnce == Running /\ Meets =>
    LET over == RSub(RAdd(x0, RSub(s.t, t0)), C)
    IN IF RGt(over, Eps) THEN s.phase = 1 ELSE IF RLt(over, RNeg(Eps)) THEN s.phase = 0 ELSE TRUE
TimeNeverBack == Running => RGe(s.t, t0)
StepSizePositive == RGt(s.h, 0)
\* After a restart and a step size request nothing of the past is left (the step size that
\* the solver starts with excepted, where no request was made)
Forgotten == s.ph = "idle" /\ s.n = 0 /\ s.fresh /\ s.ec.clean =>
    LET f == New(s.cfg)
        g == CHOOSE q \in SetState(f, [e |-> "state", t |-> s.t, x |-> s.x, soft |-> FALSE, phase |-> s.phase, stop |-> FALSE]) : TRUE
    IN [s EXCEPT !.h = 0, !.hInit = 0, !.ec.reset = FALSE] = [g EXCEPT !.h = 0, !.hInit = 0, !.ec.reset = FALSE]
\* Each attempt ends a call or is followed by another one with the step size asked for
AgainWithTheNewStep == [][ s.ph = "rejected" /\ s'.ph = "pre" => REq(s'.att.h, s.h) /\ RLt(s'.att.h, s.att.h) ]_vars
RejectedStays == [][ s.ph = "pre" /\ s'.ph = "rejected" => REq(s'.t, s.t) /\ VEq(s'.x, s.x) ]_vars
=============================================================================
