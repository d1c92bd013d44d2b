------------------------------ MODULE OdeSolver ------------------------------
(***************************************************************************)
(* The state machine of an ODE solver of the library: restarts, step size  *)
(* requests, and step calls made of attempts, with event control.          *)
(*                                                                         *)
(* What a solver does is seen as a sequence of events, records with a      *)
(* field e:                                                                *)
(*   state    setInitialState (t, x, soft)     seth   setInitialStepSize   *)
(*   pre      before-step notification of an attempt (h; time and state)   *)
(*   ecReset, ecStart, ecEnd, ecOut            calls of the event          *)
(*            controller, and what it returned                             *)
(*   ctl      decision of the step-size controller                         *)
(*   switch   the model was told to switch    trunc  the model cut a step  *)
(*   post     after-step notification of an attempt                        *)
(*   done     the step call returned           throw  ... failed           *)
(*                                                                         *)
(* Succ(s, e) is the set of states the solver may be in after event e in   *)
(* state s, empty when e may not happen.  The requirements are grouped by  *)
(* the property they belong to: Q(p, c) is c if property p is being        *)
(* checked.  The state follows the observed values (which are equal to the *)
(* required ones up to rounding), so one deviation is one rejection.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Rat, Tableaus, OdeMethods, EventControl
SSC == INSTANCE StepSizeControl
CONSTANT Props
Q(p, c) == p \in Props => c
QAny(ps, c) == (ps \cap Props # {}) => c

Fixed == {"rk", "gragg", "w1", "alpha"}
Adaptive == {"emb", "extrap", "sw24"}
TabName(name) == CASE name = "dopri_45" -> "dopri45" [] name = "dopri_56" -> "dopri56" [] name = "dopri_78" -> "dopri78" [] OTHER -> name
Tab(s) == Tableau(TabName(s.cfg.name))
\* The property about the value of a step, by kind of solver
ValueProp(k) == CASE k \in {"rk", "emb"} -> "P01" [] k = "gragg" -> "P09" [] k = "extrap" -> "P10" [] k \in {"w1", "sw24"} -> "P11" [] k = "alpha" -> "P12"

---------------------------------------------------------------------------
(* Order of the method, and the order handed to the step-size controller *)
ExtrapOrder(par, m) == ReferenceOrder(par.ref) + (m - 1)*(IF par.symmetric THEN 2 ELSE 1)
Order(c) ==
    CASE c.kind = "rk" -> Tableau(TabName(c.name)).order[1]
      [] c.kind = "emb" -> Tableau(TabName(c.name)).order[c.par.mode]
      [] c.kind = "gragg" -> 2
      [] c.kind = "extrap" -> ExtrapOrder(c.par, c.par.maxStages)
      [] c.kind = "w1" -> 1
      [] c.kind = "sw24" -> 2
      [] c.kind = "alpha" -> 1
ControlOrder(c) ==
    CASE c.kind = "emb" -> Tableau(TabName(c.name)).order[2]
      [] c.kind = "extrap" -> ExtrapOrder(c.par, c.par.maxStages - 1)
      [] c.kind = "sw24" -> 2

---------------------------------------------------------------------------
(* State *)
NoAttempt == [h |-> 0, cand |-> <<>>, ctl |-> <<>>, end |-> <<>>, sw |-> <<>>, tr |-> <<>>, out |-> <<>>]
NoEc == [clean |-> TRUE, reset |-> TRUE, z |-> <<>>, st |-> <<>>, fz |-> {}]
DefaultStep(c) == IF c.kind \in {"w1", "sw24"} THEN "0.01" ELSE c.par.hInit
New(c) == [cfg |-> c, phase |-> 0, stop |-> c.sys.stop, t |-> 0, x |-> <<>>, h |-> DefaultStep(c), hInit |-> c.par.hInit,
           fresh |-> TRUE, g |-> GraggStart, J |-> <<>>, ec |-> NoEc, ph |-> "none", att |-> NoAttempt,
           n |-> 0, lost |-> FALSE, pend |-> <<>>]

Kind(s) == s.cfg.kind
Rhs(s) == s.cfg.sys.f[s.phase + 1]
Smooth(s) == Kind(s) = "gragg" /\ s.cfg.par.smooth
\* The state the solver shows
Visible(s) == IF Smooth(s) /\ s.g.run THEN Average(s.x, s.g.v) ELSE s.x
Shows(s, x) == IF Smooth(s) /\ s.g.run
               THEN VClose(x, Visible(s), RMul("1e-12", RAdd(1, RAdd(VInfNorm(s.x), VInfNorm(s.g.v)))), 0)
               ELSE VClose(x, Visible(s), 0, "1e-14")
CurrentH(s) == IF Kind(s) \in {"rk", "emb", "extrap"} /\ s.fresh THEN s.hInit
               ELSE IF Kind(s) \in {"gragg", "alpha"} THEN s.hInit ELSE s.h

ErrorNorm(s, v) ==
    IF s.cfg.par.norm = "w1"
    THEN FoldLeft(LAMBDA a, i : RAdd(a, RMul(i, RAbs(v[i]))), 0, [i \in DOMAIN v |-> i])
    ELSE VInfNorm(v)

---------------------------------------------------------------------------
(* The value of an attempt of step size h *)
ValueNeeded(s) ==
    \/ ValueProp(Kind(s)) \in Props
    \/ Kind(s) \in Adaptive /\ "P04" \in Props
    \/ Kind(s) = "gragg"
    \/ s.cfg.raw /\ Props \cap {"P07", "P08"} # {} /\ Kind(s) # "alpha"
Candidate(s, h) ==
    CASE Kind(s) = "rk" ->
            LET tab == Tab(s) IN [x |-> RKSolution(tab, 1, RKStages(tab, Rhs(s), s.t, s.x, h), s.x, h), err |-> 0]
      [] Kind(s) = "emb" ->
            LET tab == Tab(s)
                k == TLCEval(RKStages(tab, Rhs(s), s.t, s.x, h))
                hi == TLCEval(RKSolution(tab, 1, k, s.x, h))
                lo == TLCEval(RKSolution(tab, 2, k, s.x, h))
            IN [x |-> IF s.cfg.par.mode = 1 THEN hi ELSE lo, err |-> TLCEval(ErrorNorm(s, VSub(hi, lo)))]
      [] Kind(s) = "gragg" ->
            LET q == TLCEval(GraggStep(Rhs(s), s.t, s.x, s.g, h))
            IN [x |-> q.u, err |-> 0, g |-> [run |-> TRUE, v |-> q.v, f |-> q.f]]
      [] Kind(s) = "extrap" ->
            LET r == TLCEval(ExtrapolationStep(s.cfg.par, Rhs(s), s.t, s.x, h)) IN [x |-> r.x, err |-> TLCEval(ErrorNorm(s, r.err))]
      [] Kind(s) = "w1" -> [x |-> W1Step(s.cfg.par, Rhs(s), s.J, s.t, s.x, h).x, err |-> 0]
      [] Kind(s) = "sw24" ->
            LET r == TLCEval(SW24Step(s.cfg.par, Rhs(s), s.J, s.t, s.x, h)) IN [x |-> r.x, err |-> TLCEval(ErrorNorm(s, r.err))]
      [] OTHER -> [x |-> <<>>, err |-> 0]


\* Tolerances: rounding, amplified by the extrapolation weights or by the difference quotients
Tol(s) == CASE Kind(s) \in {"rk", "emb", "gragg"} -> "1e-12" [] Kind(s) = "extrap" -> "1e-10" [] OTHER -> "1e-7"
ErrTol(s) == CASE Kind(s) = "emb" -> "1e-12" [] Kind(s) = "extrap" -> "1e-10" [] OTHER -> "1e-8"
Scale(a, b) == RAdd(1, RAdd(VInfNorm(a), VInfNorm(b)))

\* Is y the state that the method prescribes at the end of the attempt?
ValueOk(s, y) ==
    IF Kind(s) = "alpha"
    THEN LET n2 == s.cfg.sys.n2
             a == s.cfg.par.alpha
             tol == RMul("1e-12", Scale(s.x, y))
         IN /\ \A i \in 1..n2 : RLe(RAbs(RSub(y[i], AlphaPositions(n2, a, s.x, y, s.att.h)[i])), tol)
            /\ RLe(VInfNorm(AlphaResidual(n2, a, Rhs(s), s.t, s.x, y, s.att.h)), RAdd(RMul(s.cfg.par.atol, "1.0001"), tol))
    ELSE VClose(y, s.att.cand.x, RMul(Tol(s), Scale(s.x, s.att.cand.x)), 0)
ErrorOk(s, err) ==
    CASE Kind(s) = "emb" /\ s.cfg.par.disable /\ ~s.cfg.par.force -> REq(err, 0)
      [] Kind(s) \in {"extrap", "sw24"} /\ s.cfg.par.disable -> REq(err, 0)
      [] Kind(s) \in Fixed -> REq(err, 0)
      [] OTHER -> RClose(err, s.att.cand.err, RMul(ErrTol(s), Scale(s.x, s.att.cand.x)), "1e-9")
\* The nonlinear equation of the alpha method is a contraction around the start of the step
Contraction(s) ==
    LET n == Len(s.x)
        n2 == s.cfg.sys.n2
        J == FDJacobian(Rhs(s), s.t, s.x)
        row(i) == VSum([j \in 1..n |-> RMul(RAbs(J[i][j]), IF j <= n2 THEN s.att.h ELSE 1)])
    IN \A i \in (n2+1)..n : RLe(RMul(RMul(s.att.h, s.cfg.par.alpha), row(i)), "1/4")

\* The change over the step is not small compared with the variables that are solved for
LargeChange(s) ==
    LET n2 == s.cfg.sys.n2
        of(v) == [i \in 1..(Len(v) - n2) |-> v[n2 + i]]
    IN RGe(RMul(s.att.h, VInfNorm(of(F(Rhs(s), s.t, s.x)))), RMul("1/2", VInfNorm(of(s.x))))

\* Plain Newton from the start of the step
Easy(s) == s.cfg.ddir = "simple" /\ s.cfg.pred = ""
AlgebraicFailure(what) == Len(what) > 25 /\ SubSeq(what, 1, 25) = "Algebraic solver failed: "

---------------------------------------------------------------------------
(* Requests between the steps *)
SetState(s, e) ==
    { [s EXCEPT !.t = e.t, !.x = e.x, !.fresh = TRUE, !.g = GraggStart, !.J = IF e.soft THEN @ ELSE <<>>, !.phase = e.phase,
                !.stop = IF e.stop THEN s.stop ELSE <<>>,
                !.ec = [NoEc EXCEPT !.reset = FALSE], !.ph = "idle", !.att = NoAttempt, !.n = 0, !.lost = FALSE,
                \* Rosenbrock solvers keep their current step size
                !.pend = IF Kind(s) = "sw24" THEN @ ELSE <<>>] }
SetH(s, e) ==
    { [s EXCEPT !.hInit = e.h, !.h = IF Kind(s) \in {"w1", "sw24"} THEN e.h ELSE @,
                !.g = GraggStart, !.pend = IF Kind(s) \in {"w1", "sw24"} THEN <<>> ELSE @] }

---------------------------------------------------------------------------
(* An attempt begins *)
\* the decision of a controller that is not logged shows in the step size of the next attempt
PendOk(s, h) ==
    s.pend = <<>> \/ LET p == s.pend[1] IN
        \/ SSC!Allowed(s.cfg.par, p.h, p.err, ControlOrder(s.cfg), IF p.chg THEN h ELSE p.h, p.acc, p.chg)
        \/ p.chg /\ REq(h, p.cap)
ExpectedH(s, h) == IF s.pend # <<>> /\ s.pend[1].chg
                   THEN RGt(s.pend[1].cap, 0) => RLe(h, s.pend[1].cap)
                   ELSE REq(h, CurrentH(s))
When(c, states) == IF c THEN states ELSE {}
Pre(s, e) ==
    LET b == TLCEval([s EXCEPT !.h = e.h, !.fresh = FALSE, !.pend = <<>>, !.ph = "pre", !.att = [NoAttempt EXCEPT !.h = e.h],
                       !.J = IF Kind(s) \in {"w1", "sw24"} /\ @ = <<>> /\ ValueNeeded(s) THEN FDJacobian(Rhs(s), s.t, s.x) ELSE @])
    IN When( /\ QAny({"P03", "P05"}, s.ph \in {"idle", "rejected", "failed"})
             /\ Q("P05", REq(e.t, s.t) /\ Shows(s, e.x))
             /\ Q("P03", Kind(s) \in Adaptive => ExpectedH(s, e.h))
             /\ Q("P05", Kind(s) \in Fixed => REq(e.h, CurrentH(s)))
             /\ Q("P02", PendOk(s, e.h)),
             {[b EXCEPT !.att.cand = IF ValueNeeded(s) THEN TLCEval(Candidate(b, e.h)) ELSE [x |-> <<>>, err |-> 0]]} )

---------------------------------------------------------------------------
(* The step-size controller decides on the attempt *)
HasControl(s) == Kind(s) \in Adaptive /\ ~s.cfg.par.disable
Control(s, e) ==
    When( /\ Q("P03", s.ph = "pre" /\ HasControl(s) /\ s.att.ctl = <<>> /\ REq(e.h, s.att.h))
          /\ Q("P02", REq(e.order, ControlOrder(s.cfg)))
          /\ Q("P02", s.cfg.par.ctl = "logged" => SSC!Allowed(s.cfg.par, e.h, e.err, ControlOrder(s.cfg), e.newh, e.acc, e.chg))
          /\ Q("P04", ErrorOk(s, e.err)),
          {[s EXCEPT !.att.ctl = <<[newh |-> e.newh, acc |-> e.acc, chg |-> e.chg, err |-> e.err]>>]} )

---------------------------------------------------------------------------
(* Event control.  Signs of interpolated values near zero are known up to  *)
(* rounding only: each possible sign is tried.                             *)
Zfs(s) == s.cfg.sys.zf
ZfFlags(s) == [i \in DOMAIN Zfs(s) |-> Zfs(s)[i].flags]
ZfValues(s, t, x) == [i \in DOMAIN Zfs(s) |-> LET f == Zfs(s)[i] IN RMul(f.sgn, RSub(IF f.j = 0 THEN t ELSE x[f.j], f.c))]
Signs(v) == [i \in DOMAIN v |-> RSgn(v[i])]
Near == "1e-12"
PossibleSigns(s) ==
    LET z == s.ec.z
        free == {i \in s.ec.fz : RLt(RAbs(z[i]), Near)}
    IN { [i \in DOMAIN z |-> IF i \in free THEN c[i] ELSE RSgn(z[i])] : c \in [free -> {-1, 0, 1}] }

EcReset(s, e) ==
    When( QAny({"P07", "P08"}, s.n = 0), {[s EXCEPT !.ec.reset = TRUE, !.ec.clean = TRUE]} )
EcStart(s, e) ==
    LET v == ZfValues(s, e.t, e.x)
        f == ZfFlags(s)
    IN When( /\ Q("P06", s.ec.reset)
             /\ Q("P07", REq(e.t, s.t) /\ VClose(e.x, s.x, 0, "1e-14")),
             {IF s.ec.clean
              THEN [s EXCEPT !.ec.clean = FALSE, !.ec.z = TLCEval(v), !.ec.fz = {}, !.ec.st = [i \in DOMAIN v |-> Side(RSgn(v[i]), f[i])]]
              ELSE s} )

\* The controller is asked about the attempt that is being accepted: this is its value
EcEnd(s, e) ==
    When( /\ Q("P05", RClose(e.t2, RAdd(s.t, s.att.h), "1e-15", "4e-16"))
          /\ QAny({"P07", "P08"}, ~s.ec.clean /\ s.att.end = <<>>)
          /\ Q("P03", s.att.ctl # <<>> => s.att.ctl[1].acc)
          /\ Q("P07", VClose(e.x1, s.x, 0, "1e-14"))
          /\ Q(ValueProp(Kind(s)), ValueOk(s, e.x2)),
          {[s EXCEPT !.att.end = <<[x1 |-> e.x1, x2 |-> e.x2, t2 |-> e.t2]>>]} )
Switch(s, e) ==
    { [s EXCEPT !.att.sw = @ \o <<e>>, !.phase = e.phase] }
Trunc(s, e) ==
    When( Q("P07", Zfs(s) = <<>> /\ s.stop # <<>> /\ RGt(e.t2, s.stop[1]) /\ REq(e.t, s.stop[1])),
          {[s EXCEPT !.att.tr = @ \o <<e>>]} )

\* The states after the controller found that the step from x1 at the current time to x2 at t2
\* is (o.r) or is not to be truncated, o = [r, izf, tt, t2, x2]; x2 is known up to tol
Located(s, x1, x2, t2, o, tol) ==
    LET sw == s.att.sw
        tr == s.att.tr
        flags == ZfFlags(s)
        z1 == s.ec.z
        z2 == TLCEval(ZfValues(s, t2, x2))
        s2 == Signs(z2)
        w == TLCEval([i \in DOMAIN z1 |-> Where(z1[i], z2[i])])
        wtol == TLCEval([i \in DOMAIN z1 |-> IF REq(z1[i], z2[i]) THEN 1 ELSE RMin(1, RAdd("1e-12", RDiv(RAdd("1e-14", tol), RAbs(RSub(z1[i], z2[i])))))])
        \* where function i crosses, if its sign at the start of the step is known to be sg
        at(i, sg) == IF sg = 0 THEN 0 ELSE w[i]
        unchanged == REq(o.t2, t2) /\ VEq(o.x2, x2)
        after == [s EXCEPT !.ec.z = TLCEval(VTrim(z2, 200)), !.ec.fz = {}]
    IN IF Zfs(s) = <<>>
       THEN LET cut == s.stop # <<>> /\ RGt(t2, s.stop[1])
            IN When( /\ Q("P07", /\ o.r = cut /\ o.izf = 0
                                 /\ IF cut THEN Len(tr) = 1 /\ REq(tr[1].t, o.t2) /\ RClose(tr[1].t2, t2, RMul("1e-15", RMin(1, RMul(tol, "1e99"))), 0) /\ VClose(tr[1].xin, x2, tol, "1e-14")
                                                /\ VEq(tr[1].x, o.x2)
                                    ELSE tr = <<>> /\ unchanged)
                     /\ Q("P08", sw = <<>> /\ o.tt = 0),
                     {[s EXCEPT !.stop = IF tr # <<>> THEN <<>> ELSE @]} )
       ELSE
       UNION { LET cr == Crossing(s.ec.st, s1, s2, flags)
                   e == o.izf
                   tr2 == Transition(s.ec.st[e], s2[e], flags[e])
                   tolT == RAdd("1e-13", RMul(wtol[e], RAbs(RSub(t2, s.t))))
                   tolX == RMul(Scale(x1, x2), RAdd("1e-13", wtol[e]))
                   known == e \in DOMAIN flags
               IN IF ~o.r
                  THEN When( /\ Q("P07", cr = {} /\ unchanged /\ e = 0)
                             /\ Q("P08", sw = <<>> /\ o.tt = 0),
                             {after} )
                  ELSE When( /\ QAny({"P07", "P08"}, known)
                             /\ Q("P07", /\ e \in cr
                                         /\ \A i \in cr : RLe(at(e, s1[e]), RAdd(at(i, s1[i]), RAdd("1e-12", RMul(2, RAdd(wtol[i], wtol[e])))))
                                         /\ RClose(o.t2, Mix(at(e, s1[e]), s.t, t2), tolT, "4e-16")
                                         /\ Len(sw) >= 1 => RClose(sw[1].t, o.t2, 0, 0) /\ VClose(sw[1].xin, VMix(at(e, s1[e]), x1, x2), tolX, 0))
                             /\ Q("P08", /\ Len(sw) = 1
                                         /\ REq(sw[1].t, o.t2) /\ VEq(sw[1].xout, o.x2)
                                         /\ sw[1].tr = [i \in DOMAIN flags |-> IF i = e THEN tr2 ELSE 0]
                                         /\ o.tt = tr2),
                             IF ~known THEN {after}
                             ELSE LET zr == ZfValues(s, o.t2, o.x2)
                                      \* where it really was located
                                      wo == at(e, s1[e])
                                  IN {[s EXCEPT !.ec.z = TLCEval(VTrim(ValuesAfter(e, wo, z1, z2, zr, flags), 200)),
                                                !.ec.st = SidesAfter(e, s.ec.st, s2, Signs(zr), flags),
                                                !.ec.fz = {i \in DOMAIN flags : i # e /\ ~Recomputed(flags[i])}]} )
             : s1 \in PossibleSigns(s) }

Watch(s) == {"P07", "P08"} \cap Props # {}
EcOut(s, e) ==
    LET b == s.att.end[1]
    IN { [q EXCEPT !.att.out = <<e>>] :
         q \in IF s.att.end = <<>> THEN {s} ELSE IF Watch(s) THEN Located(s, b.x1, b.x2, b.t2, e, 0) ELSE {[s EXCEPT !.stop = IF s.att.tr # <<>> THEN <<>> ELSE @]} }

---------------------------------------------------------------------------
(* The attempt ends *)
\* without a logging controller in between, what it found shows in the notification
RawWatch(s) == s.cfg.raw /\ Kind(s) # "alpha" /\ Watch(s) /\ ~s.lost
RawTol(s) == IF s.att.cand.x = <<>> THEN Tol(s) ELSE RMul(Tol(s), Scale(s.x, s.att.cand.x))
RawStart(s) ==
    IF ~s.ec.clean THEN s
    ELSE LET v == ZfValues(s, s.t, s.x) IN
         [s EXCEPT !.ec.clean = FALSE, !.ec.z = TLCEval(v), !.ec.fz = {}, !.ec.st = [i \in DOMAIN v |-> Side(RSgn(v[i]), ZfFlags(s)[i])]]
\* a value that the model knows up to rounding only, or a remembered value too near zero
Uncertain(s, x2) ==
    \/ Zfs(s) # <<>> /\ LET z2 == ZfValues(s, RAdd(s.t, s.att.h), x2) IN \E i \in DOMAIN z2 : RLt(RAbs(z2[i]), RMul(100, RawTol(s)))
    \/ \E i \in DOMAIN s.ec.z : i \in s.ec.fz /\ RLt(RAbs(s.ec.z[i]), RMul(100, RawTol(s)))
    \/ s.stop # <<>> /\ RLt(RAbs(RSub(s.stop[1], RAdd(s.t, s.att.h))), "1e-12")
RawLocated(s, e) ==
    LET b == RawStart(s)
        t2 == RTrim(RAdd(s.t, s.att.h), 53)
        x2 == IF e.trunc \/ Smooth(s) THEN s.att.cand.x ELSE e.x
    IN IF Uncertain(b, x2) THEN {[b EXCEPT !.lost = TRUE]}
       ELSE Located(b, s.x, x2, IF e.trunc THEN t2 ELSE e.t,
                    [r |-> e.trunc, izf |-> e.izf, tt |-> e.tt, t2 |-> e.t,
                     x2 |-> IF e.trunc \/ ~Smooth(s) THEN e.x ELSE x2], RawTol(s))

Post(s, e) ==
    LET a == s.att
        k == Kind(s)
        ctl == a.ctl
        out == a.out
        moved == e.acc
        cut == e.trunc
        \* the state inside
        inner == IF cut \/ ~moved THEN (IF moved THEN e.x ELSE s.x)
                 ELSE IF out # <<>> THEN out[1].x2
                 ELSE IF Smooth(s) THEN a.cand.x ELSE e.x
        g2 == IF k # "gragg" THEN s.g ELSE IF cut THEN GraggStart ELSE a.cand.g
        b == [s EXCEPT !.n = @ + 1,
                       !.t = IF moved THEN e.t ELSE @, !.x = inner,
                       !.g = g2,
                       !.h = IF ctl # <<>> /\ ctl[1].chg THEN ctl[1].newh ELSE @,
                       !.pend = IF HasControl(s) /\ s.cfg.par.ctl = "default"
                                THEN <<[h |-> a.h, err |-> e.err, acc |-> e.acc, chg |-> e.chg, cap |-> 0]>> ELSE <<>>,
                       !.ph = IF e.acc THEN "post" ELSE "rejected"]
        \* the configured step size after a switch
        hs == s.cfg.par.hSwitch
        c == IF k = "emb" /\ cut /\ RGt(hs, 0)
             THEN IF b.pend # <<>> THEN [b EXCEPT !.pend = <<[@[1] EXCEPT !.cap = hs]>>, !.h = RMin(@, hs)]
                  ELSE [b EXCEPT !.h = RMin(@, hs)]
             ELSE b
    IN When( /\ QAny({"P03", "P05"}, s.ph = "pre" /\ e.self)
             /\ QAny({"P03", "P05"}, REq(e.h, a.h))
             /\ Q("P03", ctl # <<>> => e.acc = ctl[1].acc /\ e.chg = ctl[1].chg /\ REq(e.err, ctl[1].err))
             /\ Q("P03", ~HasControl(s) => e.acc /\ ~e.chg)
             /\ Q("P03", ~e.acc => ~e.trunc /\ REq(e.t, s.t) /\ Shows(s, e.x))
             /\ Q("P03", out # <<>> => e.acc)
             /\ Q("P03", s.cfg.wrap => (e.acc <=> out # <<>>))
             /\ Q("P04", ErrorOk(s, e.err))
             /\ Q("P05", e.acc /\ ~e.trunc => RClose(e.t, RAdd(s.t, a.h), "1e-15", "4e-16"))
             /\ Q("P05", e.acc /\ e.trunc => RGe(e.t, s.t) /\ RLe(e.t, RAdd(RAdd(s.t, a.h), RMul("4e-16", RAdd(1, RAbs(s.t))))))
             /\ QAny({"P05", "P07"}, out # <<>> => e.trunc = out[1].r /\ REq(e.t, out[1].t2) /\ Shows(b, e.x))
             /\ Q("P08", out # <<>> => e.izf = out[1].izf /\ e.tt = out[1].tt)
             /\ Q("P07", ~s.cfg.wrap /\ ~s.cfg.raw => ~e.trunc)
             /\ Q("P08", e.acc /\ out = <<>> /\ Zfs(s) # <<>> => Len(a.sw) = (IF e.trunc THEN 1 ELSE 0)
                                                                 /\ (e.trunc => VEq(a.sw[1].xout, e.x) /\ REq(a.sw[1].t, e.t)))
             /\ Q(ValueProp(k), out = <<>> /\ moved /\ ~cut =>
                                   IF Smooth(s) THEN VClose(e.x, Average(a.cand.x, a.cand.g.v), RMul(Tol(s), Scale(e.x, s.x)), 0) ELSE ValueOk(s, e.x))
             /\ Q("P09", Smooth(s) /\ moved /\ out # <<>> => Shows(b, e.x)),
             { IF c.stop # <<>> /\ a.tr # <<>> THEN [q EXCEPT !.stop = <<>>] ELSE q :
               q \in IF RawWatch(s) /\ moved
                     THEN { [c EXCEPT !.ec = r.ec, !.lost = r.lost, !.stop = r.stop] : r \in RawLocated(s, e) } ELSE {c} } )

---------------------------------------------------------------------------
(* The step call returns or fails *)
Done(s, e) ==
    When( /\ QAny({"P03", "P05"}, s.ph = "post")
          /\ Q("P05", REq(e.t, s.t) /\ Shows(s, e.x)),
          {[s EXCEPT !.ph = "idle"]} )
MinReached(s) ==
    IF s.att.ctl # <<>> THEN s.att.ctl[1].chg /\ RLe(s.att.ctl[1].newh, s.cfg.par.hMin)
    ELSE Kind(s) \in Adaptive /\ s.cfg.par.ctl = "default" /\ HasControl(s)
Throw(s, e) ==
    LET still == REq(e.t, s.t) /\ Shows(s, e.x)
    IN When( /\ Q("P03", Kind(s) \in Adaptive => s.ph = "pre" /\ MinReached(s) /\ (s.att.ctl # <<>> /\ ~s.att.ctl[1].acc => still))
             /\ Q("P05", Kind(s) \in Fixed => Kind(s) = "alpha")
             /\ Q("P12", Kind(s) = "alpha" => s.ph = "pre" /\ still /\ AlgebraicFailure(e.what) /\ (s.cfg.limited \/ ~Easy(s) \/ LargeChange(s) \/ ~Contraction(s))),
             {[s EXCEPT !.ph = "failed", !.t = e.t, !.x = e.x]} )
\* after a rejected decision below the minimum no other attempt may follow
NotBelowMin(s) == s.att.ctl # <<>> => ~(s.att.ctl[1].chg /\ RLe(s.att.ctl[1].newh, s.cfg.par.hMin))

---------------------------------------------------------------------------
(* The model was asked for the derivative at values so large that a step   *)
(* of double arithmetic says nothing about the exact one: nothing is       *)
(* required until the next start.  With exact values at hand, they must    *)
(* be large too.                                                           *)
Large(v) == \E i \in DOMAIN v : RGt(RAbs(v[i]), 10)
Wild(s) ==
    When( \/ Kind(s) = "alpha" \/ Large(s.x)
          \/ s.ph = "pre" /\ (s.att.cand.x = <<>> \/ Large(s.att.cand.x) \/ RGt(s.att.cand.err, 10)),
          {[s EXCEPT !.ph = "wild"]} )

Succ(s, e) ==
    IF s.ph = "wild" /\ e.e \notin {"state", "seth", "stop", "abort"} THEN {s} ELSE
    CASE e.e = "state" -> SetState(s, e)
      [] e.e = "wild" -> Wild(s)
      [] e.e = "seth" -> SetH(s, e)
      [] e.e = "stop" -> {[s EXCEPT !.stop = <<e.t>>]}
      [] e.e = "pre" -> Pre(s, e)
      [] e.e = "ctl" -> Control(s, e)
      [] e.e = "ecReset" -> EcReset(s, e)
      [] e.e = "ecStart" -> EcStart(s, e)
      [] e.e = "ecEnd" -> EcEnd(s, e)
      [] e.e = "switch" -> Switch(s, e)
      [] e.e = "trunc" -> Trunc(s, e)
      [] e.e = "ecOut" -> EcOut(s, e)
      [] e.e = "post" -> When(Q("P03", NotBelowMin(s)), Post(s, e))
      [] e.e = "done" -> Done(s, e)
      [] e.e = "throw" -> Throw(s, e)
      [] OTHER -> {}
=============================================================================
