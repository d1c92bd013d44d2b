---------------------------- MODULE StepSizeControl ----------------------------
(***************************************************************************)
(* The default step-size controller.  par: tol, ins, incMin, incMax,       *)
(* decMax, maxThr (a limit of zero is disabled).  The result is            *)
(* [h, acc, chg]: the step size to go on with, whether the step is         *)
(* accepted, and whether the step size changes.                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Rat

Slack == "1e-5"
Keep(h) == [h |-> h, acc |-> TRUE, chg |-> FALSE]
On(limit) == RGt(limit, 0)

\* ratio of the step size at which the error would meet the tolerance
Ratio(par, err, order) == RRoot(RDiv(par.tol, err), order + 1)

\* The decision for ratio p
Decide(par, h, p) ==
    LET pd == RMul(p, par.ins)
        capped == On(par.maxThr) /\ RGt(RMul(pd, h), par.maxThr)
        up == IF capped THEN RDiv(par.maxThr, h) ELSE pd
    IN IF RGe(p, 1)
       THEN IF capped /\ RLt(up, 1) THEN Keep(h)
            ELSE IF On(par.incMin) /\ RLt(up, par.incMin) THEN Keep(h)
            ELSE [h |-> RMul(h, IF On(par.incMax) THEN RMin(up, par.incMax) ELSE up), acc |-> TRUE, chg |-> TRUE]
       ELSE IF RGt(p, RSub(1, Slack)) THEN Keep(h)
       ELSE [h |-> RMul(h, IF On(par.decMax) THEN RMax(pd, par.decMax) ELSE pd), acc |-> FALSE, chg |-> TRUE]

\* All decisions that rounding may lead to
Nudges == <<RSub(1, "1e-10"), 1, RAdd(1, "1e-10")>>
\* Is the observed decision one of them?
Allowed(par, h, err, order, nh, acc, chg) ==
    LET is(d) == d.acc = acc /\ d.chg = chg /\ RClose(d.h, nh, 0, "1e-9")
    IN IF REq(err, 0) THEN is(Keep(h))
       ELSE LET p == Ratio(par, err, order)
            IN \E i, j \in DOMAIN Nudges : is(Decide(par, RMul(h, Nudges[j]), RMul(p, Nudges[i])))
=============================================================================
