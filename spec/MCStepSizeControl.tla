--------------------------- MODULE MCStepSizeControl ---------------------------
(***************************************************************************)
(* Exhaustive check of the controller rules over a grid of parameters,     *)
(* errors (as ratio to the tolerance), step sizes and orders: what the     *)
(* user relies on follows from the case analysis.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat
CONSTANT Ratios
SSC == INSTANCE StepSizeControl
QuickRatios == {"0", "1/1000", "1/64", "1/3", "9/10", "999999/1000000", "1", "1000001/1000000", "1000101/1000000", "11/10", "2", "64", "5000"}
FullRatios == QuickRatios \cup {"1/100000", "1/128", "1/16", "1/2", "19/20", "99/100", "1000006/1000000", "1000020/1000000", "1000030/1000000", "101/100", "3/2", "3", "8", "30", "300", "100000", "10000000"}
VARIABLES in, out
Init ==
    /\ in \in [ratio : Ratios, h : {"1/16", "1/2", "1"}, order : {1, 2, 4, 7},
               par : [tol : {"1/1000"}, ins : {"4/5", "1"}, incMin : {"0", "13/10", "21/10"}, incMax : {"0", "2"},
                      decMax : {"0", "1/10", "1/2"}, maxThr : {"0", "1/4", "1"}]]
    /\ out = <<>>
Err == RMul(in.ratio, in.par.tol)
Next == out = <<>> /\ UNCHANGED in /\
        out' = LET d == IF REq(Err, 0) THEN SSC!Keep(in.h) ELSE SSC!Decide(in.par, in.h, SSC!Ratio(in.par, Err, in.order))
               IN <<[h |-> RStr(RTrim(d.h, 120)), acc |-> d.acc, chg |-> d.chg]>>
Spec == Init /\ [][Next]_<<in, out>>
D == out[1]
P == in.par
On(x) == RGt(x, 0)
Tiny == "1e-20"
Le(a, b) == RLe(a, RAdd(b, Tiny))
WithinToleranceAccepted == out # <<>> /\ RLe(in.ratio, 1) => D.acc
AcceptedOnlyNearTolerance == out # <<>> /\ D.acc => RLe(in.ratio, RDiv(1, RPow(RSub(1, "1e-5"), in.order + 1)))
UnchangedKeeps == out # <<>> /\ ~D.chg => REq(D.h, in.h) /\ D.acc
RejectedShrinks == out # <<>> /\ ~D.acc => D.chg /\ RLt(D.h, in.h) /\ RGt(D.h, 0)
Ceiling == out # <<>> /\ D.acc /\ D.chg /\ On(P.maxThr) => Le(D.h, P.maxThr)
GrowthLimited == out # <<>> /\ D.acc /\ On(P.incMax) => Le(D.h, RMul(in.h, RMax(1, P.incMax)))
NoSmallGrowth == out # <<>> /\ D.acc /\ D.chg /\ On(P.incMin) /\ (On(P.incMax) => RLe(P.incMin, P.incMax)) => Le(RMul(in.h, P.incMin), D.h)
DecreaseLimited == out # <<>> /\ ~D.acc /\ On(P.decMax) => Le(RMul(in.h, P.decMax), D.h)
\* with the insurance the predicted error at the new step size is within tolerance
PredictedErrorOk == out # <<>> /\ D.chg /\ (D.acc \/ ~On(P.decMax)) =>
    Le(RMul(in.ratio, RPow(RDiv(D.h, in.h), in.order + 1)), "1.0000000001")
=============================================================================
