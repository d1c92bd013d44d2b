-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* A configured run: from the start time, attempt after attempt, until the *)
(* end time; and what its outputs record. Times are numbers of Rat.        *)
(*   att = [t (time after it), h, accepted, changed, truncated, ...]       *)
(*   out = [last (time of the last record), n (records), none]             *)
(***************************************************************************)
EXTENDS Rat, Naturals, Sequences
\* Whether the run is over at time t
Over(end, t) == RGe(t, end)
\* Whether the interval has elapsed since the last record
Elapsed(timing, last, t) == RLe(timing, 0) \/ RGe(RSub(t, last), timing)
\* ... and whether that is so close that rounding decides
Borderline(timing, last, t, eps) == RGt(timing, 0) /\ RLe(RAbs(RSub(RSub(t, last), timing)), RMul(eps, RAdd(RAdd(RAbs(t), RAbs(last)), timing)))
\* Outputs before the first step: the solution outputs record the initial state
NoRecords == [last |-> 0, n |-> 0, none |-> TRUE]
Recorded(out, t) == [last |-> t, n |-> out.n+1, none |-> FALSE]
Begun(kind, max, t0) == IF kind = "solution" \/ (kind = "columns" /\ max > 0) THEN Recorded(NoRecords, t0) ELSE NoRecords
\* Whether an attempt may be, and is, recorded
Eligible(kind, max, out, a) ==
    CASE kind = "solution" -> a.accepted
      [] kind = "columns" -> a.accepted /\ out.n < max
      [] kind = "log" -> TRUE
      [] OTHER -> FALSE
\* what is recorded whatever the time is
Forced(kind, out, a) == kind = "log" /\ (out.none \/ a.truncated)
IsDue(kind, max, timing, out, a) == Eligible(kind, max, out, a) /\ (Forced(kind, out, a) \/ Elapsed(timing, out.last, a.t))
\* Totals
NoTotals == [steps |-> 0, rejected |-> 0, changes |-> 0, truncated |-> 0, sum |-> 0]
Totals(s, a) == [steps |-> s.steps+1, rejected |-> s.rejected + (IF a.accepted THEN 0 ELSE 1), changes |-> s.changes + (IF a.changed THEN 1 ELSE 0),
                 truncated |-> s.truncated + (IF a.truncated THEN 1 ELSE 0), sum |-> IF a.accepted THEN RAdd(s.sum, a.h) ELSE s.sum]
\* What becomes of applying a configuration: init is "none" (the given state is used) or the number of elements
ApplyRefused(cfg) == ~cfg.solver \/ (cfg.init # "none" /\ (~cfg.rhs \/ cfg.initsize # cfg.vars))
SolveRefused(cfg) == ~cfg.rhs
=============================================================================
