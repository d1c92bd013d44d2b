-------------------------- MODULE TraceRichardson --------------------------
(* Accepts a trace of drivers/rich.cpp: Richardson estimations.             *)
EXTENDS Richardson, FiniteSets, TLC, SequencesExt, TraceTools
CONSTANT Props
VARIABLES l, s
None == [phase |-> "none", r |-> Beginning(0, <<>>), c |-> <<>>, end |-> 0, t |-> 0, x |-> <<>>, changed |-> FALSE, unclean |-> FALSE, owed |-> FALSE, stats |-> <<>>]
Same(a, b) == RStr(a) = RStr(b)
SameX(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Same(a[k], b[k])
Eps == "1/100000000000000"
Near(a, b, n) == RClose(a, b, 0, RMul(n, Eps))
NearX(a, b, n) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], n)
\* an attempt: the first of a step starts where the step starts
Pre(e) == LET r == s.r
              t == IF r.k = 1 \/ s.unclean THEN s.t ELSE r.t
              x == IF r.k = 1 \/ s.unclean THEN s.x ELSE r.x
          IN IF s.phase = "between" /\ ~s.owed /\ ~Complete(r) /\ Same(e.t, t) /\ SameX(e.x, x) /\ Same(e.h, StepOf(r.k, s.c.h)) THEN [s EXCEPT !.phase = "attempt"] ELSE <<>>
Att(e) == LET clean == e.accepted /\ ~e.truncated
          IN IF s.phase # "attempt" THEN <<>>
             \* a solver may repeat a rejected attempt within a step
             ELSE IF s.c.loop /\ ~e.accepted THEN [s EXCEPT !.phase = "between", !.r.clean = FALSE, !.unclean = TRUE, !.t = e.t, !.x = e.x, !.changed = @ \/ e.changed]
             ELSE LET r == TLCEval(Stepped(s.r, e.x, clean))
                  IN [s EXCEPT !.phase = "between", !.unclean = FALSE, !.t = e.t, !.x = e.x, !.changed = @ \/ e.changed,
                               !.r = IF Complete(r) /\ ~r.clean THEN TLCEval(Following(r, s.c.h)) ELSE r, !.owed = Complete(r) /\ r.clean,
                               !.end = IF Complete(r) THEN RSub(@, s.c.h) ELSE @]
SampleEv(e) == LET w == TLCEval(Sample(s.r, s.c.p))
               IN IF s.phase = "between" /\ s.owed /\ Same(e.t, s.r.t) /\ Same(e.h, s.c.h) /\ NearX(e.err, w, 1) THEN [s EXCEPT !.owed = FALSE, !.r = TLCEval(Following(Counted(@, e.err), s.c.h))] ELSE <<>>
\* it goes on until the duration is covered (end is what remains of it); at least one interval is made
Result(e) == LET r == s.r
             IN IF s.phase = "between" /\ ~s.owed /\ ~s.changed /\ r.k = 0 /\ ~s.unclean /\ RLe(s.end, 0) /\ RGt(RAdd(s.end, s.c.h), IF Same(r.t, RAdd(s.c.t, s.c.h)) THEN RNeg(RAdd(RAbs(s.c.T), RAbs(s.c.h))) ELSE 0)
                   /\ e.n = r.n /\ SameX(e.max, r.max) /\ NearX(e.sum, r.sum, 1 + r.n) /\ e.disabled THEN [s EXCEPT !.phase = "over"] ELSE <<>>
\* statistics of samples, apart and together
Stat(e) == LET all == e.samples
               n == Len(all)
               sum(f(_)) == RNum(VSum([k \in DOMAIN all |-> f(all[k])]))
           IN IF /\ e.n = n
                 /\ Near(e.sum, sum(RAbs), n) /\ Near(e.squares, sum(LAMBDA a : RMul(a, a)), 2*n)
                 /\ (n > 0 => Same(e.max, VInfNorm(all)) /\ Near(e.mean, RDiv(sum(RAbs), n), n+2))
              THEN s ELSE <<>>
After(e) ==
    CASE e.e \in {"scenario", "end"} -> IF s.phase \in {"none", "over"} THEN None ELSE <<>>
      [] e.e = "calc" -> [None EXCEPT !.phase = "between", !.c = e, !.end = e.T, !.r = Beginning(e.t, e.x), !.t = e.t, !.x = e.x]
      [] e.e = "pre" -> Pre(e)
      [] e.e = "att" -> Att(e)
      [] e.e = "sample" -> SampleEv(e)
      [] e.e = "result" -> Result(e)
      \* a change of the step size is refused; the algebraic solver of an implicit solver may fail
      [] e.e = "thrown" -> IF s.changed \/ (s.phase = "attempt" /\ s.c.implicit) THEN [s EXCEPT !.phase = "over"] ELSE <<>>
      [] e.e = "stat" -> Stat(e)
      [] OTHER -> <<>>
Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
