------------------------------- MODULE MCRun -------------------------------
(* All short runs of all configurations, one after another. *)
EXTENDS Run, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Timings, Durations, Hs, Maxes, MaxRej, Runs, Odd, Show
VARIABLES phase, cfg, start, t, x, atts, sol, col, log, tot, done
vars == <<phase, cfg, start, t, x, atts, sol, col, log, tot, done>>
Kinds == <<"solution", "columns", "log">>
\* an output with what it recorded: numbers of attempts, 0 for the initial state
Nothing == [out |-> NoRecords, recs |-> <<>>]
Open(kind, max, now) == LET o == Begun(kind, max, now) IN [out |-> o, recs |-> IF o.none THEN <<>> ELSE <<0>>]
After(w, kind, a, k) == IF IsDue(kind, cfg.max, cfg.timing, w.out, a) THEN [out |-> Recorded(w.out, a.t), recs |-> Append(w.recs, k)] ELSE w
Configs == {[solver |-> TRUE, rhs |-> TRUE, init |-> i, initsize |-> 2, vars |-> 2, timing |-> tm, duration |-> d, max |-> m] : i \in {"none", "given"}, tm \in Timings, d \in Durations, m \in Maxes}
           \cup (IF Odd THEN {[solver |-> s, rhs |-> r, init |-> i, initsize |-> z, vars |-> 2, timing |-> 0, duration |-> 1, max |-> 1] :
                               s \in BOOLEAN, r \in BOOLEAN, i \in {"none", "given"}, z \in {0, 1, 2, 3}} ELSE {})
Init == /\ phase = "config" /\ cfg \in Configs /\ start = 0 /\ t = 0 /\ x = 0 /\ atts = <<>> /\ sol = Nothing /\ col = Nothing /\ log = Nothing /\ tot = NoTotals
        /\ done = 0
Apply == /\ phase = "config"
         /\ phase' = (IF ApplyRefused(cfg) THEN "refused" ELSE "ready")
         /\ t' = (IF cfg.init = "given" THEN 3 ELSE 5)
         /\ x' = (IF cfg.init = "given" THEN "configured" ELSE "passed")
         /\ UNCHANGED <<cfg, start, atts, sol, col, log, tot, done>>
Solve == /\ phase = "ready" /\ done < Runs
         /\ phase' = (IF SolveRefused(cfg) THEN "refused" ELSE "running")
         /\ start' = t /\ t' = t /\ atts' = <<>> /\ tot' = NoTotals
         /\ sol' = Open("solution", cfg.max, t) /\ col' = Open("columns", cfg.max, t) /\ log' = Open("log", cfg.max, t)
         /\ UNCHANGED <<cfg, x, done>>
Rejections == Cardinality({k \in DOMAIN atts : ~atts[k].accepted})
Attempt == /\ phase = "running" /\ (atts = <<>> \/ ~Over(start + cfg.duration, t))
           /\ \E h \in Hs, acc \in BOOLEAN, tr \in BOOLEAN, ch \in BOOLEAN :
                 /\ (~acc => Rejections < MaxRej)
                 /\ (ch => ~acc) /\ (Show => ch = ~acc)
                 /\ LET a == [t |-> IF acc THEN t+h ELSE t, h |-> h, accepted |-> acc, changed |-> ch, truncated |-> tr]
                    IN /\ atts' = Append(atts, a) /\ t' = a.t
                       /\ sol' = After(sol, "solution", a, Len(atts)+1) /\ col' = After(col, "columns", a, Len(atts)+1) /\ log' = After(log, "log", a, Len(atts)+1)
                       /\ tot' = Totals(tot, a)
           /\ x' = "stepped"
           /\ UNCHANGED <<phase, cfg, start, done>>
Finish == /\ phase = "running" /\ atts # <<>> /\ Over(start + cfg.duration, t)
          /\ phase' = "ready" /\ done' = done+1 /\ UNCHANGED <<cfg, start, t, x, atts, sol, col, log, tot>>
          /\ (Show => PrintT("SCN " \o ToJson([cfg |-> cfg, atts |-> atts])))
Next == Apply \/ Solve \/ Attempt \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Finished == phase = "ready" /\ done > 0
TimeAt(k) == IF k = 0 THEN start ELSE atts[k].t
\* it reached the end, with at least one attempt, and made none too many
Reaches == Finished => atts # <<>> /\ t >= start + cfg.duration /\ \A k \in 1..(Len(atts)-1) : atts[k].t < start + cfg.duration
\* time advances by accepted attempts only
Advances == phase = "running" \/ Finished => t = start + tot.sum
\* records: of accepted attempts, spaced, and none is missing
Spaced(w) == \A k \in 1..(Len(w.recs)-1) : w.recs[k] < w.recs[k+1]
Complete(w, kind) == \A k \in DOMAIN atts :
    LET before == SelectSeq(w.recs, LAMBDA r : r < k)
    IN atts[k].accepted => (Contains(w.recs, k) <=> cfg.timing = 0 \/ atts[k].t - TimeAt(Last(before)) >= cfg.timing)
SolutionRecords == phase = "running" \/ Finished => /\ sol.recs[1] = 0 /\ Spaced(sol) /\ Complete(sol, "solution")
                                                    /\ \A k \in 2..Len(sol.recs) : atts[sol.recs[k]].accepted
\* the columns are the first records of the solution
ColumnRecords == col.recs = SubSeq(sol.recs, 1, IF Len(sol.recs) < cfg.max THEN Len(sol.recs) ELSE cfg.max)
LogRecords == \A k \in DOMAIN atts : /\ (k = 1 \/ atts[k].truncated \/ cfg.timing = 0 => Contains(log.recs, k))
                                     /\ (~Contains(log.recs, k) => atts[k].t - TimeAt(Last(SelectSeq(log.recs, LAMBDA r : r < k))) < cfg.timing)
TotalsRight == tot.steps = Len(atts) /\ tot.rejected = Rejections /\ tot.truncated = Cardinality({k \in DOMAIN atts : atts[k].truncated})
               /\ tot.changes = Cardinality({k \in DOMAIN atts : atts[k].changed})
\* nothing runs without a solver and equations, or from a state that does not fit
Sound == phase = "running" => cfg.solver /\ cfg.rhs /\ (cfg.init = "given" => cfg.initsize = cfg.vars)
Starts == phase = "running" /\ atts = <<>> /\ done = 0 => t = (IF cfg.init = "given" THEN 3 ELSE 5) /\ x = (IF cfg.init = "given" THEN "configured" ELSE "passed")
Goes == [][phase = "running" /\ phase' = "ready" => t' = t /\ x' = x]_vars
=============================================================================
