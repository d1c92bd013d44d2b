-------------------------------- MODULE Newton --------------------------------
(***************************************************************************)
(* The control flow of a run of Newton's method.                           *)
(*                                                                         *)
(* A run makes attempts of at most `limit` iterations.  After an iteration *)
(* the observers may terminate the run; the regularisation strategy (if    *)
(* any) may ask for another iteration by adjusting itself; otherwise the   *)
(* estimator's status decides.  An attempt that diverged or used up its    *)
(* iterations is repeated once, from the starting point and after a hard   *)
(* reset, if the descent direction says that may help.                     *)
(*   limit, help     constants of the run                                  *)
(*   it, num         iterations made in this attempt and in the run        *)
(*   tried           the hard reset has been made                          *)
(*   result          "" while running                                      *)
(*   told            outcomes reported to the descent direction:           *)
(*                   records [at |-> iterations made before, ok]           *)
(*   may             reports that are allowed but not required             *)
(***************************************************************************)
EXTENDS Integers, Sequences
Report(t, ok) == [t EXCEPT !.told = Append(@, [at |-> t.num, ok |-> ok])]
Restart(t) == [t EXCEPT !.tried = TRUE, !.it = 0]
Exhausted(t) == IF ~t.tried /\ t.help THEN [Restart(t) EXCEPT !.may = @ \cup {t.num}]
                ELSE [Report(t, FALSE) EXCEPT !.result = "limit"]
\* nothing can be done with a limit of zero
StartRun(limit, help) ==
    LET t == [limit |-> limit, help |-> help, it |-> 0, num |-> 0, tried |-> FALSE, result |-> "", told |-> <<>>, may |-> {}]
    IN IF limit > 0 THEN t ELSE [Report(t, FALSE) EXCEPT !.result = "limit", !.tried = help, !.may = {0}]
\* status is the estimator's; a zero step that did not converge makes no progress
Effective(status, zerostep) == IF zerostep /\ status = "continue" THEN "diverged" ELSE status
Iterate(t, status, term, adjusted) ==
    LET u == [t EXCEPT !.it = @ + 1, !.num = @ + 1]
        more == IF u.it < u.limit THEN u ELSE Exhausted(u)
    IN IF term THEN [u EXCEPT !.result = "terminated"]
       ELSE IF adjusted \/ status = "continue" THEN more
       ELSE IF status = "converged" THEN [Report(u, TRUE) EXCEPT !.result = "converged"]
       ELSE IF ~u.tried /\ u.help THEN Restart(Report(u, FALSE))
       ELSE [Report(u, FALSE) EXCEPT !.result = "diverged"]
\* the reports made, given those expected and allowed
ToldOk(t, told) == LET must == SelectSeq(told, LAMBDA r : [at |-> r.at, ok |-> r.ok] \in {t.told[i] : i \in DOMAIN t.told})
                   IN /\ must = t.told
                      /\ \A i \in DOMAIN told : ~(\E j \in DOMAIN t.told : t.told[j] = told[i]) => told[i].at \in t.may /\ ~told[i].ok

---------------------------------------------------------------------------
(* Which object the parts of the solver refer to: the numbers of the last  *)
(* mapping, estimator, direction, ... set; the Jacobian provider belongs   *)
(* to the direction and the trimmer to the provider.                       *)
NoWires == [map |-> 0, est |-> 0, ddir |-> 0, ls |-> 0, reg |-> 0, jp |-> 0, trim |-> 0]
Wire(w, what, id) ==
    CASE what = "ddir" -> [w EXCEPT !.ddir = id, !.jp = 0, !.trim = 0]
      [] what = "jp" -> [w EXCEPT !.jp = id, !.trim = 0]
      [] what = "map" -> [w EXCEPT !.map = id]
      [] what = "est" -> [w EXCEPT !.est = id]
      [] what = "ls" -> [w EXCEPT !.ls = id]
      [] what = "reg" -> [w EXCEPT !.reg = id]
      [] what = "trim" -> [w EXCEPT !.trim = id]
=============================================================================
