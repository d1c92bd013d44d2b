------------------------------ MODULE LineSearch ------------------------------
(***************************************************************************)
(* The line search of Newton's method and the error estimator.             *)
(*                                                                         *)
(* A search starts at a point with residual norm (squared) n0.  It tries   *)
(* the ratios 1, 1/2, 1/4, ... until the best squared norm so far is below *)
(* Sufficient*n0 or the configured number of trials is used up.  If no     *)
(* trial was better than the start it tries -1, -1/2, ... likewise.        *)
(* A search is a record                                                    *)
(*   max   trials per direction                n0    squared norm at start *)
(*   neg   trying the opposite direction       k     trials in it so far   *)
(*   best  least squared norm, n0 if none      ratio ratio of the best     *)
(*   at    number of the best trial, 0: none   tried number of trials      *)
(*   done                                                                  *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences
Sufficient == "4/5"
Give(s) == IF s.k < s.max THEN s
           ELSE IF s.at # 0 THEN [s EXCEPT !.done = TRUE]
           ELSE IF s.neg \/ s.max = 0 THEN [s EXCEPT !.done = TRUE, !.ratio = 0]
           ELSE [s EXCEPT !.neg = TRUE, !.k = 0]
StartSearch(max, n0) == Give([max |-> max, n0 |-> n0, neg |-> FALSE, k |-> 0, best |-> n0, ratio |-> 0, at |-> 0, tried |-> 0, done |-> FALSE])
NextRatio(s) == RMul(IF s.neg THEN -1 ELSE 1, RPow("1/2", s.k))
\* n is the squared norm found at NextRatio(s)
Try(s, n) ==
    LET better == RLt(n, s.best)
        r == NextRatio(s)
        u == [s EXCEPT !.k = @ + 1, !.tried = @ + 1,
                       !.best = IF better THEN n ELSE @, !.ratio = IF better THEN r ELSE @, !.at = IF better THEN s.tried + 1 ELSE @]
    IN IF RLt(u.best, RMul(Sufficient, s.n0)) THEN [u EXCEPT !.done = TRUE] ELSE Give(u)
RECURSIVE TryAll(_, _, _)
\* after the trials ns[i..]; [tried |-> -1] if there is one too many
TryAll(s, ns, i) == IF i > Len(ns) THEN s ELSE IF s.done THEN [s EXCEPT !.tried = -1] ELSE TryAll(Try(s, ns[i]), ns, i + 1)
Norm2(v) == IF VAllNum(v) THEN VDot(v, v) ELSE "nan"

---------------------------------------------------------------------------
(* The estimator: [x, abs, rel] and its parameters [at, rt, am, rm]        *)
NewEstimator == [x |-> <<>>, abs |-> 0, rel |-> 0]
DefaultParams == [at |-> "4722366482869645p-72", rt |-> "4722366482869645p-72", am |-> "100000000000000000000", rm |-> 10]   \* 10^-6 as a double
EstReset(x) == [x |-> x, abs |-> 0, rel |-> 0]
EstSet(e, x, res) ==
    [x |-> x, abs |-> VInfNorm(res),
     rel |-> IF REq(VInfNorm(e.x), 0) THEN 0 ELSE RDiv(VInfNorm(VSub(x, e.x)), VInfNorm(e.x))]
EstStatus(abs, rel, p) ==
    IF RLe(abs, p.at) /\ RLe(rel, p.rt) THEN "converged"
    ELSE IF RGt(p.am, 0) /\ RGe(abs, p.am) THEN "diverged"
    ELSE IF RGt(p.rm, 0) /\ RGe(rel, p.rm) THEN "diverged"
    ELSE "continue"
=============================================================================
