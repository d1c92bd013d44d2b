----------------------------- MODULE Richardson -----------------------------
(***************************************************************************)
(* Richardson estimation. Every interval [t, t+h] is covered by two steps  *)
(* h/2 and, from its beginning again, by one step h.                       *)
(*   r = [t, x   the beginning of the interval                             *)
(*        k      number of attempts made in it, x1 the state after two     *)
(*        clean  no attempt was rejected or truncated                      *)
(*        at     what the solver is at: [t, x]                             *)
(*        n, max, sum  of the samples]                                     *)
(***************************************************************************)
EXTENDS Rat, Naturals, Sequences
VAbs(v) == [k \in DOMAIN v |-> RAbs(v[k])]
VMax(a, b) == [k \in DOMAIN a |-> RMax(a[k], b[k])]
Factor(p) == RDiv(RPow(2, p), RSub(RPow(2, p), 1))
Beginning(t, x) == [t |-> t, x |-> x, k |-> 0, x1 |-> x, x2 |-> x, clean |-> TRUE, n |-> 0, max |-> VZero(Len(x)), sum |-> VZero(Len(x))]
\* the step the k-th step of an interval has, and where it starts; at is where the solver is
StepOf(k, h) == IF k < 2 THEN RDiv(h, 2) ELSE h
\* after a step that brought the solver to the state x; clean: no attempt of it was rejected or truncated
Stepped(r, x, clean) == [r EXCEPT !.k = @+1, !.clean = @ /\ clean, !.x1 = IF r.k = 1 THEN x ELSE @, !.x2 = IF r.k = 2 THEN x ELSE @]
Complete(r) == r.k = 3
Sample(r, p) == VScale(Factor(p), VSub(r.x1, r.x2))
Counted(r, e) == [r EXCEPT !.n = @+1, !.max = VMax(@, VAbs(e)), !.sum = VAdd(@, VAbs(e))]
Following(r, h) == [r EXCEPT !.t = RAdd(@, h), !.x = r.x1, !.k = 0, !.clean = TRUE]
=============================================================================
