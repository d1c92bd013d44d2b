------------------------------- MODULE MCNewton -------------------------------
(* Every run with small limits; prints each for drivers/newton.cpp gen.      *)
EXTENDS Newton, TLC, Json, FiniteSets
CONSTANTS Limits, Strategies, Show
VARIABLES t, h, reg
vars == <<t, h, reg>>
Statuses == {"converged", "continue", "diverged"}
Done(u, hh) == (Show /\ u.result # "") => PrintT("SCN " \o ToJson([limit |-> u.limit, help |-> u.help, reg |-> reg, iters |-> hh]))
Init == \E l \in Limits, p \in BOOLEAN : reg \in Strategies /\ t = StartRun(l, p) /\ h = <<>> /\ Done(t, h)
Next == /\ t.result = ""
        /\ \E st \in Statuses, z \in BOOLEAN, term \in BOOLEAN, adj \in (IF reg THEN BOOLEAN ELSE {FALSE}) :
            /\ (term => ~adj /\ ~z)         \* (no question is asked after a termination)
            /\ (z => st = "continue" /\ ~adj)
            /\ t' = Iterate(t, Effective(st, z), term, adj)
            /\ h' = Append(h, [st |-> st, zero |-> z, term |-> term, adj |-> adj])
        /\ UNCHANGED reg
        /\ Done(t', h')
Spec == Init /\ [][Next]_vars
Final == t.result # ""
L == h[Len(h)]
Stat(i) == Effective(h[i].st, h[i].zero)
Converged == Final => (t.result = "converged") = (h # <<>> /\ ~L.term /\ ~L.adj /\ Stat(Len(h)) = "converged")
Terminated == Final => (t.result = "terminated") = (\E i \in DOMAIN h : h[i].term)
Diverged == t.result = "diverged" => ~L.term /\ ~L.adj /\ Stat(Len(h)) = "diverged" /\ (t.help => t.tried)
Limit == t.result = "limit" => t.it = t.limit /\ (t.help => t.tried)
Bounds == t.it <= t.limit /\ t.num = Len(h) /\ t.num <= 2*t.limit /\ (~t.help => ~t.tried /\ t.num <= t.limit)
\* nobody goes on after convergence or termination
NoLate == \A i \in 1..Len(h)-1 : ~h[i].term /\ ~(~h[i].adj /\ Stat(i) = "converged")
Told == Final => LET n == Len(t.told) IN
        CASE t.result = "converged" -> n > 0 /\ t.told[n].ok /\ \A i \in 1..n-1 : ~t.told[i].ok
          [] t.result = "terminated" -> \A i \in 1..n : ~t.told[i].ok
          [] OTHER -> n > 0 /\ \A i \in 1..n : ~t.told[i].ok
ToldOnce == Len(t.told) <= 2 /\ ToldOk(t, t.told)
=============================================================================
