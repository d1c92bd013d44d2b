------------------------------- MODULE MCSearch -------------------------------
(***************************************************************************)
(* Every search over a few residual levels; prints each complete one       *)
(* (Show = TRUE) for drivers/search.cpp gen.                              *)
(***************************************************************************)
EXTENDS LineSearch, TLC, Json
CONSTANTS Levels, MaxTrials, Show
VARIABLES s, ns
N0 == 5
Init == \E m \in 0..MaxTrials : s = StartSearch(m, N0) /\ ns = <<>>
Next == /\ ~s.done
        /\ \E n \in Levels : s' = Try(s, n) /\ ns' = Append(ns, n)
        /\ (Show /\ s'.done => PrintT("SCN " \o ToJson([max |-> s.max, ns |-> ns'])))
Spec == Init /\ [][Next]_<<s, ns>>
Bad(n) == ~RLt(n, N0)
Enough(n) == RLt(n, RMul(Sufficient, N0))
\* declarative meaning of a finished search
Pos == SubSeq(ns, 1, IF Len(ns) < s.max THEN Len(ns) ELSE s.max)
Neg == SubSeq(ns, s.max + 1, Len(ns))
Turns == s.done /\ Len(ns) > s.max => \A i \in DOMAIN Pos : Bad(Pos[i])
Stops == \A i \in 1..Len(ns)-1 : ~Enough(ns[i])
Ends == s.done => \/ Len(ns) = 2*s.max
                  \/ Len(ns) = s.max /\ \E i \in DOMAIN ns : ~Bad(ns[i])
                  \/ Len(ns) > 0 /\ Enough(ns[Len(ns)])
Best == s.done => IF s.at = 0 THEN s.ratio = 0 /\ \A i \in DOMAIN ns : Bad(ns[i])
                  ELSE /\ ~Bad(ns[s.at])
                       /\ \A i \in DOMAIN ns : ~RLt(ns[i], ns[s.at])
                       /\ \A i \in 1..s.at-1 : ~REq(ns[i], ns[s.at])
                       /\ REq(RAbs(s.ratio), RPow("1/2", (s.at - 1) % s.max))
                       /\ RGt(s.ratio, 0) = (s.at <= s.max)
Bounded == Len(ns) <= 2*s.max
=============================================================================
