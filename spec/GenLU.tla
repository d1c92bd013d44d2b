-------------------------------- MODULE GenLU --------------------------------
(* Histories of the factorizer, for drivers/lu.cpp gen. *)
EXTENDS LU, Json
CONSTANT MaxOps
VARIABLES n, pat, ops, told
vars == <<n, pat, ops, told>>
Init == n = 0 /\ pat = {} /\ ops = <<>> /\ told = FALSE
\* random choices (from sets that depend on the state, or TLC would choose once and for all)
Rand(S) == RandomElement({v \in S : Len(ops) >= 0})
Diag(k) == {<<i, i>> : i \in 0..k-1}
SubsetOf(S) == {v \in S : Rand(1..3) = 1}
All(k) == (0..k-1) \X (0..k-1)
Value(ij) == IF ij[1] = ij[2] THEN Rand({"7", "-6", "9/2"}) ELSE Rand({"1", "-3/2", "1/4", "-1", "2", "0"})
Listed(P) == LET q == SetToSeq(P) IN [i \in DOMAIN q |-> <<q[i][1], q[i][2], Value(q[i])>>]
Do(e) == ops' = Append(ops, e) /\ UNCHANGED told
Give(op, k, P) == n' = k /\ pat' = P /\ Do([e |-> op, m |-> TLCEval(Listed(P))])
Fresh == \E k \in {Rand(1..6)} : \E P \in {Diag(k) \cup SubsetOf(All(k))} : Give("set", k, P)
Fast == n > 0 /\ \E P \in {Diag(n) \cup SubsetOf(pat), pat, pat \cup {<<Rand(0..n-1), Rand(0..n-1)>>}} : n' = n /\ pat' = pat \cup P /\ Do([e |-> "fast", m |-> TLCEval(Listed(P))])
Grow == n > 0 /\ n < 7 /\ \E P \in {pat \cup {<<n, n>>, <<Rand(0..n), n>>, <<n, Rand(0..n)>>}} : Give("fast", n + 1, P)
Vec == TLCEval([i \in 1..n |-> Rand({"1", "-2", "1/2", "3"})])
Solve == n > 0 /\ UNCHANGED <<n, pat>> /\ Do([e |-> "solve", b |-> Vec])
Elements == n > 0 /\ UNCHANGED <<n, pat>> /\ Do([e |-> "elements"])
Update == n > 0 /\ UNCHANGED <<n, pat>> /\ Do([e |-> "hart", d |-> Vec, y |-> TLCEval([i \in 1..n |-> Rand({"5", "-4", "9", "2"})])])
Next == Len(ops) < MaxOps /\ ~told /\ (Fresh \/ Fast \/ Grow \/ Solve \/ Elements \/ Update)
Tell == Len(ops) = MaxOps /\ ~told /\ told' = TRUE /\ UNCHANGED <<n, pat, ops>> /\ PrintT("SCN " \o ToJson([ops |-> ops]))
Spec == Init /\ [][Next \/ Tell]_vars
=============================================================================
