-------------------------------- MODULE MCLU --------------------------------
(***************************************************************************)
(* All matrices up to N x N over every pattern (a few values): the factors *)
(* stay within the layout, their product is the matrix, substitution       *)
(* solves the system, a matrix set through the fast path has the factors   *)
(* of the same matrix set afresh, and Hart's update maps d to y within the *)
(* layout, changing rows as little as possible.                            *)
(***************************************************************************)
EXTENDS LU
CONSTANTS N, Off
VARIABLES s, last
Patterns(n) == {P \in SUBSET {<<i, j>> \in (0..n-1) \X (0..n-1) : i # j} : TRUE}
Diag(n) == {<<i, i>> : i \in 0..n-1}
Value(ij, k) == IF ij[1] = ij[2] THEN IF (ij[1] + k) % 2 = 0 THEN 4 ELSE -3 ELSE IF (2*ij[1] + ij[2] + k) % 3 = 0 THEN 1 ELSE IF k % 2 = 0 THEN -2 ELSE "1/2"
Listed(n, P, k) == LET q == SetToSeq(P \cup Diag(n)) IN [i \in DOMAIN q |-> <<q[i][1], q[i][2], Value(q[i], k)>>]
Init == \E n \in 1..N, k \in 1..2 : \E P \in Patterns(n) : s = TLCEval(Take(Nothing, Listed(n, P, k))) /\ last = Listed(n, P, k)
\* another matrix of the same size: fewer elements, other values, or one element more
Fast == \E k \in Off : \E P \in {{}, {<<s.n-1, 0>>}, {<<0, s.n-1>>}} :
    LET m == Listed(s.n, {p \in P : s.n > 1}, k) IN s' = TLCEval(SetFast(s, m)) /\ last' = m
Next == Fast
Spec == Init /\ [][Next]_<<s, last>>
Good == s.ph = "set"
F == Factors(s.A)
Product == Good => LET q == MMul(F[1], F[2]) IN \A i \in 1..s.n : VClose(q[i], s.A[i], "1e-30", "1e-30")
Within == Good => \A i, j \in 1..s.n : ~InLayout(s.p, s.q, i, j) => REq(IF i > j THEN F[1][i][j] ELSE F[2][i][j], 0)
Layout == \A k \in DOMAIN last : InLayout(s.p, s.q, last[k][1] + 1, last[k][2] + 1)
LastIsIn == \A k \in DOMAIN last : REq(s.A[last[k][1] + 1][last[k][2] + 1], last[k][3])
Fresh == Good => LET t == Take(Nothing, last) IN t.ph = "set" /\ MMul(Factors(t.A)[1], Factors(t.A)[2]) = MMul(F[1], F[2])
B == [i \in 1..s.n |-> 3 - 2*i]
Solved == Good => Solves(s.A, B, MSolve(s.A, B))
D == [i \in 1..s.n |-> IF i % 2 = 0 THEN -1 ELSE 2]
Y == [i \in 1..s.n |-> i]
H == Hart(s, D, Y)
Secant == Good => LET h == TLCEval(H) IN VClose(MVec(h.L, MVec(h.U, D)), Y, "1e-30", "1e-30")
HartWithin == Good => LET h == TLCEval(H) IN \A i, j \in 1..s.n : ~InLayout(s.p, s.q, i, j) => REq(IF i > j THEN h.L[i][j] ELSE h.U[i][j], 0)
\* an update with the y that the matrix already gives changes nothing
HartNeutral == Good => LET h == TLCEval(Hart(s, D, MVec(s.A, D))) IN \A i \in 1..s.n : VClose(h.U[i], F[2][i], "1e-25", "1e-25") /\ VClose(h.L[i], F[1][i], "1e-25", "1e-25")
=============================================================================
