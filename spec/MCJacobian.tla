------------------------------ MODULE MCJacobian ------------------------------
(***************************************************************************)
(* All patterns of small matrices: the grouping, the sparse and the dense  *)
(* differences, trimming; and all histories of a provider.                 *)
(***************************************************************************)
EXTENDS Jacobian
CONSTANTS Rows, Cols, MaxOps
VARIABLES pat, v, n, J, want
vars == <<pat, v, n, J, want>>
Cells == {<<i, j>> : i \in 0..(Rows - 1), j \in 0..(Cols - 1)}
Term(j, k, c) == [c |-> c, p |-> [i \in 1..(Cols + 1) |-> IF i = j + 2 THEN k ELSE 0]]
\* linear and square terms at the positions of a pattern
MapOf(S, sq) == [i \in 1..Rows |-> LET js == SetToSeq({j \in 0..(Cols - 1) : <<i - 1, j>> \in S})
                               IN [k \in DOMAIN js |-> Term(js[k], IF sq /\ js[k] = i - 1 THEN 2 ELSE 1, 1 + i + 3 * js[k])]]
X == [j \in 1..Cols |-> j - 2]
H == "1/8"
Entries(S) == LET c == SetToSeq(S) IN [k \in DOMAIN c |-> <<c[k][1], c[k][2], IF (c[k][1] + c[k][2]) % 2 = 0 THEN 1 + c[k][1] ELSE 0 - 3 - c[k][2]>>]
\* (1) the facts about a pattern
Facts(S) ==
    LET gs == Groups(S, Cols)
        p == TLCEval(MapOf(S, TRUE))
        D == ForwardDifferences(p, X, H)
        m == Entries(S)
    IN /\ GoodGroups(S, Cols, gs) /\ Len(gs) <= Cols
       /\ (\A j \in 0..(Cols - 1) : Cardinality({a \in S : a[2] = j}) > 0) => \A i \in 0..(Rows - 1) : Len(gs) >= Cardinality({a \in S : a[1] = i})
       /\ Structure(p, Cols) = S
       /\ LET G == Grouped(p, X, H, S, gs) IN \A i \in 1..Rows : VEq(G[i], D[i])
       /\ \A w \in 0..3 : LET t == Trimmed("width", ToString(w), m) IN /\ Positions(t) = IF w = 0 THEN S ELSE {a \in S : Dist(a) < w}
                                                             /\ Trimmed("width", ToString(w), t) = t
       /\ \A th \in {"0", "1/2", "3/4", "1"} : LET t == Trimmed("threshold", th, m) IN
            /\ {a \in S : a[1] = a[2]} \subseteq Positions(t)
            /\ \A k \in DOMAIN m : (m[k] \notin Range(t) => RLt(RAbs(m[k][3]), RMul(th, Biggest(m))))
            /\ (\E k \in DOMAIN m : REq(RAbs(m[k][3]), Biggest(m))) => REq(Biggest(t), Biggest(m))
            /\ Trimmed("threshold", th, t) = t
\* (2) provider histories over two mappings, one with a smaller structure
P1 == {a \in Cells : a[1] = a[2] \/ a[2] = 0}
P2 == {a \in Cells : a[1] = a[2]}
Provide(w) ==     \* <<the provider afterwards, the matrix it gives>>
    LET D == ForwardDifferences(w.map, X, H)
        full == [i \in 1..Rows |-> [j \in 1..Cols |-> <<i - 1, j - 1, D[i][j]>>]]
        m == SelectSeq(FoldLeft(LAMBDA a, r : a \o r, <<>>, full), LAMBDA e : ~REq(e[3], 0))
    IN IF UsesPattern(w) THEN <<w, Grouped(w.map, X, H, w.pat[1], Groups(w.pat[1], Cols))>>
       ELSE <<Detected(w, Positions(m)), AsDense(Trimmed(w.trim, w.par, m), Rows, Cols)>>
Init == /\ pat \in SUBSET Cells
        /\ v \in IF pat = {} THEN {[NewProvider(k) EXCEPT !.map = MapOf(P1, FALSE)] : k \in {"default", "sparse"}} ELSE {NewProvider("default")}
        /\ n = 0 /\ J = <<>> /\ want = <<>>
Next == /\ pat = {} /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED pat
        /\ \/ \E S \in {P1, P2} : v' = [v EXCEPT !.map = MapOf(S, FALSE)] /\ J' = <<>> /\ want' = want
           \/ \E t \in {<<"none", "0">>, <<"width", "1">>, <<"threshold", "1/2">>} : v' = SetTrimmer(v, t[1], t[2]) /\ J' = <<>> /\ want' = want
           \/ v' = Forget(v) /\ J' = <<>> /\ want' = want
           \/ LET r == TLCEval(Provide(v)) IN v' = r[1] /\ J' = r[2] /\ want' = ForwardDifferences(v.map, X, H)
Spec == Init /\ [][Next]_vars
AllFacts == n = 0 => Facts(pat)
\* without a trimmer the matrix is the mapping's whenever its structure is within the pattern detected
Right == J # <<>> /\ v.trim = "none" /\ (v.kind = "sparse" => Structure(v.map, Cols) \subseteq v.pat[1]) => \A i \in 1..Rows : VEq(J[i], want[i])
\* trimming by width leaves the diagonal
Diag == J # <<>> /\ v.trim = "width" => \A i \in 1..Rows, j \in 1..Cols : REq(J[i][j], IF i = j THEN want[i][j] ELSE 0)
\* resets forget
ResetForgets == [][v' = Forget(v) /\ v' # v => ~UsesPattern(v')]_vars
=============================================================================
