------------------------------- MODULE MCSparse -------------------------------
(***************************************************************************)
(* Laws of sparse matrices and their views, on all matrices up to R x C    *)
(* with every pattern and elements of Values, and all views (and views of  *)
(* views): what is written through a view is read back through it and      *)
(* nothing else changes; views of views commute as they should; products   *)
(* and norms agree with their definitions by columns.                      *)
(***************************************************************************)
EXTENDS SparseMatrices, TLC
CONSTANTS R, C, Two
Values == {"1", "-2"}
VARIABLES m, x
Cells == [{0, 1} -> {"0"}]
Matrices(r, c) == \* a stored zero, stored values and missing elements
    { [fast |-> FALSE, r |-> r, c |-> c, v |-> Grid(r, c, LAMBDA i, j : IF q[i][j] = "none" THEN "0" ELSE q[i][j]), p |-> Grid(r, c, LAMBDA i, j : q[i][j] # "none")]
        : q \in [1..r -> [1..c -> {"none", "0", "1", "-2"}]] }
Blocks(r, c) == { [o |-> "b", fr |-> fr, fc |-> fc, nr |-> nr, nc |-> nc] : fr \in 0..1, fc \in 0..1, nr \in 0..2, nc \in 0..2 }
Fit(r, c) == {b \in Blocks(r, c) : b.fr + b.nr <= r /\ b.fc + b.nc <= c}
T == [o |-> "t"]
S == [o |-> "s", c |-> "-1/2"]
Views(r, c) == {<<>>, <<T>>, <<S>>, <<T, T>>, <<S, T>>, <<T, S>>}
    \cup {<<b>> : b \in Fit(r, c)} \cup {<<b, T>> : b \in Fit(r, c)} \cup {<<T, b>> : b \in Fit(c, r)} \cup {<<b, S>> : b \in Fit(r, c)} \cup {<<S, b>> : b \in Fit(r, c)}
    \cup UNION {{<<b, d>> : d \in Fit(b.nr, b.nc)} : b \in IF Two THEN Fit(r, c) ELSE {}}
Init == \E r \in 0..R, c \in 0..C : m \in Matrices(r, c) /\ \E q \in Views(r, c) : x = [k |-> 1, ops |-> q]
Next == UNCHANGED <<m, x>>
Spec == Init /\ [][Next]_<<m, x>>
E1 == <<m>>
Q == Read(E1, x)
\* something to write: another pattern and other values
W == [Q EXCEPT !.v = Grid(Q.r, Q.c, LAMBDA i, j : IF (i + j) % 2 = 0 THEN i + 2*j ELSE 0), !.p = Grid(Q.r, Q.c, LAMBDA i, j : (i + j) % 2 = 0)]
After == Write(E1, x, W)
WrittenIsRead == Writable(x) => MEq(Read(After, x), W)
Image == {At(x.ops, <<i, j>>) : i \in 1..Q.r, j \in 1..Q.c}
NothingElse == Writable(x) => /\ After[1].r = m.r /\ After[1].c = m.c
    /\ \A i \in 1..m.r, j \in 1..m.c : <<i, j>> \notin Image => REq(After[1].v[i][j], m.v[i][j]) /\ After[1].p[i][j] = m.p[i][j]
Identical == Writable(x) => MEq(Write(E1, x, Q)[1], m)
\* what a view does to a product
V(n) == [i \in 1..n |-> IF i = 1 THEN 2 ELSE -1]
TransposedProduct == VEq(TimesVector(Q, V(Q.c)), VectorTimes(V(Q.c), Transposed(Q)))
ProductOfProduct == VEq(TimesVector(Times(Transposed(Q), Q), V(Q.c)), TimesVector(Transposed(Q), TimesVector(Q, V(Q.c))))
TransposeOfProduct == LET G == Times(Transposed(Q), Q) IN MEq(Transposed(G), G)
ScaleCommutes == LET s == Scaled(Q, "-1/2") IN MEq(s, Read(E1, [x EXCEPT !.ops = <<S>> \o @])) \/ Len(x.ops) = 2
Norms == RLe(VInfNorm(Flat(Q)), OneNorm(Q)) /\ RLe(Square(Q), RMul(OneNorm(Q), OneNorm(Q))) /\ REq(OneNorm(Q), OneNorm(Transposed(Q)))
IdentityIsNeutral == LET i == ScaledIdentity(FALSE, Q.c, 1)
                         t == Times(Q, i)
                     IN \A a \in 1..Q.r : VEq(t.v[a], Q.v[a])
PlusMinus == LET p == Plus(Plus(m, m, 1), m, -1) IN \A i \in 1..m.r : VEq(p.v[i], m.v[i])
\* stored elements never hide a value, and views keep the pattern's shape
Zeroes == \A i \in 1..Q.r, j \in 1..Q.c : ~Q.p[i][j] => REq(Q.v[i][j], 0)
=============================================================================
