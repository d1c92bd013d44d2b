---------------------------------- MODULE LU ----------------------------------
(***************************************************************************)
(* LU factorizer.  A state is [ph, n, p, q, A, fact]: ph is "none", "set", *)
(* or "ill" (the matrix does not factorise well without pivoting, or a     *)
(* layout was refused: nothing is promised until a matrix is set afresh);  *)
(* p[i] is the first column of row i and q[j] the first row of column j in *)
(* the layout; A is the matrix; fact tells if it has been factorised.      *)
(* Rows and columns count from 1 here, entries <<row, column, value>> of   *)
(* traces from 0.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Rat
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE a \in S : \A b \in S : b <= a
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE a \in S : \A b \in S : b >= a
Abs(m) == TLCEval([i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> RAbs(m[i][j])]])
Bits == 220

Nothing == [ph |-> "none", n |-> 0, p |-> <<>>, q |-> <<>>, A |-> <<>>, fact |-> FALSE]
Rows(m) == MaxOf({m[k][1] + 1 : k \in DOMAIN m}, 0)
Columns(m) == MaxOf({m[k][2] + 1 : k \in DOMAIN m}, 0)
FirstColumns(m, n) == TLCEval([i \in 1..n |-> MinOf({m[k][2] + 1 : k \in {h \in DOMAIN m : m[h][1] + 1 = i}}, n + 1)])
FirstRows(m, n) == TLCEval([j \in 1..n |-> MinOf({m[k][1] + 1 : k \in {h \in DOMAIN m : m[h][2] + 1 = j}}, n + 1)])
Dense(m, n) == TLCEval([i \in 1..n |-> [j \in 1..n |->
    LET h == {k \in DOMAIN m : m[k][1] + 1 = i /\ m[k][2] + 1 = j} IN IF h = {} THEN 0 ELSE m[CHOOSE k \in h : TRUE][3]]])
\* A matrix can be set if it is square, no row or column is empty and the layout covers the diagonal
Acceptable(m) == LET n == Rows(m)
                     p == FirstColumns(m, n)
                     q == FirstRows(m, n)
                 IN n = Columns(m) /\ \A i \in 1..n : p[i] <= i /\ q[i] <= i
InLayout(p, q, i, j) == IF i > j THEN j >= p[i] ELSE i >= q[j]
Covered(s, m) == \A k \in DOMAIN m : m[k][1] < s.n /\ m[k][2] < s.n /\ InLayout(s.p, s.q, m[k][1] + 1, m[k][2] + 1)

\* Factors of A (Doolittle, no pivoting): <<L, U>>
Entry(m, i, j) == IF i > Len(m) THEN 0 ELSE m[i][j]
RowOf(A, U, i) ==
    LET n == Len(A)
        col(c, k) == [h \in 1..k |-> U[h][c]]
        l == TLCEval(FoldLeft(LAMBDA acc, c : Append(acc, RTrim(RDiv(RSub(A[i][c], VDot(acc, col(c, c - 1))), U[c][c]), Bits)), <<>>, [c \in 1..(i - 1) |-> c]))
    IN << [c \in 1..n |-> IF c < i THEN l[c] ELSE IF c = i THEN 1 ELSE 0],
          [c \in 1..n |-> IF c < i THEN 0 ELSE RTrim(RSub(A[i][c], VDot(l, col(c, i - 1))), Bits)] >>
Factors(A) == FoldLeft(LAMBDA f, i : LET r == TLCEval(RowOf(A, f[2], i)) IN << Append(f[1], r[1]), Append(f[2], r[2]) >>, << <<>>, <<>> >>, [i \in 1..Len(A) |-> i])
\* Is it safe to factorise A without pivoting?
Scale(A) == FoldLeft(LAMBDA a, r : RMax(a, VInfNorm(r)), 0, A)
WellPosed(A) ==
    LET ok == FoldLeft(LAMBDA f, i : IF ~f.ok THEN f ELSE
                LET r == TLCEval(RowOf(A, f.U, i)) IN [ok |-> RGt(RAbs(r[2][i]), RMul("1/1000", Scale(A))) /\ RLe(VInfNorm(r[1]), 1000), U |-> Append(f.U, r[2])],
                [ok |-> TRUE, U |-> <<>>], [i \in 1..Len(A) |-> i])
    IN ok.ok

\* A matrix is set; fast: in the layout of the last one if that covers it
Take(s, m) == LET n == Rows(m)
                  A == Dense(m, n)
              IN [ph |-> IF WellPosed(A) THEN "set" ELSE "ill", n |-> n, p |-> FirstColumns(m, n), q |-> FirstRows(m, n), A |-> A, fact |-> FALSE]
Set(s, m, thrown) == IF thrown THEN [Nothing EXCEPT !.ph = "ill"] ELSE Take(s, m)
SetFast(s, m) == IF ~Covered(s, m) THEN Take(s, m)
                 ELSE LET A == Dense(m, s.n) IN [s EXCEPT !.A = A, !.fact = FALSE, !.ph = IF WellPosed(A) THEN "set" ELSE "ill"]
\* x solves A*x = b up to the rounding of an elimination
Bound(f, x) == MVec(Abs(f[1]), MVec(Abs(f[2]), [i \in DOMAIN x |-> RAbs(x[i])]))
Solves(A, b, x) ==
    LET f == TLCEval(Factors(A))
        r == TLCEval(MVec(A, x))
        t == TLCEval(Bound(f, x))
    IN Len(x) = Len(A) /\ VAllNum(x) /\ \A i \in DOMAIN x : RLe(RAbs(RSub(r[i], b[i])), RMul("1e-13", RAdd(t[i], RAbs(b[i]))))
\* The elements read back: the matrix, exactly before and up to rounding after the factorisation
Shows(s, m) ==
    /\ Len(m) = s.n
    /\ IF s.fact
       THEN LET f == TLCEval(Factors(s.A))
                t == TLCEval(MMul(Abs(f[1]), Abs(f[2])))
            IN \A i \in 1..s.n : Len(m[i]) = s.n /\ \A j \in 1..s.n : RLe(RAbs(RSub(m[i][j], s.A[i][j])), RMul("1e-13", t[i][j]))
       ELSE \A i \in 1..s.n : VEq(m[i], s.A[i])

\* Hart's update: row by row the smallest change within the layout such that (L*U)*d = y
HartRow(s, f, d, y, acc, i) ==
    LET lp == {k \in 1..(i - 1) : k >= s.p[i]}
        up == {k \in i..s.n : s.q[k] <= i}
        v == TLCEval([k \in 1..s.n |-> IF k < i THEN IF k \in lp THEN acc.r[k] ELSE 0 ELSE IF k \in up THEN d[k] ELSE 0])
        row == [k \in 1..s.n |-> IF k < i THEN f[1][i][k] ELSE f[2][i][k]]
        beta == RSub(y[i], VDot(row, v))
        new == TLCEval(IF REq(VDot(v, v), 0) THEN row ELSE VTrim(VAxpy(RTrim(RDiv(beta, VDot(v, v)), Bits), v, row), Bits))
    IN [L |-> Append(acc.L, [k \in 1..s.n |-> IF k < i THEN new[k] ELSE IF k = i THEN 1 ELSE 0]),
        U |-> Append(acc.U, [k \in 1..s.n |-> IF k < i THEN 0 ELSE new[k]]),
        r |-> Append(acc.r, RTrim(VDot([k \in 1..s.n |-> IF k < i THEN 0 ELSE new[k]], d), Bits))]
Hart(s, d, y) == LET f == TLCEval(Factors(s.A)) IN FoldLeft(LAMBDA acc, i : HartRow(s, f, d, y, acc, i), [L |-> <<>>, U |-> <<>>, r |-> <<>>], [i \in 1..s.n |-> i])
InPattern(s, m) == \A i, j \in 1..s.n : ~InLayout(s.p, s.q, i, j) => REq(m[i][j], 0)
===============================================================================
