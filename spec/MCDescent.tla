------------------------------ MODULE MCDescent ------------------------------
(***************************************************************************)
(* All strategies on runs of two steps in two unknowns, over several       *)
(* Jacobians, points and residual changes, with resets and reports.        *)
(***************************************************************************)
EXTENDS Descent
CONSTANTS Kinds, Steps, MaxOps, Jacobians
VARIABLES d, it, n, need
vars == <<d, it, n, need>>
Jac(k) == CASE k = 1 -> <<<<0, 0, 4>>, <<0, 1, 1>>, <<1, 0, -1>>, <<1, 1, 3>>>>
            [] k = 2 -> <<<<0, 0, -3>>, <<1, 1, 5>>>>
            [] k = 3 -> <<<<0, 0, 4>>, <<1, 0, 2>>, <<1, 1, -3>>>>
X0 == <<1, -1>>
F0 == <<2, 3>>
\* need tells whether a Jacobian was computed in the last step
Init == \E k \in Kinds : d = [NewStrategy(k) EXCEPT !.lazy = 1] /\ it = 0 /\ n = 0 /\ need = FALSE
Step == \E k \in Jacobians, DX \in Steps, DF \in Steps :
            /\ (d.kind = "lazy-fake-broyden" => it > 0 \/ ~d.have)
            /\ LET x == IF d.have THEN VAdd(d.xp, DX) ELSE X0
                   f == IF d.have THEN VAdd(d.fp, DF) ELSE F0
               IN d' = TLCEval(At(d, x, f, it, Jac(k)))
            /\ (d.have \/ (DX = (CHOOSE a \in Steps : TRUE) /\ DF = DX))
            /\ need' = Needs(d, it)
            /\ (need' \/ k = 1)
            /\ it' = it + 1
Reset == \E hard \in BOOLEAN : d' = ResetStrategy(d, hard) /\ it' = 0 /\ need' = FALSE
Tell == it > 0 /\ \E ok \in BOOLEAN : d' = ReportTo(d, ok) /\ need' = FALSE /\ it' = 0
Next == n < MaxOps /\ n' = n + 1 /\ (Step \/ Reset \/ Tell)
Spec == Init /\ [][Next]_vars
Stepped == it' = it + 1
dx == VSub(d'.xp, d.xp)
df == VSub(d'.fp, d.fp)
Updated == Stepped /\ ~Needs(d, it) /\ d.have
MClose(A, B) == \A i \in DOMAIN A : VClose(A[i], B[i], "1e-30", "1e-30")
\* the updated matrix maps the last step to the last change
Secant == [][Updated /\ d.kind = "broyden" => VClose(MVec(d'.A, dx), df, "1e-30", "1e-30")]_vars
SecantHart == [][Updated /\ d.kind = "hart" /\ ~d.ill /\ ~d'.ill => VClose(MVec(d'.A, dx), df, "1e-30", "1e-30")]_vars
\* with every position stored the fake update is Broyden's
SecantFull == [][Updated /\ d.kind = "fake-broyden" /\ Cardinality(d.pat) = 4 => VClose(MVec(d'.A, dx), df, "1e-30", "1e-30")]_vars
\* positions not stored stay zero
Pattern == d.kind \in {"fake-broyden", "lazy-fake-broyden"} /\ ~d.fresh => \A i, j \in 1..2 : <<i - 1, j - 1>> \notin d.pat => REq(d.A[i][j], 0)
\* nothing else changes the matrix
Kept == [][Stepped /\ ~Needs(d, it) /\ (d.kind = "const" \/ (~d.have /\ d.kind \notin {"simple", "lazy-fake-broyden"})) => d'.A = d.A]_vars
KeptLazy == [][Stepped /\ d.kind = "lazy-fake-broyden" /\ it > 0 => d'.A = d.A]_vars
\* Broyden's change is orthogonal to all directions but the step
Least == [][Updated /\ d.kind = "broyden" => VClose(MVec(d'.A, <<RNeg(dx[2]), dx[1]>>), MVec(d.A, <<RNeg(dx[2]), dx[1]>>), "1e-30", "1e-30")]_vars
\* after a hard reset the next direction uses a new Jacobian
HardResets == [][Stepped /\ d.fresh => Needs(d, it)]_vars
Fresh == [][Stepped /\ Needs(d, it) => \E k \in Jacobians : MClose(d'.A, Dense(Jac(k), 2))]_vars
Steps2 == {<<1, 2>>, <<-2, 1>>}
Steps4 == {<<1, 2>>, <<-2, 1>>, <<-1, -1>>, <<3, -2>>}
=============================================================================
