------------------------------- MODULE Descent -------------------------------
(***************************************************************************)
(* Descent directions of Newton's method.  A strategy keeps               *)
(*   kind    "simple", "const", "broyden", "fake-broyden",                 *)
(*           "lazy-fake-broyden" or "hart"                                 *)
(*   fresh   no matrix kept: a Jacobian must be computed                   *)
(*   A, pat  the matrix kept and the positions it stores                   *)
(*   have, xp, fp   the previous point and residual of this run            *)
(*   dA, act, lazy  lazy strategy: accumulated updates, what to do at the  *)
(*           start of the next run ("recompute", "leave", "update"), and   *)
(*           the iterations a run may take for the matrix to be left alone *)
(*   last    number of the last iteration                                  *)
(*   lu, ill Hart's strategy: the layout; whether the factors are useless  *)
(***************************************************************************)
EXTENDS LU
NewStrategy(kind) == [kind |-> kind, fresh |-> TRUE, A |-> <<>>, pat |-> {}, have |-> FALSE, xp |-> <<>>, fp |-> <<>>,
                      dA |-> <<>>, act |-> "recompute", lazy |-> 10, last |-> 0, lu |-> Nothing, ill |-> FALSE]
ResetStrategy(d, hard) ==
    LET e == [d EXCEPT !.have = FALSE]
    IN IF hard THEN [e EXCEPT !.fresh = TRUE, !.act = "recompute"] ELSE e
ReportTo(d, ok) == [d EXCEPT !.act = IF ~ok THEN "recompute" ELSE IF d.last + 1 <= d.lazy THEN "leave" ELSE "update"]
Needs(d, it) == CASE d.kind = "simple" -> TRUE
                  [] d.kind = "lazy-fake-broyden" -> it = 0 /\ (d.fresh \/ d.act = "recompute")
                  [] OTHER -> d.fresh
\* the rank-one change that makes the matrix map dx to df, and its part within a pattern
Rank1(A, dx, df) == LET c == TLCEval(VScale(RDiv(1, VDot(dx, dx)), VSub(df, MVec(A, dx))))
                    IN TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A |-> RTrim(RMul(c[i], dx[j]), Bits)]])
Within(M, pat) == TLCEval([i \in DOMAIN M |-> [j \in DOMAIN M |-> IF <<i - 1, j - 1>> \in pat THEN M[i][j] ELSE 0]])
Plus(M, N) == TLCEval([i \in DOMAIN M |-> VTrim(VAdd(M[i], N[i]), Bits)])
Zeros(n) == [i \in 1..n |-> VZero(n)]
HartSmall(h) == RLe(Scale(h.L), 1000) /\ \A i \in DOMAIN h.U : RGt(RAbs(h.U[i][i]), RMul("1/1000", Scale(h.U)))
\* the strategy at point x with residual f in iteration it; m: the entries of the Jacobian computed, if it is needed
At(d, x, f, it, m) ==
    LET new == Needs(d, it)
        n == Len(x)
        base == IF new THEN Dense(m, n) ELSE d.A
        pat == IF new THEN {<<m[k][1], m[k][2]>> : k \in DOMAIN m} ELSE d.pat
        upd == ~new /\ d.have
        dx == TLCEval(VSub(x, d.xp))
        df == TLCEval(VSub(f, d.fp))
        h == TLCEval(Hart([d.lu EXCEPT !.A = d.A], dx, df))
        dA == IF new THEN Zeros(n) ELSE IF upd THEN Plus(d.dA, Within(Rank1(base, dx, df), pat)) ELSE d.dA
        add == ~new /\ it = 0 /\ d.act = "update"
        c == [d EXCEPT !.fresh = FALSE, !.have = TRUE, !.xp = x, !.fp = f, !.last = it, !.pat = pat]
    IN CASE d.kind \in {"simple", "const"} -> [c EXCEPT !.A = base]
         [] d.kind = "broyden" -> [c EXCEPT !.A = IF upd THEN Plus(base, Rank1(base, dx, df)) ELSE base]
         [] d.kind = "fake-broyden" -> [c EXCEPT !.A = IF upd THEN Plus(base, Within(Rank1(base, dx, df), pat)) ELSE base]
         [] d.kind = "lazy-fake-broyden" -> [c EXCEPT !.A = IF add THEN Plus(base, dA) ELSE base, !.dA = IF add THEN Zeros(n) ELSE dA]
         [] d.kind = "hart" -> IF new THEN LET t == Take(Nothing, m) IN [c EXCEPT !.A = base, !.lu = t, !.ill = t.ph # "set"]
                               ELSE IF ~upd \/ d.ill THEN c
                               ELSE IF HartSmall(h) THEN LET A == MMul(h.L, h.U) IN [c EXCEPT !.A = A, !.ill = ~WellPosed(A)]
                               ELSE [c EXCEPT !.ill = TRUE]
Reliable(d) == IF d.kind = "hart" THEN ~d.ill ELSE WellPosed(d.A)
=============================================================================
