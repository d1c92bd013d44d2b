----------------------------- MODULE Elementary -----------------------------
(* Elementary functions of rationals to more than 100 bits: the argument is  *)
(* reduced, the Taylor series summed, and the result extended back.          *)
EXTENDS Rat, Integers, Sequences, TLC
LOCAL Bits == 140
LOCAL T(a) == RTrim(a, Bits)
\* halvings that make |x| < 1/2
RECURSIVE Halvings(_, _)
Halvings(x, n) == IF RLt(RAbs(x), "1/2") THEN n ELSE Halvings(RDiv(x, 2), n+1)
\* <<cos x, sin x>> for |x| < 1/2, from the terms k, k+1, ...
RECURSIVE CSSeries(_, _, _, _, _)
CSSeries(x, k, term, c, s) ==
    IF k > 24 THEN <<c, s>>
    ELSE LET t1 == TLCEval(T(RDiv(RMul(term, x), k)))
             sg == IF (k \div 2) % 2 = 0 THEN t1 ELSE RNeg(t1)
         IN IF k % 2 = 0 THEN CSSeries(x, k+1, t1, TLCEval(RAdd(c, sg)), s) ELSE CSSeries(x, k+1, t1, c, TLCEval(RAdd(s, sg)))
RECURSIVE Doubled(_, _)
Doubled(cs, n) == IF n = 0 THEN cs
                  ELSE Doubled(TLCEval(<<T(RSub(RMul(2, RMul(cs[1], cs[1])), 1)), T(RMul(2, RMul(cs[1], cs[2])))>>), n-1)
CosSin(x) == LET n == Halvings(x, 0) IN Doubled(TLCEval(CSSeries(T(RDiv(x, RPow(2, n))), 1, 1, 1, 0)), n)
Cos(x) == CosSin(x)[1]
Sin(x) == CosSin(x)[2]
\* atan x = 2 atan(x/(1+sqrt(1+x^2)))
RECURSIVE ATSeries(_, _, _, _)
ATSeries(x2, k, pow, s) == IF k > 37 THEN s
                           ELSE ATSeries(x2, k+2, TLCEval(T(RNeg(RMul(pow, x2)))), TLCEval(RAdd(s, T(RDiv(pow, k)))))
RECURSIVE Atan_(_, _)
Atan_(x, n) == IF RLt(RAbs(x), "1/8") THEN RMul(RPow(2, n), ATSeries(RMul(x, x), 1, x, 0))
               ELSE Atan_(TLCEval(T(RDiv(x, RAdd(1, RSqrt(RAdd(1, RMul(x, x))))))), n+1)
Atan(x) == T(Atan_(x, 0))
Pi == RMul(4, Atan(1))
=============================================================================
