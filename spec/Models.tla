------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* The built-in models. p: the values of the parameters by name, x: the    *)
(* state (positions, velocities, other variables), sticking: the phase of  *)
(* the bouncing ball.                                                      *)
(***************************************************************************)
EXTENDS Elementary
Models == {"oscillator", "coupled_nl_osc", "stiff_1d", "bouncing_ball", "sliding_point"}
Names(m) == CASE m = "oscillator" -> {"c", "f"}
              [] m = "coupled_nl_osc" -> {"n", "c0", "c2", "f"}
              [] m = "stiff_1d" -> {"a"}
              [] m = "bouncing_ball" -> {"gravity_acceleration", "recovery_factor", "stick_speed"}
              [] m = "sliding_point" -> {"friction", "mass", "f0", "v0", "F1", "F2", "omega"}
Frictions == {"atan", "tabular", "linear"}
Default(m) == CASE m = "oscillator" -> [c |-> 1000, f |-> 100]
                [] m = "coupled_nl_osc" -> [n |-> 10, c0 |-> 1000, c2 |-> 1000, f |-> 100]
                [] m = "stiff_1d" -> [a |-> 50]
                [] m = "bouncing_ball" -> [gravity_acceleration |-> "9.8", recovery_factor |-> "0.9", stick_speed |-> "1e-5"]
                [] m = "sliding_point" -> [friction |-> "atan", mass |-> 1, f0 |-> 1, v0 |-> 1, F1 |-> 10, F2 |-> 10, omega |-> 100]
\* numbers of second order variables, first order variables, zero functions
Second(m, p) == CASE m = "coupled_nl_osc" -> p.n [] m = "stiff_1d" -> 0 [] m = "sliding_point" -> 2 [] OTHER -> 1
First(m) == IF m = "stiff_1d" THEN 1 ELSE 0
Vars(m, p) == 2*Second(m, p) + First(m)
PlusMinus == 1
Flags(m) == IF m = "bouncing_ball" THEN <<PlusMinus>> ELSE <<>>

\* the chain: the k-th spring joins the oscillators k-1 and k (0: the wall)
Deformation(x, k) == IF k = 1 THEN x[1] ELSE RSub(x[k], x[k-1])
Spring(p, d) == RMul(d, RAdd(p.c0, RMul(p.c2, RMul(d, d))))
\* friction against the velocity <<v1, v2>>
FrictionSize(p, v) == CASE p.friction = "atan" -> RMul(RDiv(2, Pi), RMul(p.f0, Atan(RDiv(v, p.v0))))
                        [] p.friction = "tabular" -> IF RLt(v, p.v0) THEN RDiv(RMul(p.f0, v), p.v0) ELSE p.f0
                        [] p.friction = "linear" -> RDiv(RMul(p.f0, v), p.v0)
Speed(v1, v2) == RSqrt(RAdd(RMul(v1, v1), RMul(v2, v2)))
Friction(p, v1, v2) == LET v == TLCEval(Speed(v1, v2))
                           f == TLCEval(RDiv(FrictionSize(p, v), v))
                       IN IF RLe(v, 0) THEN <<0, 0>> ELSE <<RNeg(RMul(f, v1)), RNeg(RMul(f, v2))>>
Rhs(m, p, sticking, t, x) ==
    CASE m = "oscillator" -> <<x[2], RSub(p.f, RMul(p.c, x[1]))>>
      [] m = "coupled_nl_osc" -> LET n == p.n
                                     force(k) == RSub(IF k < n THEN Spring(p, Deformation(x, k+1)) ELSE p.f, Spring(p, Deformation(x, k)))
                                 IN [k \in 1..2*n |-> IF k <= n THEN x[n+k] ELSE force(k-n)]
      [] m = "stiff_1d" -> <<RMul(p.a, RSub(Cos(t), x[1]))>>
      [] m = "bouncing_ball" -> IF sticking THEN <<0, 0>> ELSE <<x[2], RNeg(p.gravity_acceleration)>>
      [] m = "sliding_point" -> LET R == TLCEval(Friction(p, x[3], x[4]))
                                IN <<x[3], x[4], RDiv(RAdd(p.F1, R[1]), p.mass), RDiv(RAdd(RMul(p.F2, Sin(RMul(p.omega, t))), R[2]), p.mass)>>
ZeroFunctions(m, x) == IF m = "bouncing_ball" THEN <<x[1]>> ELSE <<>>
\* at the plane: comes to rest, or goes up
Rests(p, x) == RLt(RAbs(x[2]), p.stick_speed) \/ ~RLt(x[2], 0)
AfterSwitch(p, x) == IF Rests(p, x) THEN <<0, 0>> ELSE <<x[1], RNeg(RMul(p.recovery_factor, x[2]))>>
=============================================================================
