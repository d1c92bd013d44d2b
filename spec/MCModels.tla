------------------------------ MODULE MCModels ------------------------------
(* The ball falls, touches the plane, rebounds or comes to rest, may touch it *)
(* again while it goes up, may be restarted; velocities are whole. The other   *)
(* models have no phases: what their equations mean is checked on a lattice.   *)
EXTENDS Models, FiniteSets, Json
CONSTANTS Speeds, Stick, Recoveries, Depth, K, Show
VARIABLES p, x, sticking, at, acts, dropped
vars == <<p, x, sticking, at, acts, dropped>>
G == 2
\* at: "air" falling or rising, "touch" at the plane and a switch is due
Init == /\ p \in [gravity_acceleration : {G}, recovery_factor : Recoveries, stick_speed : {Stick}]
        /\ x = <<"4", "0">> /\ sticking = FALSE /\ at = "air" /\ acts = <<>> /\ dropped = "0"
Did(a) == acts' = (IF Show THEN Append(acts, a) ELSE acts) /\ (Show /\ Len(acts') = Depth => PrintT("SCN " \o ToJson([r |-> p.recovery_factor, acts |-> acts'])))
Short == ~Show \/ Len(acts) < Depth
\* the first fall reaches the plane with any speed, the following ones with the speed of the rebound
Fall == /\ Short /\ at = "air" /\ ~sticking
        /\ \E v \in IF RGt(x[1], 0) THEN Speeds ELSE {x[2]} : x' = <<"0", RStr(RNeg(v))>>
        /\ at' = "touch" /\ Did(IF RGt(x[1], 0) THEN <<"fall", RStr(RNeg(x'[2]))>> ELSE <<"land">>) /\ dropped' = RStr(RNeg(x'[2])) /\ UNCHANGED <<p, sticking>>
\* just after a rebound the ball is found below the plane again
Again == /\ Short /\ at = "air" /\ ~sticking /\ REq(x[1], 0) /\ at' = "touch" /\ Did(<<"again">>) /\ UNCHANGED <<p, x, sticking, dropped>>
Switch == /\ Short /\ at = "touch"
          /\ x' = VStr(AfterSwitch(p, x)) /\ sticking' = (sticking \/ Rests(p, x)) /\ at' = "air"
          /\ Did(<<"switch">>) /\ UNCHANGED <<p, dropped>>
Rest == Short /\ at = "air" /\ sticking /\ VEq(Rhs("bouncing_ball", p, sticking, 0, x), <<0, 0>>) /\ Did(<<"rest">>) /\ UNCHANGED <<p, x, sticking, at, dropped>>
Next == Fall \/ Again \/ Switch \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Fall) /\ WF_vars(Switch)
TypeOK == at \in {"air", "touch"} /\ Len(x) = 2
\* at rest means at rest
AtRest == sticking => VEq(x, <<0, 0>>) /\ VEq(Rhs("bouncing_ball", p, sticking, 0, x), <<0, 0>>)
\* a rebound goes up, and is not faster than the fall
Rebound == [][at = "touch" => RGe(x'[2], 0) /\ (RLe(p.recovery_factor, 1) => RLe(x'[2], RAbs(x[2]))) /\ RLe(x'[1], 0)]_vars
Stays == [][sticking => sticking']_vars
ComesToRest == <>(sticking)
\* meaning of the equations
L == (0-K)..K
Chain == [n |-> 3, c0 |-> 2, c2 |-> 3, f |-> 5]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
ASSUME \A a, b, c \in L : LET d == Rhs("coupled_nl_osc", Chain, FALSE, 0, <<a, b, c, 1, 2, 3>>)
                          \* the springs act on both their ends: only the wall and the force f act on the whole
                          IN /\ Sum([k \in 1..3 |-> RNum(d[k+3])]) = RNum(RSub(Chain.f, Spring(Chain, a)))
                             /\ VEq(SubSeq(d, 1, 3), <<1, 2, 3>>)
                             \* power of the forces = - change of the potential energy (difference of the energies of the springs)
                             /\ RNum(RAdd(RAdd(d[4], RMul(2, d[5])), RMul(3, d[6])))
                                = RNum(RSub(RMul(3, Chain.f), RAdd(RAdd(RMul(Spring(Chain, a), 1), RMul(Spring(Chain, b-a), 1)), RMul(Spring(Chain, c-b), 1))))
\* one oscillator with a linear spring is the oscillator
ASSUME \A a, b \in L : VEq(Rhs("coupled_nl_osc", [n |-> 1, c0 |-> 7, c2 |-> 0, f |-> 4], FALSE, 0, <<a, b>>), Rhs("oscillator", [c |-> 7, f |-> 4], FALSE, 0, <<a, b>>))
Slide(fr) == [friction |-> fr, mass |-> 2, f0 |-> 3, v0 |-> 2, F1 |-> 0, F2 |-> 0, omega |-> 1]
ASSUME \A fr \in Frictions, v, w \in L :
    LET d == TLCEval(Rhs("sliding_point", Slide(fr), FALSE, 1, <<1, 1, v, w>>))
        e == TLCEval(Rhs("sliding_point", Slide(fr), FALSE, 1, <<5, 6, -v, -w>>))
    IN /\ VEq(<<d[3], d[4]>>, <<RNeg(e[3]), RNeg(e[4])>>)                               \* it depends on the velocity alone, and is odd
       /\ RLe(RAdd(RMul(d[3], v), RMul(d[4], w)), 0)                                    \* it takes energy
       /\ REq(RMul(d[3], w), RMul(d[4], v)) \/ RClose(RMul(d[3], w), RMul(d[4], v), "1p-80", 0)
       /\ (fr # "linear" => RLe(RMul(2, Speed(d[3], d[4])), RAdd(3, "1p-80")))         \* it saturates
       /\ (v = 0 /\ w = 0 => VEq(d, <<0, 0, 0, 0>>))
ASSUME \A a \in L : LET cs == TLCEval(CosSin(a)) IN RClose(RAdd(RMul(cs[1], cs[1]), RMul(cs[2], cs[2])), 1, "1p-90", 0)
ASSUME \A a \in L : LET cs == TLCEval(CosSin(Atan(a))) IN RClose(cs[2], RMul(a, cs[1]), "1p-90", 0)
ASSUME RGt(Pi, "3.14159265358979") /\ RLt(Pi, "3.14159265358980") /\ RClose(Cos(Pi), -1, "1p-90", 0)
=============================================================================
