----------------------------- MODULE EventControl -----------------------------
(***************************************************************************)
(* Event location and switching (LinearOdeEventController).                *)
(*                                                                         *)
(* A zero function has a direction: 1 plus-to-minus, 2 minus-to-plus,      *)
(* 3 both; adding 4 means that it is recomputed after a switch.  The       *)
(* controller remembers per function the value z at the start of the step  *)
(* and the side st on which the function was last known to be.  Signs are  *)
(* passed separately from values so that a caller that knows values only   *)
(* up to rounding can try each possible sign.                              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Rat

PlusMinus == 1
MinusPlus == 2
Both == 3
Dir(f) == f % 4
Recomputed(f) == f \div 4 = 1

\* The side remembered for a function whose value has sign s
Side(s, f) ==
    CASE Dir(f) = PlusMinus -> IF s > 0 THEN 1 ELSE 0
      [] Dir(f) = MinusPlus -> IF s < 0 THEN -1 ELSE 0
      [] OTHER -> s

\* Is there an enabled crossing in a step that starts on side st with a value of
\* sign s1 and ends with a value of sign s2?
Crosses(st, s1, s2, f) ==
    CASE Dir(f) = PlusMinus -> \/ (st = 1 \/ s1 > 0) /\ s2 <= 0
                               \/ st = 0 /\ s1 = 0 /\ s2 < 0
      [] Dir(f) = MinusPlus -> \/ (st = -1 \/ s1 < 0) /\ s2 >= 0
                               \/ st = 0 /\ s1 = 0 /\ s2 > 0
      [] OTHER -> \/ st * s2 < 0
                  \/ st # 0 /\ s2 = 0 /\ s1 # 0
                  \/ st = 0 /\ s2 # 0

\* The direction in which it crosses
Transition(st, s2, f) ==
    IF s2 # 0 THEN s2
    ELSE CASE Dir(f) = PlusMinus -> -1 [] Dir(f) = MinusPlus -> 1 [] OTHER -> 0 - st

\* Where in the step (0 start, 1 end) by linear interpolation
Where(z1, z2) ==
    IF REq(z1, z2) THEN 0 ELSE RMax(0, RMin(1, RDiv(z1, RSub(z1, z2))))

Mix(w, a, b) == RAdd(RMul(RSub(1, w), a), RMul(w, b))
VMix(w, a, b) == [i \in DOMAIN a |-> Mix(w, a[i], b[i])]

\* The set of functions (positions) that cross
Crossing(st, s1, s2, flags) == { i \in DOMAIN flags : Crosses(st[i], s1[i], s2[i], flags[i]) }

\* Values remembered after function e was located at w; zr are the values in the switched state
ValuesAfter(e, w, z1, z2, zr, flags) ==
    [i \in DOMAIN flags |-> IF Recomputed(flags[i]) THEN zr[i]
                            ELSE IF i = e THEN 0 ELSE RNum(Mix(w, z1[i], z2[i]))]
\* Sides remembered; sr are the signs of zr
SidesAfter(e, st, s2, sr, flags) ==
    [i \in DOMAIN flags |->
        IF Recomputed(flags[i]) THEN Side(sr[i], flags[i])
        ELSE IF i # e THEN st[i]
        ELSE IF Dir(flags[i]) = Both THEN Transition(st[i], s2[i], flags[i]) ELSE 0]
=============================================================================
