---------------------------- MODULE MCEventControl ----------------------------
(***************************************************************************)
(* Exhaustive check of the event controller design: zero functions whose   *)
(* values at step ends are arbitrary integers, any combination of flags, a *)
(* switch that may move the recomputed functions anywhere.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, EventControl
CONSTANTS NF,        \* number of zero functions
          Vals,      \* possible values at the end of a step
          MaxSteps
TinyVals == {"-1", "0", "1"}
SmallVals == {"-2", "-1", "0", "1"}
VARIABLES flags, clean, z, st, steps,
          last       \* what the last step did: [e |-> 0 or the function located, w, tr, z1, st1, z2]
vars == <<flags, clean, z, st, steps, last>>
Fns == 1..NF
Sg(v) == [i \in DOMAIN v |-> RSgn(v[i])]
None == [e |-> 0, w |-> "1", tr |-> 0, z1 |-> <<>>, st1 |-> <<>>, z2 |-> <<>>]
Init == /\ flags \in [Fns -> {1, 2, 3, 5, 6, 7}]
        /\ clean = TRUE /\ z = [i \in Fns |-> "0"] /\ st = [i \in Fns |-> 0]
        /\ steps = 0 /\ last = None
Reset == /\ ~clean /\ clean' = TRUE /\ last' = None /\ UNCHANGED <<flags, z, st, steps>>
Start == /\ clean /\ clean' = FALSE
         /\ \E v \in [Fns -> Vals] : z' = v /\ st' = [i \in Fns |-> Side(RSgn(v[i]), flags[i])]
         /\ last' = None /\ UNCHANGED <<flags, steps>>
Step == /\ ~clean /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \E z2 \in [Fns -> Vals] :
            LET s1 == Sg(z)
                s2 == Sg(z2)
                cr == Crossing(st, s1, s2, flags)
                at == [i \in Fns |-> Where(z[i], z2[i])]
            IN IF cr = {}
               THEN /\ z' = z2 /\ UNCHANGED st
                    /\ last' = [e |-> 0, w |-> "1", tr |-> 0, z1 |-> z, st1 |-> st, z2 |-> z2]
               ELSE \E e \in {i \in cr : \A j \in cr : RLe(at[i], at[j])} :
                    \E zr \in [Fns -> Vals] :
                      /\ z' = VStr(ValuesAfter(e, at[e], z, z2, zr, flags))
                      /\ st' = SidesAfter(e, st, s2, Sg(zr), flags)
                      /\ last' = [e |-> e, w |-> RStr(at[e]), tr |-> Transition(st[e], s2[e], flags[e]), z1 |-> z, st1 |-> st, z2 |-> z2]
        /\ UNCHANGED <<flags, clean>>
Next == Reset \/ Start \/ Step
Spec == Init /\ [][Next]_vars

Interpolated(i) == ~Recomputed(flags[i])
\* The remembered side never contradicts the value at the start of a step: a two-directional
\* function that is not at zero is on its remembered side.
SideMatches == ~clean => \A i \in Fns :
    /\ Dir(flags[i]) = Both /\ RSgn(z[i]) # 0 => st[i] = RSgn(z[i]) \/ st[i] = 0
    /\ Dir(flags[i]) = PlusMinus => (st[i] = 1 => RSgn(z[i]) >= 0 \/ last.e = 0)
    /\ Dir(flags[i]) = MinusPlus => (st[i] = -1 => RSgn(z[i]) <= 0 \/ last.e = 0)
\* Located between the ends of the step, in an enabled direction
LocatedInside == last.e # 0 => RLe(0, last.w) /\ RLe(last.w, 1)
EnabledDirection == last.e # 0 =>
    CASE Dir(flags[last.e]) = PlusMinus -> last.tr = -1
      [] Dir(flags[last.e]) = MinusPlus -> last.tr = 1
      [] OTHER -> last.tr \in {-1, 1}
\* No other enabled crossing of a strict kind lies before the located one
StrictlyCrosses(i) ==
    \/ Dir(flags[i]) # MinusPlus /\ RSgn(last.z1[i]) > 0 /\ RSgn(last.z2[i]) < 0
    \/ Dir(flags[i]) # PlusMinus /\ RSgn(last.z1[i]) < 0 /\ RSgn(last.z2[i]) > 0
Earliest == last.e # 0 => \A i \in Fns : StrictlyCrosses(i) => RLe(last.w, Where(last.z1[i], last.z2[i]))
NeverMissed == last.e = 0 /\ last.z2 # <<>> =>
    \A i \in Fns : StrictlyCrosses(i) => Dir(flags[i]) = Both /\ last.st1[i] = RSgn(last.z2[i])
\* Moving without changing side, or in a direction that is not enabled, never fires
OnlyCrossings == last.e # 0 => LET i == last.e IN
    /\ RSgn(last.z1[i]) = RSgn(last.z2[i]) => RSgn(last.z1[i]) # RSgn(last.st1[i])
    /\ Dir(flags[i]) = PlusMinus => RSgn(last.z1[i]) >= 0 /\ RSgn(last.z2[i]) <= 0
    /\ Dir(flags[i]) = MinusPlus => RSgn(last.z1[i]) <= 0 /\ RSgn(last.z2[i]) >= 0
\* A two-directional interpolated function just located does not fire again until it leaves the side it went to
NoDoubleReport == [][ (last.e # 0 /\ last'.e = last.e /\ last' # last /\ ~clean /\ ~clean' /\ Dir(flags[last.e]) = Both /\ Interpolated(last.e))
                      => last'.tr # last.tr ]_vars
=============================================================================
