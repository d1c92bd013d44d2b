---------------------------- MODULE MCRichardson ----------------------------
(* All short estimations with a solver that may reject, truncate, or change   *)
(* its step size, and that advances the state by 3*h (two half steps) or by   *)
(* another amount (a full step).                                              *)
EXTENDS Richardson, FiniteSets, TLC, Json
CONSTANTS Durations, MaxBad, Orders, Show
VARIABLES phase, T, p, r, atts, samples, marks
vars == <<phase, T, p, r, atts, samples, marks>>
h == 2
Init == phase = "stepping" /\ T \in Durations /\ p \in Orders /\ r = Beginning(0, <<0>>) /\ atts = <<>> /\ samples = <<>> /\ marks = <<>>
Bad == Cardinality({k \in DOMAIN atts : atts[k] # "ok"})
\* the state after an attempt
From == IF r.k = 1 THEN r.x2[1] ELSE r.x[1]
Goes(kind, full) == CASE kind = "rejected" -> From [] kind = "truncated" -> From + 1 [] OTHER -> From + (IF r.k = 2 THEN full ELSE 3)
Step == /\ phase = "stepping" /\ ~Complete(r)
        /\ \E kind \in {"ok", "rejected", "truncated", "changed"}, full \in {5, 8} :
              /\ (kind # "ok" => Bad < MaxBad)
              /\ (full = 8 => r.k = 2)
              /\ atts' = Append(atts, kind)
              /\ phase' = (IF kind = "changed" THEN "thrown" ELSE "stepping")
              \* x2 holds the state after the first half step until the full step is made
              /\ r' = LET y == Stepped(r, <<Goes(kind, full)>>, kind = "ok") IN IF r.k = 0 THEN [y EXCEPT !.x2 = <<Goes(kind, full)>>] ELSE y
        /\ UNCHANGED <<T, p, samples, marks>>
        /\ (Show /\ phase' = "thrown" => PrintT("SCN " \o ToJson([T |-> T, p |-> p, atts |-> atts'])))
Close == /\ phase = "stepping" /\ Complete(r)
         /\ LET e == VScale(RPow(2, p), VSub(r.x1, r.x2))       \* times 2^p-1 of the sample, an integer
                c == IF r.clean THEN [Counted(r, e) EXCEPT !.k = 3] ELSE r
            IN /\ samples' = (IF r.clean THEN Append(samples, e[1]) ELSE samples)
               /\ marks' = Append(marks, [t |-> r.t, x |-> r.x[1], x1 |-> r.x1[1], clean |-> r.clean])
               /\ r' = Following(c, h)
               /\ phase' = (IF RGe(r'.t, T) THEN "over" ELSE "stepping")
         /\ UNCHANGED <<T, p, atts>>
         /\ (Show /\ phase' = "over" => PrintT("SCN " \o ToJson([T |-> T, p |-> p, atts |-> atts])))
Next == Step \/ Close
Spec == Init /\ [][Next]_vars
\* the intervals follow one another and cover the duration
Covers == /\ \A k \in DOMAIN marks : marks[k].t = (k-1)*h
          /\ \A k \in 2..Len(marks) : marks[k].x = marks[k-1].x1
          /\ phase = "over" => Len(marks)*h >= T /\ (Len(marks) > 1 => (Len(marks)-1)*h < T)
          /\ phase = "over" => Len(atts) = 3*Len(marks)
Samples == /\ r.n = Len(samples) /\ r.n = Cardinality({k \in DOMAIN marks : marks[k].clean})
           /\ \A k \in DOMAIN samples : r.max[1] >= samples[k] /\ r.max[1] >= 0 - samples[k]
           /\ samples # <<>> => \E k \in DOMAIN samples : r.max[1] \in {samples[k], 0 - samples[k]}
           /\ r.sum[1] >= r.max[1]
\* a sample is made of three good steps from one state
Good == \A k \in DOMAIN marks : marks[k].clean <=> \A j \in 1..3 : atts[3*(k-1)+j] = "ok"
Half == \A k \in DOMAIN marks : marks[k].clean => marks[k].x1 = marks[k].x + 6
Stops == phase = "thrown" <=> \E k \in DOMAIN atts : atts[k] = "changed"
=============================================================================
