------------------------------ MODULE MCFactories ------------------------------
(* All short histories of two factories, and of a holder with observers that   *)
(* set it again.                                                               *)
EXTENDS Factories, Json
CONSTANTS Faces, Names, Types, MaxOps, Values, MaxObs, Show
VARIABLES mode, reg, made, ops, val, obs, calls, live
vars == <<mode, live, reg, made, ops, val, obs, calls>>
Init == mode \in {"factory", "holder"} /\ reg = <<>> /\ made = {} /\ ops = <<>> /\ val = 0 /\ obs = <<>> /\ calls = <<>> /\ live \in BOOLEAN /\ (mode = "factory" => ~live)
Reg == \E f \in Faces, n \in Names, t \in Types : reg' = Register(reg, [face |-> f, name |-> n, type |-> t, mixin |-> TRUE]) /\ made' = made
        /\ ops' = Append(ops, [op |-> "register", face |-> f, name |-> n, type |-> t])
New == \E f \in Faces, n \in Names : reg' = reg /\ ops' = Append(ops, [op |-> "create", face |-> f, name |-> n])
        /\ made' = IF Taken(reg, f, n) THEN made \cup {<<f, n, TypeOf(reg, f, n)>>} ELSE made
Set == \E v \in Values : LET r == Setting(obs, v, live) IN val' = r.cur /\ calls' = r.calls /\ obs' = obs /\ ops' = Append(ops, [op |-> "set", v |-> v])
Watch == Len(obs) < MaxObs /\ \E w \in Values \cup {-1}, t \in Values :
            /\ w < t /\ (w = -1 => t = 0)
            /\ obs' = Append(obs, [id |-> Len(ops), when |-> w, then |-> t]) /\ calls' = <<>> /\ val' = val
            /\ ops' = Append(ops, [op |-> "watch", when |-> w, then |-> t])
Unwatch == \E k \in DOMAIN obs : obs' = RemoveAt(obs, k) /\ calls' = <<>> /\ val' = val /\ ops' = Append(ops, [op |-> "unwatch", k |-> k])
Next == /\ Len(ops) < MaxOps /\ mode' = mode /\ live' = live
        /\ IF mode = "factory" THEN (Reg \/ New) /\ UNCHANGED <<val, obs, calls>> ELSE (Set \/ Watch \/ Unwatch) /\ UNCHANGED <<reg, made>>
        /\ (Show /\ ~live /\ Len(ops') = MaxOps => PrintT("SCN " \o ToJson([mode |-> mode, ops |-> ops'])))
Spec == Init /\ [][Next]_vars
\* a name means one type, for ever
OneType == \A a, b \in made : a[1] = b[1] /\ a[2] = b[2] => a[3] = b[3]
Unique == \A j, k \in DOMAIN reg : j # k => reg[j].face # reg[k].face \/ reg[j].name # reg[k].name
Separate == [][\A f \in Faces : NamesOf(reg', f) # NamesOf(reg, f) => \A g \in Faces \ {f} : NamesOf(reg', g) = NamesOf(reg, g)]_vars
Grows == [][\A f \in Faces : NamesOf(reg, f) \subseteq NamesOf(reg', f)]_vars
\* every observer is told once of every change, with the value in place; the last change wins
Changes == Cardinality({k \in DOMAIN calls : calls[k][1] = obs[1].id})
Told == calls # <<>> => /\ \A o \in Range(obs) : Cardinality({k \in DOMAIN calls : calls[k][1] = o.id}) = Changes
                        /\ \E k \in DOMAIN calls : calls[k][2] = val
                        /\ (live => \A k \in DOMAIN calls : calls[k][2] = calls[k][3])
                        /\ calls[Len(calls)][3] = val
                        /\ \A k \in DOMAIN calls : calls[k][3] >= calls[k][2]
=============================================================================
