------------------------------ MODULE Factories ------------------------------
(***************************************************************************)
(* Factories and holders.  reg is a sequence of registrations              *)
(* [face, name, type, mixin] (mixin: the type knows its name); holders     *)
(* keep a value and a sequence of observers [id, kind, when, then], each   *)
(* of which sets the value to then when it is told of the value when.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
\* Factories
Named(reg, f, n) == {k \in DOMAIN reg : reg[k].face = f /\ reg[k].name = n}
Taken(reg, f, n) == Named(reg, f, n) # {}
Register(reg, r) == IF Taken(reg, r.face, r.name) THEN reg ELSE Append(reg, r)
TypeOf(reg, f, n) == reg[CHOOSE k \in Named(reg, f, n) : TRUE].type
NamesOf(reg, f) == {reg[k].name : k \in {h \in DOMAIN reg : reg[h].face = f}}
\* the names a type may report: those it was registered with; none if it does not know any
Labels(reg, f, t) == LET ks == {k \in DOMAIN reg : reg[k].face = f /\ reg[k].type = t /\ reg[k].mixin}
                     IN IF ks = {} THEN {""} ELSE {reg[k].name : k \in ks}
\* Holders: what happens when a value is set: [cur |-> the value afterwards, calls |-> <<observer, value told, value held>>];
\* an observer told late, after another one has set the value again, is told the value it missed, or (live) the one held now
RECURSIVE Setting(_, _, _)
Setting(obs, v, live) ==
    FoldLeft(LAMBDA a, o :
        LET told == IF live THEN a.cur ELSE v
            c == Append(a.calls, <<o.id, told, a.cur>>)
        IN IF o.when = told THEN LET r == Setting(obs, o.then, live) IN [cur |-> r.cur, calls |-> c \o r.calls] ELSE [cur |-> a.cur, calls |-> c],
        [cur |-> v, calls |-> <<>>], obs)
=============================================================================
