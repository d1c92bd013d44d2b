------------------------------- MODULE Observers -------------------------------
(***************************************************************************)
(* Signals with registered observers, and scoped registrations.            *)
(* st.sig[i] is the sequence of registrations of signal i, in registration *)
(* order: [id, kind, a, ret], kind "obs" (a is its tag, ret what it        *)
(* returns) or "fwd" (a is the signal all of whose observers it calls).    *)
(* st.hold[h] is <<>> or <<signal, id>>, the registration that the scoped  *)
(* holder h ends.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
NoSignals(n, m) == [sig |-> [i \in 1..n |-> <<>>], hold |-> [h \in 1..m |-> <<>>]]
Ids(st, i) == [k \in DOMAIN st.sig[i] |-> st.sig[i][k].id]
Fresh(st, i, id) == ~\E k \in DOMAIN st.sig[i] : st.sig[i][k].id = id
Add(st, i, id, kind, a, ret) == [st EXCEPT !.sig[i] = Append(@, [id |-> id, kind |-> kind, a |-> a, ret |-> ret])]
Without(q, id) == SelectSeq(q, LAMBDA r : r.id # id)
Unregister(st, i, id) == [st EXCEPT !.sig[i] = Without(@, id)]
Clear(st, i) == [st EXCEPT !.sig[i] = <<>>]
Hold(st, h, i, id, a, ret) == [Add(st, i, id, "obs", a, ret) EXCEPT !.hold[h] = <<i, id>>]
Finish(st, h) == IF st.hold[h] = <<>> THEN st
                 ELSE [Unregister(st, st.hold[h][1], st.hold[h][2]) EXCEPT !.hold[h] = <<>>]
Move(st, h, g) == [st EXCEPT !.hold[g] = st.hold[h], !.hold[h] = <<>>]
\* The tags of the observers that a notification of signal i calls, and what it returns
RECURSIVE Calls(_, _)
Calls(st, i) == FlattenSeq([k \in DOMAIN st.sig[i] |-> LET r == st.sig[i][k] IN IF r.kind = "obs" THEN <<r.a>> ELSE Calls(st, r.a)])
RECURSIVE Result(_, _)
Result(st, i) == \E k \in DOMAIN st.sig[i] : LET r == st.sig[i][k] IN IF r.kind = "obs" THEN r.ret ELSE Result(st, r.a)
Distinct(st) == \A i \in DOMAIN st.sig : Cardinality({st.sig[i][k].id : k \in DOMAIN st.sig[i]}) = Len(st.sig[i])
=============================================================================
