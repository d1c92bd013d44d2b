------------------------------ MODULE MCObservers ------------------------------
(***************************************************************************)
(* All histories of up to MaxOps operations on two signals of a kind and   *)
(* two holders: each call of a notification is one of a registration that  *)
(* was made and not ended, in order.                                       *)
(* The history of requests (ops) is replayed into the code.                *)
(***************************************************************************)
EXTENDS Observers, TLC, Json
CONSTANTS MaxOps, MaxId
VARIABLES st, ops, live       \* live: for each signal the tags (the time) of its own live observers
vars == <<st, ops, live>>
Sig == 1..2
Hld == 1..2
Init == st = NoSignals(2, 2) /\ ops = <<>> /\ live = [i \in Sig |-> {}]
Now == Len(ops) + 1
More == Len(ops) < MaxOps
\* any identifier not in use may be given; the least one stands for them all
NewId(i) == CHOOSE id \in 1..MaxId : Fresh(st, i, id) /\ \A j \in 1..(id-1) : ~Fresh(st, i, j)
\* a registration that a holder ends is ended by it only
Free(i, id) == \A h \in Hld : st.hold[h] # <<i, id>>
Op(op, a, b, r) == ops' = Append(ops, [op |-> op, a |-> a, b |-> b, r |-> r])
AddOp == \E i \in Sig, r \in BOOLEAN : /\ Op("add", i, 0, r) /\ st' = Add(st, i, NewId(i), "obs", Now, r)
                                       /\ live' = [live EXCEPT ![i] = @ \cup {Now}]
FwdOp == Op("fwd", 2, 1, FALSE) /\ st' = Add(st, 2, NewId(2), "fwd", 1, FALSE) /\ UNCHANGED live
RemoveOp == \E i \in Sig : \E k \in DOMAIN st.sig[i] :
    LET r == st.sig[i][k] IN
    /\ Free(i, r.id) /\ Op("remove", i, k, FALSE) /\ st' = Unregister(st, i, r.id)
    /\ live' = IF r.kind = "obs" THEN [live EXCEPT ![i] = @ \ {r.a}] ELSE live
ClearOp == \E i \in Sig : /\ \A h \in Hld : IF st.hold[h] = <<>> THEN TRUE ELSE st.hold[h][1] # i
                          /\ st.sig[i] # <<>> /\ Op("clear", i, 0, FALSE) /\ st' = Clear(st, i) /\ live' = [live EXCEPT ![i] = {}]
HoldOp == \E h \in Hld, i \in Sig : st.hold[h] = <<>> /\ Op("hold", h, i, FALSE) /\ st' = Hold(st, h, i, NewId(i), Now, FALSE)
                                    /\ live' = [live EXCEPT ![i] = @ \cup {Now}]
EndOp == \E h \in Hld, how \in {"finish", "drop"} :
    /\ st.hold[h] # <<>> /\ Op(how, h, 0, FALSE) /\ st' = Finish(st, h)
    /\ LET q == st.hold[h]
           tag == (CHOOSE r \in {st.sig[q[1]][k] : k \in DOMAIN st.sig[q[1]]} : r.id = q[2]).a
       IN live' = [live EXCEPT ![q[1]] = @ \ {tag}]
MoveOp == \E h, g \in Hld : h # g /\ st.hold[h] # <<>> /\ st.hold[g] = <<>> /\ Op("move", h, g, FALSE) /\ st' = Move(st, h, g) /\ UNCHANGED live
Next == More /\ (AddOp \/ FwdOp \/ RemoveOp \/ ClearOp \/ HoldOp \/ EndOp \/ MoveOp)
Spec == Init /\ [][Next]_vars
View == <<st, live, Len(ops)>>
DistinctIds == Distinct(st)
Own(i) == SelectSeq(st.sig[i], LAMBDA r : r.kind = "obs")
\* the observers called are those that live, oldest first
ExactlyTheLive == \A i \in Sig :
    /\ {Own(i)[k].a : k \in DOMAIN Own(i)} = live[i]
    /\ \A k \in 1..(Len(Own(i)) - 1) : Own(i)[k].a < Own(i)[k + 1].a
Forwarded == LET n == Cardinality({k \in DOMAIN st.sig[2] : st.sig[2][k].kind = "fwd"}) IN
    Len(Calls(st, 2)) = Cardinality(live[2]) + n * Cardinality(live[1])
HeldIsLive == \A h \in Hld : st.hold[h] # <<>> => ~Fresh(st, st.hold[h][1], st.hold[h][2])
OneHolder == \A h, g \in Hld : h # g /\ st.hold[h] # <<>> => st.hold[h] # st.hold[g]
=============================================================================
