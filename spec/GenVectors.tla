------------------------------ MODULE GenVectors ------------------------------
(* Histories of operations on vectors and views that fit, for drivers/vec.cpp gen. *)
EXTENDS Vectors, TLC, FiniteSets, Json
CONSTANT MaxOps
VARIABLES env, ops, told
vars == <<env, ops, told>>
K == 1..3
Init == env = [k \in 1..4 |-> <<>>] /\ ops = <<>> /\ told = FALSE
Pick(S) == CHOOSE q \in S : TRUE
Vals == {"0", "1", "-2", "3/2"}
Mid(n) == [o |-> "b", from |-> n \div 3, size |-> n - n \div 2]
ViewsOf(k) == LET n == Len(env[k]) IN
    { <<>>, <<[o |-> "b", from |-> 0, size |-> n]>>, <<Mid(n)>>, <<Mid(n), Mid(n - n \div 2)>> }
Sources(k) == ViewsOf(k) \cup { q \o <<[o |-> "s", c |-> "-1/2"]>> : q \in {<<>>, <<Mid(Len(env[k]))>>} }
Do(e) == /\ ops' = Append(ops, e) /\ env' = [k \in 1..4 |-> VNum(Step(env, e)[k])] /\ UNCHANGED told
Len2(x) == Len(Read(env, x))
New == \E k \in K, n \in 0..4 : Do([e |-> "new", k |-> k, size |-> n])
Grow == \E k \in K, n \in {0, 1, 3, 5} : Do([e |-> "resize", k |-> k, size |-> n])
Copy == \E k, j \in K : \E q \in Sources(j) : k # j /\ Do([e |-> "copy", k |-> k, s |-> [k |-> j, ops |-> q]])
Two(op) == \E k, j \in K : \E p \in ViewsOf(k), q \in Sources(j) :
    LET d == [k |-> k, ops |-> p]
        s == [k |-> j, ops |-> q]
    IN k # j /\ (Len2(d) = Len2(s) \/ (op = "assign" /\ p = <<>>)) /\ Do([e |-> op, d |-> d, s |-> s])
Set == \E k \in K : \E p \in ViewsOf(k), c \in Vals :
    LET d == [k |-> k, ops |-> p] IN Len2(d) > 0 /\ \E i \in {0, Len2(d) - 1} : Do([e |-> "set", d |-> d, i |-> i, c |-> c])
Mul == \E k \in K : \E p \in ViewsOf(k), c \in {"0", "-1/2", "2"} : Do([e |-> "mul", d |-> [k |-> k, ops |-> p], c |-> c])
Clear == \E k \in K : \E p \in ViewsOf(k) : Do([e |-> "clear", d |-> [k |-> k, ops |-> p]])
Swap == \E k, j \in K : k < j /\ Do([e |-> "swap", k |-> k, j |-> j])
Both(op) == \E k, j \in K : \E q, p \in Sources(k) \cap ViewsOf(k) :
    LET s == [k |-> k, ops |-> p]
        s2 == [k |-> j, ops |-> q]
    IN k # j /\ Len(env[k]) = Len(env[j]) /\ Len2(s) = Len2(s2) /\ Do([e |-> op, k |-> 4, s |-> s, s2 |-> s2])
Next == /\ Len(ops) < MaxOps /\ ~told
        /\ IF Len(ops) % 4 = 0 THEN New \/ Grow \/ Swap ELSE IF Len(ops) % 4 = 1 THEN Set \/ Mul ELSE IF Len(ops) % 4 = 2 THEN Two("assign") \/ Two("add") \/ Two("sub") \/ Copy \/ Clear ELSE Set \/ Both("plus") \/ Both("minus") \/ Grow
Tell == Len(ops) = MaxOps /\ ~told /\ told' = TRUE /\ UNCHANGED <<env, ops>> /\ PrintT("SCN " \o ToJson([ops |-> ops]))
Spec == Init /\ [][Next \/ Tell]_vars
=============================================================================
