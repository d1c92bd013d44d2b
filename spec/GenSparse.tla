------------------------------ MODULE GenSparse ------------------------------
(* Histories of operations on sparse matrices and views that fit, for drivers/sparse.cpp gen. *)
EXTENDS SparseMatrices, TLC, Json
CONSTANT MaxOps
VARIABLES env, ops, told
vars == <<env, ops, told>>
\* (depends on the state, or TLC would choose once and for all)
K == {RandomElement({k \in 1..3 : Len(ops) >= 0})}
All == {RandomElement({k \in 1..5 : Len(ops) >= 0})}
Init == env = [k \in 1..5 |-> Empty(k > 3, 0, 0)] /\ ops = <<>> /\ told = FALSE
\* only numbers in the state, in one form
Num(m) == [m EXCEPT !.v = [i \in 1..m.r |-> VNum(m.v[i])]]
Do(e) == /\ ops' = Append(ops, e) /\ env' = [k \in 1..5 |-> Num(Step(env, e)[k])] /\ UNCHANGED told
Half(r, c) == [o |-> "b", fr |-> r \div 3, fc |-> c \div 3, nr |-> r - r \div 2, nc |-> c - c \div 2]
T == [o |-> "t"]
S == [o |-> "s", c |-> "-1/2"]
R(k) == env[k].r
C(k) == env[k].c
H(k) == Half(R(k), C(k))
HH(k) == Half(H(k).nr, H(k).nc)
Ops(k) == {<<>>, <<T>>, <<H(k)>>, <<H(k), T>>, <<T, Half(C(k), R(k))>>, <<H(k), HH(k)>>}
Sources(k) == IF k > 3 THEN {<<>>, <<T>>, <<H(k)>>, <<S>>, <<H(k), S>>} ELSE Ops(k) \cup {<<S>>, <<S, T>>, <<S, H(k)>>, <<H(k), S>>}
Lefts(k) == {<<>>, <<H(k)>>, <<S>>, <<H(k), S>>, <<S, H(k)>>}
X(k, q) == [k |-> k, ops |-> q]
M(x) == Read(env, x)
Alike(a, b) == a.r = b.r /\ a.c = b.c
New == \E k \in K, r, c \in 1..4 : Do([e |-> "new", k |-> k, r |-> r, c |-> c])
Id == \E k \in K, n \in {2, 3} : Do([e |-> "identity", k |-> k, n |-> n, a |-> "2"])
ResizeIt == \E k \in K, r, c \in {1, 3} : Do([e |-> "resize", k |-> k, r |-> r, c |-> c])
Set == \E k \in K : \E q \in Ops(k), a \in {"0", "1", "-3/2"} :
    LET m == M(X(k, q)) IN m.r > 0 /\ m.c > 0 /\ \E i \in {0, m.r - 1}, j \in {0, m.c - 1} :
        Do([e |-> "set", d |-> X(k, q), i |-> i, j |-> j, a |-> a, thrown |-> FALSE])
SetFast == \E k \in {4, 5} : \E q \in Ops(k) :
    LET m == M(X(k, q)) IN m.r > 0 /\ m.c > 0 /\ \E i \in {0, m.r - 1}, j \in {0, m.c - 1} :
        Do([e |-> "set", d |-> X(k, q), i |-> i, j |-> j, a |-> "5", thrown |-> ~m.p[i+1][j+1]])
Copy == \E k \in All, j \in All : \E q \in Sources(j) : k # j /\ Do([e |-> "copy", k |-> k, s |-> X(j, q)])
AssignBlock == \E k \in K, j \in All : \E p \in {<<H(k)>>, <<H(k), HH(k)>>, <<T, Half(C(k), R(k))>>}, q \in Sources(j) :
    k # j /\ Alike(M(X(k, p)), M(X(j, q))) /\ Do([e |-> "assign", d |-> X(k, p), s |-> X(j, q)])
Two(op) == \E k \in All, j \in All : \E p \in Ops(k), q \in Sources(j) :
    LET d == M(X(k, p))
        s == M(X(j, q))
    IN k # j /\ Alike(d, s) /\ (k > 3 => Stores(d, s)) /\ Do([e |-> op, d |-> X(k, p), s |-> X(j, q)])
Mul == \E k \in All, i \in K, j \in All : \E p \in Lefts(i), q \in Sources(j) :
    M(X(i, p)).c = M(X(j, q)).r /\ Do([e |-> "times", k |-> k, s |-> X(i, p), s2 |-> X(j, q)])
MulBy == \E k \in K, j \in All : \E p \in {<<>>, <<H(k)>>} :
    LET d == M(X(k, p)) IN k # j /\ d.r = d.c /\ Alike(d, env[j]) /\ Do([e |-> "mul", d |-> X(k, p), s |-> X(j, <<>>)])
AddId == \E k \in K : \E p \in Ops(k) : M(X(k, p)).r = M(X(k, p)).c /\ Do([e |-> "addid", d |-> X(k, p), a |-> "-1"])
Drop == \E k \in K : \E p \in Ops(k) : LET m == M(X(k, p)) IN
    \/ m.r > 0 /\ m.c > 0 /\ Do([e |-> "remove", d |-> X(k, p), i |-> m.r - 1, j |-> 0])
    \/ p # <<>> /\ Do([e |-> "clear", d |-> X(k, p)])
Shape == ResizeIt \/ (\E k \in K : Do([e |-> "shrink", k |-> k])) \/ (\E k \in All : Do([e |-> "zero", k |-> k]))
Small == \A k \in 1..5 : RLe(VInfNorm(Flat(env[k])), 64)
\* always possible
Pass == \E k \in All : Do([e |-> "copy", k |-> k, s |-> X((k % 5) + 1, <<>>)])
Useful ==
    IF Len(ops) < 3 THEN New \/ Id
    ELSE IF Len(ops) % 5 \in {0, 1} THEN Set
    ELSE IF Len(ops) % 5 = 2 THEN Copy \/ AssignBlock \/ Drop \/ SetFast
    ELSE IF Len(ops) % 5 = 3 THEN Two("add") \/ Two("sub") \/ AddId \/ Set
    ELSE IF Small /\ Len(ops) % 3 # 0 THEN Mul \/ MulBy ELSE New \/ Shape
Next == /\ Len(ops) < MaxOps /\ ~told
        /\ Pass \/ Useful
Tell == Len(ops) = MaxOps /\ ~told /\ told' = TRUE /\ UNCHANGED <<env, ops>> /\ PrintT("SCN " \o ToJson([ops |-> ops]))
Spec == Init /\ [][Next \/ Tell]_vars
=============================================================================
