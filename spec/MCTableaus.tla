------------------------------ MODULE MCTableaus ------------------------------
(***************************************************************************)
(* The coefficient tables really have the orders they claim: a Runge-Kutta *)
(* method with weights b has order p iff for every rooted tree t with at   *)
(* most p vertices  sum_i b_i u_i(t) = 1/gamma(t),  where                  *)
(*   u_i(t) = product over the subtrees s at the root of                   *)
(*            sum_j a_ij u_j(s),   gamma(t) = |t| * product of gamma(s).   *)
(* The behaviour enumerates the rooted trees by number of vertices; a tree *)
(* is the non-decreasing sequence of the positions of its subtrees in the  *)
(* list of all trees.  Published decimal-free coefficients of the 7(8)     *)
(* pair are rational approximations, hence the tolerance.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Rat, Tableaus
CONSTANT MaxOrder
VARIABLES list,     \* all trees so far: [n |-> vertices, kids |-> positions, gamma, u |-> method -> vector]
          level,    \* trees with up to level vertices are in the list
          fails     \* method -> weight index -> set of vertex numbers with a violated condition
Methods == <<Euler, RK4, DOPRI45, DOPRI56, DOPRI78>>
Tol == "1e-14"
Stages(m) == Len(m.c)
\* (A v)_i with the strictly lower triangular A of method m
AVec(m, v) == [i \in 1..Stages(m) |-> IF i = 1 THEN 0 ELSE RTrim(VDot(m.a[i-1], SubSeq(v, 1, i-1)), 120)]
VMul(a, b) == [i \in DOMAIN a |-> RTrim(RMul(a[i], b[i]), 120)]
Ones(n) == [i \in 1..n |-> 1]
\* sequences of positions, none above last, in non-increasing order, with n vertices in total
RECURSIVE KidSeqs(_, _, _)
KidSeqs(ts, n, last) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION { {<<k>> \o r : r \in KidSeqs(ts, n - ts[k].n, k)} : k \in {k \in 1..last : ts[k].n <= n} }
Tree(ts, n, kids) ==
    [n |-> n, kids |-> kids,
     gamma |-> FoldLeft(LAMBDA g, k : g * ts[k].gamma, n, kids),
     u |-> TLCEval([m \in 1..Len(Methods) |->
              FoldLeft(LAMBDA v, k : TLCEval(VMul(v, ts[k].Au[m])), Ones(Stages(Methods[m])), kids)])]
WithA(t) == [n |-> t.n, kids |-> t.kids, gamma |-> t.gamma, u |-> t.u,
             Au |-> TLCEval([m \in 1..Len(Methods) |-> AVec(Methods[m], t.u[m])])]
Holds(m, w, t) == RClose(VDot(Methods[m].b[w], t.u[m]), RDiv(1, t.gamma), Tol, 0)
Init == list = <<>> /\ level = 0 /\ fails = [m \in 1..Len(Methods) |-> [w \in DOMAIN Methods[m].b |-> {}]]
Grow ==
    /\ level < MaxOrder
    /\ level' = level + 1
    /\ LET new == TLCEval([i \in DOMAIN SetToSeq(KidSeqs(list, level, Len(list))) |->
                      WithA(Tree(list, level + 1, SetToSeq(KidSeqs(list, level, Len(list)))[i]))])
       IN /\ list' = list \o new
          /\ fails' = [m \in 1..Len(Methods) |-> [w \in DOMAIN Methods[m].b |->
                fails[m][w] \cup (IF \E i \in DOMAIN new : ~Holds(m, w, new[i]) THEN {level + 1} ELSE {})]]
Spec == Init /\ [][Grow]_<<list, level, fails>>
\* the row sums are the nodes
ASSUME RowSums ==
    \A m \in 1..Len(Methods) : \A i \in 2..Stages(Methods[m]) :
               RClose(VSum(Methods[m].a[i-1]), Methods[m].c[i], Tol, 0)
\* numbers of rooted trees (a check of the enumeration itself)
TreeCount == Len(list) = <<0, 1, 2, 4, 8, 17, 37, 85, 200, 486>>[level + 1]
OrderReached == \A m \in 1..Len(Methods) : \A w \in DOMAIN Methods[m].b :
                   \A n \in fails[m][w] : n > Methods[m].order[w]
OrderExact == \A m \in 1..Len(Methods) : \A w \in DOMAIN Methods[m].b :
                   level > Methods[m].order[w] => Methods[m].order[w] + 1 \in fails[m][w]
=============================================================================
