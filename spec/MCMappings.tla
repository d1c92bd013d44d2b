------------------------------ MODULE MCMappings ------------------------------
(***************************************************************************)
(* All stacks of at most two layers around a small base, with all          *)
(* narrowings, orderings and some scalings.                                *)
(***************************************************************************)
EXTENDS Mappings, Json
CONSTANTS Size, Depth, Kinds, Fewer, Show
VARIABLES b, ys
vars == <<b, ys>>
Lin(i) == [k \in 1..(Size + 1) |-> [c |-> 10 * i + k, p |-> [j \in 1..(Size + 1) |-> IF k > 1 /\ j = k THEN 1 ELSE 0]]]
Base == [k |-> "poly", p |-> [i \in 1..Size |-> Lin(i)], cols |-> Size, ins |-> [i \in 1..Size |-> 100 + i], outs |-> [i \in 1..Size |-> 200 + i]]
DiagBase(n) == [k |-> "diag", d |-> [i \in 1..Size |-> IF i % 2 = 0 THEN "-1/4" ELSE 2 * i], inv |-> n]
Perms(n) == {q \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : i # j => q[i] # q[j]}
Inner == InSize(b, ys, Len(ys))
Outer == OutSize(b, ys, Len(ys))
X(n) == [i \in 1..n |-> 7 * i - 9]
Layers == (IF "narrow" \in Kinds THEN {[k |-> "narrow", din |-> SortedIndices(S, Inner), dout |-> SortedIndices(T, Outer), st |-> [i \in 1..Inner |-> 50 + i]]
                                        : S \in SUBSET (0..(Inner - 1)), T \in IF Fewer THEN {{}, {0}, 0..(Outer - 1)} ELSE SUBSET (0..(Outer - 1))} ELSE {})
          \cup (IF "reorder" \in Kinds THEN {[k |-> "reorder", iord |-> p, oord |-> q] : p \in Perms(Inner), q \in IF Fewer THEN {[i \in 1..Outer |-> Outer - i]} ELSE Perms(Outer)} ELSE {})
          \cup (IF "norm" \in Kinds /\ Inner = Outer THEN {[k |-> "norm", d |-> [i \in 1..Inner |-> IF i % 2 = 0 THEN "1/2" ELSE -3]]} ELSE {})
Init == b \in {Base, DiagBase(0), DiagBase(1), DiagBase(2)} /\ ys = <<>>
Next == Len(ys) < Depth /\ b' = b /\ \E y \in Layers : ys' = Append(ys, y)
        /\ (Show => PrintT("SCN " \o ToJson([b |-> b, ys |-> ys'])))
Spec == Init /\ [][Next]_vars
x == X(Inner)
v == Value(b, ys, x)
a == Argument(b, ys, x)
\* sizes and labels agree with what is mapped
Sizes == /\ Len(a) = BaseIn(b) /\ Len(v) = Outer /\ Len(InIds(b, ys)) = Inner /\ Len(OutIds(b, ys)) = Outer /\ Usable(b, ys)
NoNorm == \A i \in DOMAIN ys : ys[i].k # "norm"
\* every input reaches the base at the place with its label
Labels == b.k = "poly" /\ NoNorm => \A i \in 1..Inner : \E j \in 1..Size : InIds(b, ys)[i] = b.ins[j] /\ REq(a[j], x[i])
OutLabelled == b.k = "poly" /\ NoNorm => LET w == BaseAt(b, a) IN \A i \in 1..Outer : \E j \in 1..Size : OutIds(b, ys)[i] = b.outs[j] /\ REq(v[i], w[j])
\* inverting twice is nothing, and an inverse undoes the mapping
Undone == b.k = "diag" /\ ys = <<>> => VEq(BaseAt([b EXCEPT !.inv = @ + 1], v), x) /\ VEq(BaseAt([b EXCEPT !.inv = @ + 2], x), v)
\* narrowing undoes widening, ordering undoes unordering
RoundTrips == \A i \in DOMAIN ys : LET y == ys[i] n == InSize(b, ys, i - 1) IN
    /\ (y.k = "narrow" => VEq(Reduce(Widen(X(LayerIn(y, n)), n, SetOf(y.din), y.st), SetOf(y.din)), X(LayerIn(y, n))))
    /\ (y.k = "reorder" => VEq(Order(Unorder(X(n), y.iord), y.iord), X(n)) /\ VEq(Unorder(Order(X(n), y.iord), y.iord), X(n)))
=============================================================================
