------------------------------- MODULE Mappings -------------------------------
(***************************************************************************)
(* Composed vector mappings.  A mapping is a base and a sequence of layers *)
(* around it (the last is the outermost).  Bases:                          *)
(*   poly   polynomials p of cols inputs, with labels ins, outs            *)
(*   rhs    the right-hand side f of an ODE at time t (labels ins)         *)
(*   euler  the equation of a step of the alpha-method for it              *)
(*   diag   a diagonal d; inv times inverted                               *)
(* Layers: "norm" (diagonal d on both sides), "narrow" (disabled inputs    *)
(* din with values st, disabled outputs dout) and "reorder" (iord, oord).  *)
(* Indices in the configuration count from 0.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Rat
Bits == 400
\* the indices of 0..n-1 not in S, in order
KeptOf(n, S) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i \notin S)
Reduce(v, S) == LET k == KeptOf(Len(v), S) IN [i \in DOMAIN k |-> v[k[i] + 1]]
\* the vector of n elements with v at the places not in S and those of st elsewhere
Widen(v, n, S, st) == LET k == KeptOf(n, S) IN [i \in 1..n |-> IF i - 1 \in S THEN st[i] ELSE v[CHOOSE j \in DOMAIN k : k[j] = i - 1]]
Order(v, o) == [i \in DOMAIN o |-> v[o[i] + 1]]
Unorder(v, o) == [i \in DOMAIN o |-> v[CHOOSE j \in DOMAIN o : o[j] = i - 1]]
Mul(d, v) == [i \in DOMAIN v |-> RMul(d[i], v[i])]
Div(v, d) == [i \in DOMAIN v |-> RDiv(v[i], d[i])]
SetOf(q) == Range(q)
SortedIndices(S, n) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i \in S)

\* Bases
NN(b) == 2 * b.nd + b.n1
BaseIn(b) == CASE b.k = "poly" -> b.cols [] b.k = "rhs" -> NN(b) [] b.k = "euler" -> b.nd + b.n1 [] b.k = "diag" -> Len(b.d)
BaseOut(b) == IF b.k = "poly" THEN Len(b.p) ELSE BaseIn(b)
BaseInIds(b) == CASE b.k \in {"poly", "rhs"} -> b.ins [] b.k = "euler" -> SubSeq(b.ins, b.nd + 1, NN(b)) [] b.k = "diag" -> [i \in DOMAIN b.d |-> 0]
BaseOutIds(b) == IF b.k = "poly" THEN b.outs ELSE BaseInIds(b)
\* the whole state of the ODE at the end of the step with unknowns x
Expand(b, x) ==
    LET u == [i \in 1..b.nd |-> RAdd(b.x0[i], RMul(b.h, RAdd(RMul(RSub(1, b.alpha), b.x0[b.nd + i]), RMul(b.alpha, x[i]))))]
    IN u \o x
EulerResidual(b, x) ==
    LET f0 == TLCEval(PolyMap(b.f, b.t, b.x0, Bits))
        f1 == TLCEval(PolyMap(b.f, RAdd(b.t, b.h), Expand(b, x), Bits))
    IN [i \in DOMAIN x |-> RSub(RSub(x[i], b.x0[b.nd + i]), RMul(b.h, RAdd(RMul(RSub(1, b.alpha), f0[b.nd + i]), RMul(b.alpha, f1[b.nd + i]))))]
BaseAt(b, x) == CASE b.k = "poly" -> PolyMap(b.p, 0, x, Bits)
                  [] b.k = "rhs" -> PolyMap(b.f, b.t, x, Bits)
                  [] b.k = "euler" -> EulerResidual(b, x)
                  [] b.k = "diag" -> IF b.inv % 2 = 0 THEN Mul(b.d, x) ELSE Div(x, b.d)
\* Layers around a mapping with ni inputs and no outputs
LayerIn(y, ni) == IF y.k = "narrow" THEN ni - Cardinality(SetOf(y.din)) ELSE ni
LayerOut(y, no) == IF y.k = "narrow" THEN no - Cardinality(SetOf(y.dout)) ELSE no
\* the argument handed to the inner mapping, and what is made of its value
Inward(y, ni, x) == CASE y.k = "norm" -> Mul(y.d, x) [] y.k = "narrow" -> Widen(x, ni, SetOf(y.din), y.st) [] y.k = "reorder" -> Unorder(x, y.iord)
Outward(y, v) == CASE y.k = "norm" -> Mul(y.d, v) [] y.k = "narrow" -> Reduce(v, SetOf(y.dout)) [] y.k = "reorder" -> Order(v, y.oord)
InLabels(y, v) == CASE y.k = "norm" -> v [] y.k = "narrow" -> Reduce(v, SetOf(y.din)) [] y.k = "reorder" -> Order(v, y.iord)
OutLabels(y, v) == CASE y.k = "norm" -> v [] y.k = "narrow" -> Reduce(v, SetOf(y.dout)) [] y.k = "reorder" -> Order(v, y.oord)
\* Stacks: the sizes of the mapping made of the first k layers
InSize(b, ys, k) == FoldLeft(LAMBDA n, y : LayerIn(y, n), BaseIn(b), SubSeq(ys, 1, k))
OutSize(b, ys, k) == FoldLeft(LAMBDA n, y : LayerOut(y, n), BaseOut(b), SubSeq(ys, 1, k))
InIds(b, ys) == FoldLeft(LAMBDA v, y : InLabels(y, v), BaseInIds(b), ys)
OutIds(b, ys) == FoldLeft(LAMBDA v, y : OutLabels(y, v), BaseOutIds(b), ys)
Argument(b, ys, x) == FoldLeft(LAMBDA v, i : TLCEval(Inward(ys[i], InSize(b, ys, i - 1), v)), x, [j \in 1..Len(ys) |-> Len(ys) + 1 - j])
Value(b, ys, x) == FoldLeft(LAMBDA v, y : TLCEval(Outward(y, v)), TLCEval(BaseAt(b, Argument(b, ys, x))), ys)
Usable(b, ys) == \A i \in DOMAIN ys : /\ (ys[i].k = "norm" => Len(ys[i].d) = InSize(b, ys, i - 1) /\ Len(ys[i].d) = OutSize(b, ys, i - 1))
                                      /\ (ys[i].k = "reorder" => Len(ys[i].iord) = InSize(b, ys, i - 1) /\ Len(ys[i].oord) = OutSize(b, ys, i - 1))
=============================================================================
