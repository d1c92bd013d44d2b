------------------------------ MODULE OdeMethods ------------------------------
(***************************************************************************)
(* One step of each integration method for the system x' = f(t, x), f a    *)
(* sequence of polynomials in (t, x1, ..., xn).  Exact arithmetic, trimmed *)
(* to Bits significant bits after every stage.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Rat, Tableaus

Bits == 170
F(f, t, x) == PolyMap(f, t, x, Bits)
Tr(x) == VTrim(x, Bits)
At(t, h, c) == RTrim(RAdd(t, RMul(h, c)), Bits)

---------------------------------------------------------------------------
(* Explicit Runge-Kutta *)
RKStages(tab, f, t, x, h) ==
    FoldLeft(LAMBDA k, i : k \o <<F(f, At(t, h, tab.c[i]), Tr(VComb(x, VScale(h, IF i = 1 THEN <<>> ELSE tab.a[i-1]), k)))>>,
             <<>>, [i \in 1..Len(tab.c) |-> i])
RKSolution(tab, w, k, x, h) == Tr(VComb(x, VScale(h, tab.b[w]), k))

---------------------------------------------------------------------------
(* Gragg: modified midpoint with two interleaved sequences.  g.run: the    *)
(* second sequence g.v and the derivative g.f carry on from the last step. *)
GraggStart == [run |-> FALSE, v |-> <<>>, f |-> <<>>]
GraggStep(f, t, u, g, h) ==
    LET h2 == RDiv(h, 2)
        v0 == IF g.run THEN g.v ELSE u
        f0 == IF g.run THEN g.f ELSE F(f, t, u)
        v1 == Tr(VAxpy(h2, f0, v0))
        u1 == TLCEval(Tr(VAxpy(h, F(f, At(t, h2, 1), v1), u)))
        f2 == TLCEval(F(f, At(t, h, 1), u1))
    IN [u |-> u1, v |-> Tr(VAxpy(h2, f2, v1)), f |-> f2]
Average(u, v) == VScale("1/2", VAdd(u, v))

---------------------------------------------------------------------------
(* Extrapolation *)
SeqHarmonic(k) == k
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
SeqRomberg(k) == Pow2(k - 1)
SeqBulirsch(k) == IF k = 1 THEN 1 ELSE IF k % 2 = 0 THEN Pow2(k \div 2) ELSE 3 * Pow2((k - 3) \div 2)
SubSteps(name, k) == CASE name = "harmonic" -> SeqHarmonic(k) [] name = "romberg" -> SeqRomberg(k) [] name = "bulirsch" -> SeqBulirsch(k)

\* n substeps of the reference solver over the step
Reference(ref, f, t, x, h, n) ==
    LET hs == RDiv(h, n)
        steps == [i \in 1..n |-> i]
    IN CASE ref.kind = "gragg" ->
              LET r == FoldLeft(LAMBDA s, i :
                            LET q == GraggStep(f, At(t, hs, i - 1), s.u, s.g, hs)
                            IN [u |-> q.u, g |-> [run |-> TRUE, v |-> q.v, f |-> q.f]],
                            [u |-> x, g |-> GraggStart], steps)
              IN IF ref.smooth THEN Tr(Average(r.u, r.g.v)) ELSE r.u
         [] OTHER ->
              LET tab == Tableau(ref.kind)
              IN FoldLeft(LAMBDA y, i : LET s == At(t, hs, i - 1) IN RKSolution(tab, 1, RKStages(tab, f, s, y, hs), y, hs), x, steps)
ReferenceOrder(ref) == CASE ref.kind = "gragg" -> 2 [] OTHER -> Tableau(ref.kind).order[1]

\* Weights of the polynomial in h^q through the values for n[1..m] substeps, taken at 0:
\*   w_k = product over j # k of n_k^q / (n_k^q - n_j^q)
ExtrapolationWeights(n, q) ==
    [k \in DOMAIN n |->
        FoldLeft(LAMBDA w, j : IF j = k THEN w
                               ELSE RMul(w, RDiv(RPow(n[k], q), RSub(RPow(n[k], q), RPow(n[j], q)))),
                 1, [j \in DOMAIN n |-> j])]
Extrapolate(n, q, T) == VComb(VZero(Len(T[1])), ExtrapolationWeights(n, q), T)
\* [x, err]: the value from all stages, and its difference from the one without the first stage
ExtrapolationStep(p, f, t, x, h) ==
    LET m == p.maxStages
        q == IF p.symmetric THEN 2 ELSE 1
        n == [k \in 1..m |-> SubSteps(p.seq, k)]
        T == FoldLeft(LAMBDA s, k : s \o <<Reference(p.ref, f, t, x, h, n[k])>>, <<>>, [k \in 1..m |-> k])
        all == TLCEval(Extrapolate(n, q, T))
    IN [x |-> Tr(all),
        err |-> IF m = 1 THEN VZero(Len(x)) ELSE Tr(VSub(all, Extrapolate(Tail(n), q, Tail(T))))]

---------------------------------------------------------------------------
(* Rosenbrock W-methods: W = I - h*d*J with the Jacobian J kept since the  *)
(* last hard start, by forward differences of 1e-6 in every variable.      *)
Dx == "1e-6"
Unit(n, i) == [j \in 1..n |-> IF i = j THEN 1 ELSE 0]
FDJacobian(f, t, x) ==
    LET f0 == PolyMap(f, t, x, 300)
        cols == [i \in DOMAIN x |-> VTrim(VScale(RDiv(1, Dx), VSub(PolyMap(f, t, VAxpy(Dx, Unit(Len(x), i), x), 300), f0)), Bits)]
    IN TLCEval(MTrans(cols))
WMatrix(J, hd) == [i \in DOMAIN J |-> VSub(Unit(Len(J), i), VScale(hd, J[i]))]
Lin(W, b) == TLCEval(Tr(MSolve(W, b)))

W1Step(p, f, J, t, x, h) ==
    [x |-> Tr(VAxpy(h, Lin(WMatrix(J, RMul(h, p.d)), F(f, t, x)), x)), err |-> VZero(Len(x))]
SW24Step(p, f, J, t, x, h) ==
    LET hd == RMul(h, p.d)
        W == WMatrix(J, hd)
        k1 == Lin(W, F(f, t, x))
        k2 == Lin(W, VAxpy(RMul("-4/3", hd), MVec(J, k1), F(f, At(t, h, "2/3"), Tr(VAxpy(RMul(h, "2/3"), k1, x)))))
        x1 == TLCEval(Tr(VComb(x, <<RMul(h, "1/4"), RMul(h, "3/4")>>, <<k1, k2>>)))
        k3 == Lin(W, F(f, At(t, h, 1), x1))
        k4 == Lin(W, VAxpy(hd, MVec(J, VComb(VZero(Len(x)), <<"2/3", 6>>, <<k1, k2>>)),
                           F(f, At(t, h, "5/3"), Tr(VAxpy(RMul(h, "2/3"), k3, x1)))))
    IN [x |-> x1, err |-> Tr(VScale(RMul(h, "1/8"), VComb(k1, <<5, -5, -1>>, <<k3, k2, k4>>)))]

---------------------------------------------------------------------------
(* The alpha method (implicit Euler for alpha = 1).  n2 positions, then n2 *)
(* velocities, then first-order variables.  x2 is the state at the end of  *)
(* a step of size h from x: positions follow from the velocities, and the  *)
(* other variables satisfy the step equation up to the residual.           *)
AlphaPositions(n2, alpha, x, x2, h) ==
    [i \in 1..n2 |-> RAdd(x[i], RMul(h, RAdd(RMul(RSub(1, alpha), x[n2+i]), RMul(alpha, x2[n2+i]))))]
AlphaResidual(n2, alpha, f, t, x, x2, h) ==
    LET f0 == F(f, t, x)
        f1 == F(f, At(t, h, 1), x2)
    IN [i \in 1..(Len(x) - n2) |->
          LET j == n2 + i IN
          RSub(RSub(x2[j], x[j]), RMul(h, RAdd(RMul(RSub(1, alpha), f0[j]), RMul(alpha, f1[j]))))]
=============================================================================
