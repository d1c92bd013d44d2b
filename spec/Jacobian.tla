------------------------------- MODULE Jacobian -------------------------------
(***************************************************************************)
(* Numerical Jacobians of polynomial mappings, dense and sparse, trimming, *)
(* and Jacobian providers.  Matrices are sequences of entries              *)
(* <<row, column, value>>, counted from 0.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Rat
Positions(m) == {<<m[k][1], m[k][2]>> : k \in DOMAIN m}
AsDense(m, rows, cols) == TLCEval([i \in 1..rows |-> [j \in 1..cols |->
    LET h == {k \in DOMAIN m : m[k][1] + 1 = i /\ m[k][2] + 1 = j} IN IF h = {} THEN 0 ELSE m[CHOOSE k \in h : TRUE][3]]])
\* the positions of the derivatives that are not identically zero
Structure(p, cols) == {a \in {<<i - 1, j - 1>> : i \in DOMAIN p, j \in 1..cols} :
                         \E k \in DOMAIN p[a[1] + 1] : LET t == p[a[1] + 1][k] IN t.p[a[2] + 2] > 0 /\ ~REq(t.c, 0)}
Moved(x, S, h) == [i \in DOMAIN x |-> IF i - 1 \in S THEN RAdd(x[i], h) ELSE x[i]]
MapAt(p, x) == PolyMap(p, 0, x, 400)
\* the forward differences of all inputs
ForwardDifferences(p, x, h) ==
    LET f0 == TLCEval(MapAt(p, x))
        col == TLCEval([j \in DOMAIN x |-> VScale(RDiv(1, h), VSub(MapAt(p, Moved(x, {j - 1}, h)), f0))])
    IN TLCEval([i \in DOMAIN p |-> [j \in DOMAIN x |-> RTrim(col[j][i], 300)]])
\* Inputs evaluated together: each is put into the first group with which it shares no output
RowsOf(pat, S) == {a[1] : a \in {b \in pat : b[2] \in S}}
Groups(pat, cols) ==
    FoldLeft(LAMBDA gs, c :
        LET fit == {g \in DOMAIN gs : RowsOf(pat, gs[g]) \cap RowsOf(pat, {c}) = {}}
        IN IF fit = {} THEN Append(gs, {c}) ELSE LET g == CHOOSE a \in fit : \A b \in fit : a <= b IN [gs EXCEPT ![g] = @ \cup {c}],
        <<>>, [c \in 1..cols |-> c - 1])
\* the matrix obtained by evaluating the groups
Grouped(p, x, h, pat, gs) ==
    LET f0 == TLCEval(MapAt(p, x))
        d == TLCEval([g \in DOMAIN gs |-> VScale(RDiv(1, h), VSub(MapAt(p, Moved(x, gs[g], h)), f0))])
        group(c) == CHOOSE g \in DOMAIN gs : c \in gs[g]
    IN TLCEval([i \in DOMAIN p |-> [j \in DOMAIN x |-> IF <<i - 1, j - 1>> \in pat THEN RTrim(d[group(j - 1)][i], 300) ELSE 0]])
\* is this a correct grouping, with no two groups that could be evaluated together?
GoodGroups(pat, cols, gs) ==
    /\ UNION Range(gs) = 0..(cols - 1)
    /\ \A g, h \in DOMAIN gs : g # h => gs[g] \cap gs[h] = {} /\ RowsOf(pat, gs[g]) \cap RowsOf(pat, gs[h]) # {}
    /\ \A g \in DOMAIN gs : \A a, b \in gs[g] : a # b => RowsOf(pat, {a}) \cap RowsOf(pat, {b}) = {}
\* Trimming
Dist(a) == IF a[1] > a[2] THEN a[1] - a[2] ELSE a[2] - a[1]
Biggest(m) == FoldLeft(LAMBDA v, a : RMax(v, RAbs(a[3])), 0, m)
Stays(kind, par, m, a) == CASE kind = "width" -> REq(par, 0) \/ RLt(Dist(a), par)
                            [] kind = "threshold" -> REq(par, 0) \/ a[1] = a[2] \/ RGe(RAbs(a[3]), RMul(par, Biggest(m)))
                            [] kind = "none" -> TRUE
Trimmed(kind, par, m) == LET b == Biggest(m) IN SelectSeq(m, LAMBDA a : Stays(kind, par, m, a))
\* Providers: kind, mapping, trimmer; the pattern a sparse provider has detected (<<>> or <<pattern>>)
NewProvider(kind) == [kind |-> kind, map |-> <<>>, trim |-> "none", par |-> "0", pat |-> <<>>]
SetTrimmer(v, kind, par) == [v EXCEPT !.trim = kind, !.par = par, !.pat = <<>>]
Forget(v) == [v EXCEPT !.pat = <<>>]
UsesPattern(v) == v.kind = "sparse" /\ v.trim = "none" /\ v.pat # <<>>
\* (a pattern without positions is detected again)
Detected(v, pat) == IF pat # {} /\ v.kind = "sparse" /\ v.trim = "none" /\ v.pat = <<>> THEN [v EXCEPT !.pat = <<pat>>] ELSE v
=============================================================================
