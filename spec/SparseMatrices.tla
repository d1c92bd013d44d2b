---------------------------- MODULE SparseMatrices ----------------------------
(***************************************************************************)
(* Sparse matrices and their views.  A matrix is [fast, r, c, v, p]: v the *)
(* r x c elements, p tells which of them are stored.  A fast matrix cannot *)
(* gain elements.  A view is [k, ops]: operations o = "b" (block fr, fc    *)
(* (from 0), nr, nc), "t" (transposed) and "s" (scaled by c) applied to    *)
(* matrix k.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Rat
Grid(r, c, F(_,_)) == [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]
Mat(fast, r, c, V(_,_), P(_,_)) == [fast |-> fast, r |-> r, c |-> c, v |-> Grid(r, c, V), p |-> Grid(r, c, P)]
Empty(fast, r, c) == Mat(fast, r, c, LAMBDA i, j : 0, LAMBDA i, j : FALSE)
Block(m, fr, fc, nr, nc) == Mat(m.fast, nr, nc, LAMBDA i, j : m.v[fr+i][fc+j], LAMBDA i, j : m.p[fr+i][fc+j])
Transposed(m) == Mat(m.fast, m.c, m.r, LAMBDA i, j : m.v[j][i], LAMBDA i, j : m.p[j][i])
Scaled(m, c) == Mat(m.fast, m.r, m.c, LAMBDA i, j : RMul(m.v[i][j], c), LAMBDA i, j : m.p[i][j])
Apply(m, o) == CASE o.o = "b" -> Block(m, o.fr, o.fc, o.nr, o.nc) [] o.o = "t" -> Transposed(m) [] o.o = "s" -> Scaled(m, o.c)
Read(env, x) == FoldLeft(Apply, env[x.k], x.ops)
Writable(x) == \A i \in DOMAIN x.ops : x.ops[i].o # "s"
\* Element (i, j) of a view is element At(ops, <<i, j>>) of the matrix
Back(o, ij) == IF o.o = "b" THEN <<ij[1] + o.fr, ij[2] + o.fc>> ELSE <<ij[2], ij[1]>>
At(ops, ij) == FoldRight(LAMBDA o, a : Back(o, a), ops, ij)
\* The view takes elements and pattern of w
Write(env, x, w) ==
    LET m == env[x.k]
        on == {<<i, j>> : i \in 1..w.r, j \in 1..w.c}
        img == [ij \in on |-> At(x.ops, ij)]
        of(i, j) == {ij \in on : img[ij] = <<i, j>>}
        Val(i, j) == IF of(i, j) = {} THEN m.v[i][j] ELSE LET ij == CHOOSE q \in of(i, j) : TRUE IN w.v[ij[1]][ij[2]]
        Pat(i, j) == IF of(i, j) = {} THEN m.p[i][j] ELSE LET ij == CHOOSE q \in of(i, j) : TRUE IN w.p[ij[1]][ij[2]]
    IN [env EXCEPT ![x.k] = Mat(m.fast, m.r, m.c, Val, Pat)]
As(fast, m) == [m EXCEPT !.fast = fast]
Assign(env, x, w) == IF x.ops = <<>> THEN [env EXCEPT ![x.k] = As(@.fast, w)] ELSE Write(env, x, w)
\* An element not stored counts as zero; adding stores the elements of w
Plus(m, w, f) == Mat(m.fast, m.r, m.c, LAMBDA i, j : IF w.p[i][j] THEN RAdd(m.v[i][j], RMul(f, w.v[i][j])) ELSE m.v[i][j], LAMBDA i, j : m.p[i][j] \/ w.p[i][j])
Stores(m, w) == \A i \in 1..m.r, j \in 1..m.c : w.p[i][j] => m.p[i][j]
Column(w, j) == [i \in 1..w.r |-> w.v[i][j]]
Times(m, w) ==
    LET q == Grid(m.r, w.c, LAMBDA i, j : VDot(m.v[i], Column(w, j)))
    IN Mat(FALSE, m.r, w.c, LAMBDA i, j : q[i][j], LAMBDA i, j : ~REq(q[i][j], 0))
TimesVector(m, x) == [i \in 1..m.r |-> VDot(m.v[i], x)]
VectorTimes(x, m) == [j \in 1..m.c |-> VDot(x, Column(m, j))]
ScaledIdentity(fast, n, a) == Mat(fast, n, n, LAMBDA i, j : IF i = j THEN a ELSE 0, LAMBDA i, j : i = j)
Resize(m, r, c) == Mat(m.fast, r, c, LAMBDA i, j : IF i <= m.r /\ j <= m.c THEN m.v[i][j] ELSE 0, LAMBDA i, j : IF i <= m.r /\ j <= m.c THEN m.p[i][j] ELSE FALSE)
Stored(m) == {<<i, j>> \in (1..m.r) \X (1..m.c) : m.p[i][j]}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE a \in S : \A b \in S : b <= a
DataRows(m) == MaxOf({ij[1] : ij \in Stored(m)})
DataColumns(m) == MaxOf({ij[2] : ij \in Stored(m)})
\* entries <<row, column, value>> (from 0), each place at most once
FromEntries(fast, q, r, c) ==
    LET here(i, j) == {n \in DOMAIN q : q[n][1] = i - 1 /\ q[n][2] = j - 1}
    IN Mat(fast, r, c, LAMBDA i, j : IF here(i, j) = {} THEN 0 ELSE q[CHOOSE n \in here(i, j) : TRUE][3], LAMBDA i, j : here(i, j) # {})
EntryRows(q) == MaxOf({q[n][1] + 1 : n \in DOMAIN q})
EntryColumns(q) == MaxOf({q[n][2] + 1 : n \in DOMAIN q})
Flat(m) == FoldLeft(LAMBDA a, b : a \o b, <<>>, m.v)
OneNorm(m) == VSum([i \in DOMAIN Flat(m) |-> RAbs(Flat(m)[i])])
Square(m) == VDot(Flat(m), Flat(m))

MEq(a, b) == /\ a.fast = b.fast /\ a.r = b.r /\ a.c = b.c /\ a.p = b.p
             /\ \A i \in 1..a.r : VEq(a.v[i], b.v[i])
\* the elements listed by an iteration over m
Lists(q, m) == /\ Len(q) = Cardinality(Stored(m))
               /\ {<<q[n][1] + 1, q[n][2] + 1>> : n \in DOMAIN q} = Stored(m)
               /\ \A n \in DOMAIN q : REq(q[n][3], m.v[q[n][1] + 1][q[n][2] + 1])
\* text printed for stored values: stored ones as numbers, others as 0
Text(t, m) == /\ Len(t) = m.r
              /\ \A i \in 1..m.r : Len(t[i]) = m.c /\ \A j \in 1..m.c : RClose(t[i][j], m.v[i][j], 0, "1e-5")

Step(env, e) ==
    CASE e.e = "new" -> [env EXCEPT ![e.k] = Empty(@.fast, e.r, e.c)]
      [] e.e = "data" -> [env EXCEPT ![e.k] = IF e.sized THEN FromEntries(@.fast, e.q, e.r, e.c) ELSE FromEntries(@.fast, e.q, EntryRows(e.q), EntryColumns(e.q))]
      [] e.e = "copy" -> [env EXCEPT ![e.k] = As(@.fast, Read(env, e.s))]
      [] e.e = "assign" -> Assign(env, e.d, Read(env, e.s))
      [] e.e = "add" -> Write(env, e.d, Plus(Read(env, e.d), Read(env, e.s), 1))
      [] e.e = "sub" -> Write(env, e.d, Plus(Read(env, e.d), Read(env, e.s), -1))
      [] e.e = "set" -> IF e.thrown THEN env
                        ELSE LET m == Read(env, e.d) IN Write(env, e.d, [m EXCEPT !.v[e.i+1][e.j+1] = e.a, !.p[e.i+1][e.j+1] = TRUE])
      [] e.e = "times" -> [env EXCEPT ![e.k] = As(@.fast, Times(Read(env, e.s), Read(env, e.s2)))]
      [] e.e = "mul" -> Assign(env, e.d, Times(Read(env, e.d), Read(env, e.s)))
      [] e.e = "identity" -> [env EXCEPT ![e.k] = ScaledIdentity(@.fast, e.n, e.a)]
      [] e.e = "addid" -> Write(env, e.d, Plus(Read(env, e.d), ScaledIdentity(FALSE, Read(env, e.d).r, e.a), 1))
      [] e.e = "zero" -> [env EXCEPT ![e.k].v = Empty(FALSE, env[e.k].r, env[e.k].c).v]
      [] e.e = "resize" -> [env EXCEPT ![e.k] = Resize(@, e.r, e.c)]
      [] e.e = "shrink" -> [env EXCEPT ![e.k] = Resize(@, DataRows(@), DataColumns(@))]
      [] e.e = "remove" -> LET m == Read(env, e.d) IN Write(env, e.d, [m EXCEPT !.v[e.i+1][e.j+1] = 0, !.p[e.i+1][e.j+1] = FALSE])
      [] e.e = "clear" -> LET m == Read(env, e.d) IN Write(env, e.d, Empty(m.fast, m.r, m.c))
      [] OTHER -> env
\* What an operation returns
Result(env, old, e) ==
    CASE e.e = "set" -> e.thrown = (old[e.d.k].fast /\ ~Read(old, e.d).p[e.i+1][e.j+1])
      [] e.e = "read" -> LET m == Read(env, e.s) IN
            /\ Lists(e.q, m) /\ e.n = Cardinality(Stored(m)) /\ e.empty = (Stored(m) = {})
            /\ e.m.r = m.r /\ e.m.c = m.c /\ e.m.p = m.p /\ \A i \in 1..m.r : VEq(e.m.v[i], m.v[i])
      [] e.e = "norms" -> LET m == Read(env, e.s) IN
            /\ REq(e.inf, VInfNorm(Flat(m))) /\ REq(e.one, OneNorm(m)) /\ REq(e.sq, Square(m)) /\ RClose(e.two, RSqrt(Square(m)), 0, "1e-15")
      [] e.e = "mv" -> VEq(e.y, TimesVector(Read(env, e.s), e.x))
      [] e.e = "vm" -> VEq(e.y, VectorTimes(e.x, Read(env, e.s)))
      [] e.e = "text" -> LET m == Read(env, e.s) IN
            /\ Text(e.t, m)
            /\ e.zeros = <<m.r, m.c>>
            /\ {<<e.q[n][1], e.q[n][2]>> : n \in DOMAIN e.q} = Stored(m) /\ Len(e.q) = Cardinality(Stored(m))
            /\ \A n \in DOMAIN e.q : RClose(e.q[n][3], m.v[e.q[n][1]][e.q[n][2]], 0, "1e-5")
      [] OTHER -> TRUE
=============================================================================
