-------------------------------- MODULE Vectors --------------------------------
(***************************************************************************)
(* Vectors and their views.  env[k] is the sequence of elements of vector  *)
(* k.  A view is [k, ops], ops a sequence of [o |-> "b", from, size]       *)
(* (block, from counts from 0) and [o |-> "s", c] (scaled by c) applied to *)
(* vector k.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Rat
Block(v, from, size) == SubSeq(v, from + 1, from + size)
Apply(v, op) == IF op.o = "b" THEN Block(v, op.from, op.size) ELSE VScale(op.c, v)
Read(env, x) == FoldLeft(Apply, env[x.k], x.ops)
\* A view through blocks only denotes elements of the vector, from this one on
Writable(x) == \A i \in DOMAIN x.ops : x.ops[i].o = "b"
Offset(x) == FoldLeft(LAMBDA a, op : a + op.from, 0, x.ops)
\* the elements of the view become those of w
Write(env, x, w) == [env EXCEPT ![x.k] = [i \in DOMAIN @ |-> IF i - Offset(x) \in DOMAIN w THEN w[i - Offset(x)] ELSE @[i]]]
\* the whole vector becomes w; a view keeps its size
Assign(env, x, w) == IF x.ops = <<>> THEN [env EXCEPT ![x.k] = w] ELSE Write(env, x, w)
Resize(v, n) == [i \in 1..n |-> IF i \in DOMAIN v THEN v[i] ELSE 0]
OneNorm(v) == VSum([i \in DOMAIN v |-> RAbs(v[i])])
Square(v) == VDot(v, v)
Map(op, v, w) == [i \in DOMAIN v |->
    CASE op = "sqr" -> RMul(v[i], v[i]) [] op = "fabs" -> RAbs(v[i]) [] op = "max" -> RMax(v[i], w[i]) [] op = "sqrt" -> RSqrt(v[i])]
\* The elements listed in the text of v when at most half at either end are shown (0 shows all of them)
Shown(v, half) == IF half = 0 \/ Len(v) <= 2*half THEN v ELSE SubSeq(v, 1, half) \o <<"...">> \o SubSeq(v, Len(v) - half + 1, Len(v))

\* The environment after an operation e; results are compared by Result
Step(env, e) ==
    CASE e.e = "new" -> [env EXCEPT ![e.k] = VZero(e.size)]
      [] e.e = "copy" -> [env EXCEPT ![e.k] = Read(env, e.s)]
      [] e.e = "assign" -> Assign(env, e.d, Read(env, e.s))
      [] e.e = "add" -> Write(env, e.d, VAdd(Read(env, e.d), Read(env, e.s)))
      [] e.e = "sub" -> Write(env, e.d, VSub(Read(env, e.d), Read(env, e.s)))
      [] e.e = "mul" -> Write(env, e.d, VScale(e.c, Read(env, e.d)))
      [] e.e = "set" -> Write(env, e.d, [Read(env, e.d) EXCEPT ![e.i + 1] = e.c])
      [] e.e = "clear" -> Write(env, e.d, VZero(Len(Read(env, e.d))))
      [] e.e = "resize" -> [env EXCEPT ![e.k] = Resize(@, e.size)]
      [] e.e = "swap" -> [env EXCEPT ![e.k] = env[e.j], ![e.j] = env[e.k]]
      [] e.e = "plus" -> [env EXCEPT ![e.k] = VAdd(Read(env, e.s), Read(env, e.s2))]
      [] e.e = "minus" -> [env EXCEPT ![e.k] = VSub(Read(env, e.s), Read(env, e.s2))]
      [] e.e = "map" -> [env EXCEPT ![e.k] = Map(e.f, Read(env, e.s), Read(env, e.s2))]
      [] OTHER -> env
Eps == "1e-15"
Result(env, e) ==
    CASE e.e = "read" -> VEq(e.v, Read(env, e.s)) /\ e.n = Len(Read(env, e.s)) /\ e.empty = (Read(env, e.s) = <<>>)
      [] e.e = "norms" -> LET v == Read(env, e.s) IN
            /\ REq(e.inf, VInfNorm(v)) /\ REq(e.one, OneNorm(v)) /\ REq(e.sq, Square(v)) /\ RClose(e.two, RSqrt(Square(v)), 0, Eps)
      [] e.e = "dot" -> REq(e.r, VDot(Read(env, e.s), Read(env, e.s2)))
      [] e.e = "str" -> LET w == Shown(env[e.k], e.half) IN
            Len(w) = Len(e.v) /\ \A i \in DOMAIN w : IF e.v[i] = "..." THEN w[i] = "..." ELSE RClose(e.v[i], w[i], 0, "1e-5")
      [] OTHER -> TRUE
=============================================================================
