------------------------------ MODULE MCVectors ------------------------------
(***************************************************************************)
(* Laws of views, on all vectors of up to Size elements and all views of   *)
(* views: what is written through a view is read back through it, and      *)
(* nothing else changes; a block of a block, and the scaling of a block,   *)
(* are what they seem.  Histories of operations are generated from Gen.    *)
(***************************************************************************)
EXTENDS Vectors, TLC, FiniteSets, Json
CONSTANTS Size, MaxOps
Values == {"0", "1", "-2"}
Factors == {"1/2", "-1"}
Blocks(n) == { [o |-> "b", from |-> f, size |-> m] : f \in 0..n, m \in 0..n } 
Fit(n) == {b \in Blocks(n) : b.from + b.size <= n}
Scales == { [o |-> "s", c |-> c] : c \in Factors }
VARIABLES v, x, w
Vec(n) == [1..n -> Values]
Init == /\ \E n \in 0..Size : v \in Vec(n)
        /\ \E a \in Fit(Len(v)) : \E q \in {<<>>} \cup {<<a>>} \cup {<<a, b>> : b \in Fit(a.size)} \cup {<<a, c>> : c \in Scales} \cup {<<c, a>> : c \in Scales} : x = [k |-> 1, ops |-> q]
        /\ w \in Vec(Len(Read(<<v>>, x)))
Next == UNCHANGED <<v, x, w>>
Spec == Init /\ [][Next]_<<v, x, w>>
E1 == <<v>>
R == Read(E1, x)
After == Write(E1, x, w)
WrittenIsRead == Writable(x) => VEq(Read(After, x), w)
NothingElse == Writable(x) => \A i \in DOMAIN v : (i <= Offset(x) \/ i > Offset(x) + Len(R)) => REq(After[1][i], v[i])
SizeKept == Writable(x) => Len(After[1]) = Len(v)
Commute == Len(x.ops) = 2 /\ ~Writable(x) => VEq(R, Read(E1, [x EXCEPT !.ops = Reverse(@)]))
Flat == Writable(x) => VEq(R, Block(v, Offset(x), Len(R)))
Norms == /\ RLe(VInfNorm(R), OneNorm(R)) /\ RLe(Square(R), RMul(OneNorm(R), OneNorm(R)))
         /\ REq(VDot(R, w), VDot(w, R)) /\ RLe(RMul(VDot(R, w), VDot(R, w)), RMul(Square(R), Square(w)))
=============================================================================
