------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configurations: a tree of choices of components and of their parameters.*)
(* Assign(face, node, path, text, number, nested) is the tree after        *)
(* assigning at a path, or Refused.                                        *)
(***************************************************************************)
EXTENDS Schema, SequencesExt
Refused == [t |-> "!", p |-> <<>>]
\* The names x0, x1, ... of the elements of an initial state of the given size
LOCAL Digit == <<"0", "1", "2", "3">>
Elements(size) == {"x" \o Digit[k] : k \in 1..(CASE size = "0" -> 0 [] size = "1" -> 1 [] size = "2" -> 2 [] OTHER -> 3)}
LOCAL Leaf(x) == [t |-> x, p |-> <<>>]
\* What depends on the choices within a node
Settled(face, node) ==
    IF face = "OdeInitState" /\ node.t # "" THEN
        [node EXCEPT !.p = [n \in {"size", "time"} \cup Elements(node.p["size"].t) |-> IF n \in DOMAIN node.p THEN node.p[n] ELSE Leaf("0")]]
    ELSE IF face = "NewtonSolverInterface" /\ node.t # "" THEN
        LET p == node.p
            itperf == p["itperf"].t # ""
            ddir == itperf /\ "ddir" \in DOMAIN p /\ p["ddir"].t # ""
            jp == ddir /\ "jacobian" \in DOMAIN p /\ p["jacobian"].t # ""
            names == {"itperf", "regularizer", "max_iterations"} \cup (IF itperf THEN {"ddir", "linsearch", "err"} ELSE {})
                     \cup (IF ddir THEN {"jacobian"} ELSE {}) \cup (IF jp THEN {"jtrim"} ELSE {})
        IN [node EXCEPT !.p = [n \in names |-> IF n \in DOMAIN p THEN p[n] ELSE Leaf("")]]
    ELSE IF face = "OdeSolver" /\ node.t = "extrapolator" /\ node.p["reference_solver"].t # "" THEN       \* it does not look for events itself
        [node EXCEPT !.p["reference_solver"].p["eventctl"] = Leaf("")]
    ELSE node
KindOf(face, type, name) == IF face = "OdeInitState" /\ name \notin {"size", "time"} THEN "double" ELSE Kind(face, type, name)
\* Given together, what decides which others exist comes first
LOCAL First == <<"itperf", "ddir", "jacobian", "size">>
LOCAL Ordered(given) ==
    LET names == {First[k] : k \in DOMAIN First}
    IN FoldLeft(LAMBDA r, n : r \o SelectSeq(given, LAMBDA g : g[1] = n), <<>>, First) \o SelectSeq(given, LAMBDA g : g[1] \notin names)
\* A choice, with some parameters given: those it does not have are ignored
RECURSIVE GiveEach(_, _, _), Give(_, _, _)
Give(face, node, given) == GiveEach(face, node, Ordered(given))      \* given: sequence of <<name, text, number, given>>
GiveEach(face, node, given) ==
    IF given = <<>> \/ node.t = "!" THEN node
    ELSE LET g == Head(given)
             x == IF g[1] \notin DOMAIN node.p THEN node
                  ELSE LET k == KindOf(face, node.t, g[1])
                       IN IF IsChoice(k) THEN IF g[2] # "" /\ g[2] \notin DOMAIN Faces[k] THEN Refused
                                              ELSE LET y == Give(k, Settled(k, Default(k, g[2])), g[4]) IN IF y.t = "!" THEN y ELSE [node EXCEPT !.p[g[1]] = y]
                          ELSE IF Kept(k, g[2], g[3]) = "!" THEN Refused ELSE [node EXCEPT !.p[g[1]] = Leaf(Kept(k, g[2], g[3]))]
         IN GiveEach(face, IF x.t = "!" THEN x ELSE Settled(face, x), Tail(given))
RECURSIVE Assign(_, _, _, _, _, _)
Assign(face, node, path, text, number, given) ==
    IF path = <<>> \/ Head(path) \notin DOMAIN node.p THEN Refused
    ELSE LET n == Head(path)
             k == KindOf(face, node.t, n)
             x == IF Len(path) > 1 THEN IF IsChoice(k) THEN Assign(k, node.p[n], Tail(path), text, number, given) ELSE Refused
                  ELSE IF IsChoice(k) THEN IF text # "" /\ text \notin DOMAIN Faces[k] THEN Refused
                                           ELSE Give(k, Settled(k, Default(k, text)), given)
                  ELSE IF Kept(k, text, number) = "!" THEN Refused ELSE Leaf(Kept(k, text, number))
         IN IF x.t = "!" THEN x ELSE Settled(face, [node EXCEPT !.p[n] = x])
Root0 == Default("Root", "root")
\* The node at a path, or Refused
RECURSIVE At(_, _)
At(node, path) == IF path = <<>> THEN node ELSE IF Head(path) \in DOMAIN node.p THEN At(node.p[Head(path)], Tail(path)) ELSE Refused
=============================================================================
