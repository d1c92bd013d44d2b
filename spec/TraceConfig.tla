----------------------------- MODULE TraceConfig -----------------------------
(* Accepts a trace of drivers/config.cpp. *)
EXTENDS Config, SequencesExt, TraceTools
CONSTANT Props
VARIABLES l, s
Pairs(q) == {<<q[k][1], q[k][2]>> : k \in DOMAIN q}
\* What a configuration reports: every name with its text, once
Reports(tree, q) == Pairs(q) = Flat(tree, <<>>) /\ Len(q) = Cardinality(Pairs(q))
AssignOk(e, x) == e.thrown = (x.t = "!")
\* The components made
BuiltOk(e, tree) == /\ Pairs(e.tree) = Flat(tree, <<>>)
              /\ tree.p["init_state"].t # "" =>
                    LET p == tree.p["init_state"].p
                    IN e.time = p["time"].t /\ e.state = [k \in 1..Cardinality(Elements(p["size"].t)) |-> p["x" \o <<"0", "1", "2", "3">>[k]].t]
After1(e, tree) ==
    CASE e.e = "assign" -> LET x == TLCEval(Assign("Root", tree, e.path, e.text, e.number, e.given))
                           IN IF AssignOk(e, x) THEN IF x.t = "!" THEN tree ELSE x ELSE <<>>
      [] e.e = "tree" -> IF Reports(tree, e.tree) THEN tree ELSE <<>>
      [] e.e = "get" -> LET x == At(tree, e.path) IN IF IF x.t = "!" \/ e.path = <<>> THEN e.thrown ELSE ~e.thrown /\ e.text = x.t THEN tree ELSE <<>>
      [] e.e = "sub" -> LET x == At(tree, e.path)
                            leaf == e.path # <<>> /\ x.t # "!" /\ x.p = <<>>
                        IN IF IF x.t = "!" THEN e.thrown ELSE IF leaf THEN TRUE ELSE ~e.thrown /\ Reports(x, e.tree) THEN tree ELSE <<>>
      [] e.e = "built" -> IF BuiltOk(e, tree) THEN tree ELSE <<>>
      \* There is help on every parameter of the configuration itself (components may have none on theirs), and on nothing else
      [] e.e = "help" -> LET x == At(tree, e.path)
                         IN IF IF x.t = "!" \/ e.path = <<>> THEN e.none ELSE Len(e.path) = 1 => ~e.none THEN tree ELSE <<>>
      [] OTHER -> <<>>
\* a: the tree shown, b: the tree of the other provider
After(e) ==
    CASE e.e = "scenario" -> [a |-> Root0, b |-> Root0]
      [] e.e = "end" -> s
      [] e.e = "provide" -> [a |-> s.b, b |-> s.a]
      [] OTHER -> LET x == TLCEval(After1(e, s.a)) IN IF x = <<>> THEN <<>> ELSE [s EXCEPT !.a = x]
Init == l = 1 /\ s = [a |-> Root0, b |-> Root0]
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
