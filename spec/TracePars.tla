------------------------------ MODULE TracePars ------------------------------
(* Accepts a trace of drivers/pars.cpp: components given parameters, and values converted. *)
EXTENDS Config, TraceTools
CONSTANT Props
VARIABLES l, s
None == [face |-> "", node |-> Refused]
Pairs(q) == {<<q[k][1], q[k][2]>> : k \in DOMAIN q}
Reports(node, q) == Pairs(q) = Flat(node, <<>>) /\ Len(q) = Cardinality(Pairs(q))
\* what typed functions of the component say
GetsOk(node, gets) == \A k \in DOMAIN gets : gets[k][1] \in DOMAIN node.p => gets[k][2] = node.p[gets[k][1]].t
Set(e) == LET x == TLCEval(Give(s.face, s.node, e.given))
          IN IF x.t = "!"
             THEN \* refused: what was not mentioned stays
                  IF e.thrown /\ (LET named == {e.given[k][1] : k \in DOMAIN e.given}
                                      kept(q) == {y \in q : y[1][1] \notin named}
                                  IN s.face = "NewtonSolverInterface" \/ s.face = "OdeInitState" \/ kept(Pairs(e.tree)) = kept(Flat(s.node, <<>>)))
                  THEN None ELSE <<>>
             ELSE IF ~e.thrown /\ Reports(x, e.tree) /\ GetsOk(x, e.gets) THEN [s EXCEPT !.node = x] ELSE <<>>
Kinds == <<"double", "int", "uint", "bool">>
\* a value: its text, and what it converts to
ValueOk(e) ==
    LET m(k) == IF e.text \in DOMAIN Texts THEN Texts[e.text][k] ELSE IF e.number /\ k = "double" THEN e.text ELSE IF e.whole[k] THEN e.text ELSE "!"
    IN \A i \in DOMAIN Kinds : e.as[i] = m(Kinds[i])
After(e) ==
    CASE e.e \in {"scenario", "end"} -> None
      [] e.e = "made" -> LET x == TLCEval(Default(e.face, e.type)) IN IF Reports(x, e.tree) /\ GetsOk(x, e.gets) THEN [face |-> e.face, node |-> x] ELSE <<>>
      [] e.e = "set" -> Set(e)
      \* the same component as a value and back: a new one with the same parameters
      [] e.e = "copy" -> IF e.text = s.node.t /\ e.type = s.node.t /\ e.fresh /\ Reports(s.node, e.nested) /\ Reports(s.node, e.tree) /\ Reports(s.node, e.old) THEN s ELSE <<>>
      [] e.e = "value" -> IF e.string = e.text /\ ValueOk(e) THEN s ELSE <<>>
      [] e.e = "typed" -> IF e.got = e.put THEN s ELSE <<>>
      [] e.e = "nothing" -> IF e.text = "" /\ e.none THEN s ELSE <<>>
      [] OTHER -> <<>>
Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
