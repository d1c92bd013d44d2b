------------------------------ MODULE MCConfig ------------------------------
(* Short histories of assignments to a configuration of the library. *)
EXTENDS Config, Json, SequencesExt
CONSTANTS MaxOps, Show
VARIABLES tree, ops, last
vars == <<tree, ops, last>>
Sets == {
    <<<<"solver">>, "dopri_45">>, <<<<"solver">>, "extrapolator">>, <<<<"solver">>, "i_euler">>, <<<<"solver">>, "">>, <<<<"solver">>, "bad">>,
    <<<<"solver", "h_init">>, "0.5">>, <<<<"solver", "h_init">>, "x">>, <<<<"solver", "stepsizectl", "tolerance">>, "2">>, <<<<"solver", "mode">>, "high">>,
    <<<<"solver", "reference_solver">>, "rk4">>, <<<<"solver", "reference_solver", "eventctl">>, "linear">>, <<<<"solver", "algsolver">>, "">>, <<<<"solver", "algsolver">>, "newton">>,
    <<<<"solver", "algsolver", "ddir">>, "lazy-fake-broyden">>, <<<<"solver", "algsolver", "ddir">>, "">>, <<<<"solver", "algsolver", "jacobian">>, "sparse">>,
    <<<<"solver", "algsolver", "jacobian">>, "">>, <<<<"solver", "algsolver", "jtrim">>, "width">>, <<<<"solver", "algsolver", "jtrim", "width">>, "3">>,
    <<<<"solver", "algsolver", "linsearch">>, "">>, <<<<"solver", "algsolver", "err", "abs_tol">>, "1e-6">>,
    <<<<"rhs">>, "oscillator">>, <<<<"rhs">>, "coupled_nl_osc">>, <<<<"rhs", "c">>, "2">>, <<<<"rhs", "n">>, "-1">>, <<<<"rhs", "n">>, "007">>,
    <<<<"init_state">>, "specified">>, <<<<"init_state", "size">>, "2">>, <<<<"init_state", "x1">>, "7.">>, <<<<"init_state", "size">>, "1">>,
    <<<<"time">>, "1E5">>, <<<<"time">>, "abc">>, <<<<"time", "x">>, "1">>, <<<<"reference_solver">>, "gragg">>, <<<<"reference_solver", "smooth">>, "1">>, <<<<>>, "1">>}
Init == tree = Root0 /\ ops = <<>> /\ last = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E x \in Sets :
            LET t == TLCEval(Assign("Root", tree, x[1], x[2], FALSE, <<>>))
            IN /\ tree' = IF t.t = "!" THEN tree ELSE t
               /\ last' = <<x[1], x[2], t.t # "!", tree>>
               /\ ops' = Append(ops, [path |-> x[1], text |-> x[2]])
        /\ (Show /\ Len(ops') = MaxOps => PrintT("SCN " \o ToJson([ops |-> ops'])))
Spec == Init /\ [][Next]_vars
\* Every node has the parameters of its type, every leaf a text that means what it is
RECURSIVE Conforms(_, _)
Conforms(face, node) ==
    /\ node.t = "" \/ node.t \in DOMAIN Faces[face]
    /\ node.t = "" => DOMAIN node.p = {}
    /\ \A n \in DOMAIN node.p :
        LET k == KindOf(face, node.t, n)
        IN IF IsChoice(k) THEN Conforms(k, node.p[n]) ELSE node.p[n].p = <<>> /\ Kept(k, node.p[n].t, TRUE) = node.p[n].t
    /\ (face \notin {"NewtonSolverInterface", "OdeInitState"} /\ node.t # "") => DOMAIN node.p = {q[1] : q \in Params(face, node.t)}
Wellformed == Conforms("Root", tree)
\* What is not below what was assigned stays as it is; a refused assignment changes nothing
Below(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Linked(p, q) == \* the parts of a Newton solver, the event control of a reference solver, the elements of a state
    LET a == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1) IN Below(a, q) /\ (\E k \in DOMAIN a : a[k] \in {"algsolver", "init_state", "reference_solver"})
Frame == last # <<>> => LET old == {x \in Flat(last[4], <<>>) : ~Below(last[1], x[1]) /\ ~Linked(last[1], x[1])}
                            new == {x \in Flat(tree, <<>>) : ~Below(last[1], x[1]) /\ ~Linked(last[1], x[1])}
                        IN IF last[3] THEN old = new ELSE tree = last[4]
\* What was assigned is read back
ReadBack == last # <<>> /\ last[3] => LET x == At(tree, last[1]) IN x.t # "!" /\ (x.t = last[2] \/ last[2] \in DOMAIN Texts \/ last[1] = <<"solver", "reference_solver", "eventctl">>)
\* Assigning again what a number is changes nothing
Again == \A x \in Flat(tree, <<>>) : At(tree, x[1]).p = <<>> /\ x[2] # "" /\ ~(\E f \in DOMAIN Faces : x[2] \in DOMAIN Faces[f])
            => Assign("Root", tree, x[1], x[2], TRUE, <<>>) = tree
=============================================================================
