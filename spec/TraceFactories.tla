--------------------------- MODULE TraceFactories ---------------------------
(* Accepts a trace of drivers/fac.cpp and of drivers/comp.cpp. *)
EXTENDS Factories, TraceTools
CONSTANT Props
VARIABLES l, s
None == [reg |-> <<>>, val |-> 0, obs |-> <<>>]
CreateOk(e) ==
    LET have == Taken(s.reg, e.face, e.name)
    IN IF e.thrown THEN ~have
       ELSE /\ have /\ e.fresh /\ e.type = TypeOf(s.reg, e.face, e.name)
            /\ e.label \in LET k == CHOOSE h \in Named(s.reg, e.face, e.name) : TRUE IN IF s.reg[k].mixin THEN Labels(s.reg, e.face, e.type) ELSE {""}
ListOk(e) == /\ Range(e.names) = NamesOf(s.reg, e.face) /\ Len(e.names) = Cardinality(Range(e.names))
             /\ Range(e.known) = Range(e.asked) \cap NamesOf(s.reg, e.face)
\* an observer without an argument is told nothing
Same(a, b) == \A o \in Range(s.obs) : o.id = b[1] => a[1] = b[1] /\ a[3] = b[3] /\ (o.arg => a[2] = b[2])
SetOk(e) ==
    LET as(r) == /\ e.now = r.cur /\ e.const = r.cur
                 /\ Len(e.calls) = Len(r.calls) /\ \A k \in DOMAIN r.calls : Same(e.calls[k], r.calls[k])
    IN /\ e.other = 0 /\ e.far = 0
       /\ (as(Setting(s.obs, e.v, FALSE)) \/ as(Setting(s.obs, e.v, TRUE)))
\* the components of the library, by interface
Components == [
    JacobianProvider |-> {<<"default", "DefaultJacobianProvider">>, <<"sparse", "SparseJacobianProvider">>},
    ErrorEstimator |-> {<<"simple", "SimpleErrorEstimator">>},
    JacobianTrimmer |-> {<<"width", "JacobianWidthBasedTrimmer">>, <<"threshold", "JacobianThresholdBasedTrimmer">>},
    NewtonDescentDirection |-> {<<"simple", "SimpleNewtonDescentDirection">>, <<"broyden", "JacobianBroydenUpdateNewtonDescentDirection">>,
        <<"fake-broyden", "JacobianFakeBroydenUpdateNewtonDescentDirection">>, <<"lazy-fake-broyden", "JacobianLazyFakeBroydenUpdateNewtonDescentDirection">>,
        <<"hart", "JacobianHartUpdateNewtonDescentDirection">>, <<"const", "ConstJacobianNewtonDescentDirection">>},
    NewtonLinearSearch |-> {<<"simple", "SimpleNewtonLinearSearch">>},
    NewtonIterationPerformer |-> {<<"default", "NewtonIterationPerformerImpl">>},
    NewtonSolverInterface |-> {<<"newton", "NewtonSolver">>},
    ErrorNormCalculator |-> {<<"inf", "ErrorInfNormCalculator">>},
    OdeStepSizeController |-> {<<"simple", "OdeStepSizeSimpleController">>},
    OdeSolver |-> {<<"euler", "OdeSolverExplicitEuler">>, <<"rk4", "OdeSolverRK4">>, <<"dopri_45", "OdeSolverDOPRI45">>, <<"dopri_56", "OdeSolverDOPRI56">>,
        <<"dopri_78", "OdeSolverDOPRI78">>, <<"rosenbrock_w1", "OdeSolverRosenbrock_W1">>, <<"rosenbrock_sw2_4", "OdeSolverRosenbrock_SW2_4">>,
        <<"gragg", "OdeSolverGragg">>, <<"extrapolator", "OdeSolverExtrapolator">>, <<"i_euler", "OdeSolverImplicitEuler">>},
    OdeRhs |-> {<<"oscillator", "Oscillator">>, <<"coupled_nl_osc", "CoupledNonlinearOscillators">>, <<"stiff_1d", "StiffOde1D">>,
        <<"sliding_point", "SlidingPoint">>, <<"bouncing_ball", "BouncingBall">>},
    OdeEventController |-> {<<"linear", "LinearOdeEventController">>},
    OdeSolverOutputOption |-> {<<"stats_full", "OdeSolverStatisticsOutput">>, <<"con_general", "OdeSolverStepGeneralConsoleOutput">>,
        <<"con_solution", "OdeSolverStepSolutionConsoleOutput">>, <<"con_solution_columnwise", "OdeSolverStepSolutionColumnwiseOutput">>},
    OdeInitState |-> {<<"specified", "SpecifiedOdeInitState">>},
    OdeStepMapping |-> {<<"euler", "OdeStepMappingEuler">>},
    ExtrapolatorStepSequence |-> {<<"romberg", "ExtrapolatorStepSequenceRomberg">>, <<"bulirsch", "ExtrapolatorStepSequenceBulirsch">>,
        <<"harmonic", "ExtrapolatorStepSequenceHarmonic">>}]
ComponentsOk(e) == /\ e.face \in DOMAIN Components
                   /\ {<<e.made[k].name, e.made[k].class>> : k \in DOMAIN e.made} = Components[e.face]
                   /\ Len(e.made) = Cardinality(Components[e.face])
                   /\ \A k \in DOMAIN e.made : e.made[k].label = e.made[k].name /\ e.made[k].fresh
                   /\ e.refused
\* The state after an event, or <<>> if the event is wrong
After(e) ==
    CASE e.e \in {"scenario", "end"} -> None
      [] e.e = "register" -> IF e.thrown = Taken(s.reg, e.face, e.name)
                             THEN [s EXCEPT !.reg = Register(@, [face |-> e.face, name |-> e.name, type |-> e.type, mixin |-> e.mixin])] ELSE <<>>
      [] e.e = "create" -> IF CreateOk(e) THEN s ELSE <<>>
      [] e.e = "list" -> IF ListOk(e) THEN s ELSE <<>>
      [] e.e = "holder" -> IF e.now = 0 THEN s ELSE <<>>
      [] e.e = "watch" -> [s EXCEPT !.obs = Append(@, [id |-> e.id, arg |-> e.arg, when |-> e.when, then |-> e.then])]
      [] e.e = "unwatch" -> [s EXCEPT !.obs = SelectSeq(@, LAMBDA o : o.id # e.id)]
      [] e.e = "set" -> IF SetOk(e) THEN [s EXCEPT !.val = e.now] ELSE <<>>
      [] e.e = "components" -> IF ComponentsOk(e) THEN s ELSE <<>>
      [] OTHER -> <<>>
Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
