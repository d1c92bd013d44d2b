------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The components of the library, their parameters with kinds and default  *)
(* values, and texts of values.  A parameter is <<name, kind, default>>;   *)
(* the kinds are "double", "int", "uint", "bool", "string", "mode",        *)
(* "friction", or the name of an interface for a choice of a component.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL SSC == <<"stepsizectl", "OdeStepSizeController", "simple">>
LOCAL Common == {<<"h_init", "double", "0.01">>, <<"h_min", "double", "1e-16">>, <<"eventctl", "OdeEventController", "linear">>}
LOCAL Controlled == Common \cup {SSC, <<"enorm", "ErrorNormCalculator", "inf">>, <<"disable_error_check", "bool", "false">>}
LOCAL Embedded == Controlled \cup {<<"force_error_calc", "bool", "false">>, <<"h_after_switch", "double", "0">>, <<"mode", "mode", "low">>}
LOCAL File == <<"file_name", "string", "">>
LOCAL Trim == <<"jtrim", "JacobianTrimmer", "">>
Faces == [
  JacobianProvider |-> [default |-> {}, sparse |-> {}],
  ErrorEstimator |-> [simple |-> {<<"abs_max_threshold", "double", "1e+20">>, <<"abs_tol", "double", "1e-06">>, <<"rel_max_threshold", "double", "10">>, <<"rel_tol", "double", "1e-06">>}],
  JacobianTrimmer |-> [threshold |-> {<<"threshold", "double", "0">>}, width |-> {<<"width", "uint", "0">>}],
  NewtonDescentDirection |-> [broyden |-> {}, const |-> {}, hart |-> {}, simple |-> {}]
      @@ ("fake-broyden" :> {}) @@ ("lazy-fake-broyden" :> {<<"lazy_iterations", "uint", "10">>}),
  NewtonLinearSearch |-> [simple |-> {}],
  NewtonIterationPerformer |-> [default |-> {}],
  NewtonRegularizationStrategy |-> <<>>,
  VectorReorderingMapping |-> <<>>,
  NewtonSolverInterface |-> [newton |-> {<<"ddir", "NewtonDescentDirection", "simple">>, <<"err", "ErrorEstimator", "simple">>, <<"itperf", "NewtonIterationPerformer", "default">>,
      <<"jacobian", "JacobianProvider", "default">>, Trim, <<"linsearch", "NewtonLinearSearch", "simple">>, <<"max_iterations", "uint", "100">>,
      <<"regularizer", "NewtonRegularizationStrategy", "">>}],
  ErrorNormCalculator |-> [inf |-> {}],
  OdeStepSizeController |-> [simple |-> {<<"dec_max_factor", "double", "0.1">>, <<"inc_max_factor", "double", "2">>, <<"inc_min_factor", "double", "1.3">>,
      <<"insurance", "double", "0.8">>, <<"max_threshold", "double", "0">>, <<"tolerance", "double", "1e-06">>}],
  OdeSolver |-> [euler |-> Common, rk4 |-> Common, gragg |-> Common \cup {<<"smooth", "bool", "false">>},
      dopri_45 |-> Embedded, dopri_56 |-> Embedded, dopri_78 |-> Embedded,
      extrapolator |-> Controlled \cup {<<"max_stages", "uint", "4">>, <<"symmetric", "bool", "false">>,
          <<"reference_solver", "OdeSolver", "">>, <<"step_sequence", "ExtrapolatorStepSequence", "">>},
      i_euler |-> Common \cup {<<"algsolver", "NewtonSolverInterface", "newton">>, <<"alpha", "double", "1">>, <<"predictor", "OdeSolver", "">>,
          <<"predictor_steps", "uint", "1">>, <<"reorder", "VectorReorderingMapping", "">>},
      rosenbrock_w1 |-> Common \cup {<<"d", "double", "1">>, Trim},
      rosenbrock_sw2_4 |-> Controlled \cup {<<"d", "double", "1">>, Trim}],
  OdeRhs |-> [bouncing_ball |-> {<<"gravity_acceleration", "double", "9.800000000000001">>, <<"recovery_factor", "double", "0.9">>, <<"stick_speed", "double", "1e-05">>},
      coupled_nl_osc |-> {<<"c0", "double", "1000">>, <<"c2", "double", "1000">>, <<"f", "double", "100">>, <<"n", "uint", "10">>},
      oscillator |-> {<<"c", "double", "1000">>, <<"f", "double", "100">>},
      sliding_point |-> {<<"F1", "double", "10">>, <<"F2", "double", "10">>, <<"f0", "double", "1">>, <<"friction", "friction", "atan">>,
          <<"mass", "double", "1">>, <<"omega", "double", "100">>, <<"v0", "double", "1">>},
      stiff_1d |-> {<<"a", "double", "50">>}],
  OdeEventController |-> [linear |-> {}],
  OdeSolverOutputOption |-> [con_general |-> {File}, con_solution |-> {File, <<"size_half_lim", "uint", "5">>},
      con_solution_columnwise |-> {File, <<"max_steps", "uint", "10">>}, stats_full |-> {File}],
  OdeInitState |-> [specified |-> {<<"size", "size", "0">>, <<"time", "double", "0">>}],
  OdeStepMapping |-> [euler |-> {<<"alpha", "double", "1">>, <<"h", "double", "0.1">>}],
  ExtrapolatorStepSequence |-> [bulirsch |-> {}, harmonic |-> {}, romberg |-> {}],
  Root |-> [root |-> {<<"init_state", "OdeInitState", "">>, <<"output_con", "OdeSolverOutputOption", "">>, <<"output_file", "OdeSolverOutputOption", "">>,
      <<"output_stats", "OdeSolverOutputOption", "">>, <<"output_timing", "double", "0">>, <<"reference_solver", "OdeSolver", "">>,
      <<"rhs", "OdeRhs", "">>, <<"simout_basename", "string", "">>, <<"solver", "OdeSolver", "rk4">>, <<"time", "double", "0.001">>}]]
IsChoice(kind) == kind \in DOMAIN Faces
Params(face, type) == IF type = "" THEN {} ELSE Faces[face][type]
Kind(face, type, name) == (CHOOSE p \in Params(face, type) : p[1] = name)[2]
\* Texts of values: what a text means as a number, an integer, a natural number below 2^32, a truth value ("!": nothing)
LOCAL T(a, b, c, d) == [double |-> a, int |-> b, uint |-> c, bool |-> d]
Texts ==
    [x \in {"4", "5", "7", "10", "50", "100", "1000"} |-> T(x, x, x, "!")]
 @@ "0" :> T("0", "0", "0", "false") @@ "1" :> T("1", "1", "1", "true") @@ "2" :> T("2", "2", "2", "!") @@ "3" :> T("3", "3", "3", "!")
 @@ "17" :> T("17", "17", "17", "!") @@ "007" :> T("7", "7", "7", "!") @@ "+5" :> T("5", "5", "5", "!") @@ "-1" :> T("-1", "-1", "!", "!")
 @@ "-12" :> T("-12", "-12", "!", "!") @@ "-0" :> T("-0", "0", "0", "!") @@ "00" :> T("0", "0", "0", "!")
 @@ "2147483647" :> T("2147483647", "2147483647", "2147483647", "!") @@ "2147483648" :> T("2147483648", "!", "2147483648", "!")
 @@ "-2147483648" :> T("-2147483648", "-2147483648", "!", "!") @@ "4294967295" :> T("4294967295", "!", "4294967295", "!")
 @@ "4294967296" :> T("4294967296", "!", "!", "!") @@ "99999999999999999999" :> T("1e+20", "!", "!", "!")
 @@ "0.5" :> T("0.5", "!", "!", "!") @@ ".5" :> T("0.5", "!", "!", "!") @@ "0.50" :> T("0.5", "!", "!", "!") @@ "7." :> T("7", "!", "!", "!")
 @@ "0.1" :> T("0.1", "!", "!", "!") @@ "9.8" :> T("9.800000000000001", "!", "!", "!") @@ "-2.5e-3" :> T("-0.0025", "!", "!", "!")
 @@ "1e-6" :> T("1e-06", "!", "!", "!") @@ "1E5" :> T("100000", "!", "!", "!") @@ "1e+16" :> T("1e+16", "!", "!", "!") @@ "12e0" :> T("12", "!", "!", "!")
 @@ "123456789.123456789" :> T("123456789.1234568", "!", "!", "!") @@ "1e400" :> T("!", "!", "!", "!") @@ "-1e400" :> T("!", "!", "!", "!")
 @@ "true" :> T("!", "!", "!", "true") @@ "false" :> T("!", "!", "!", "false")
Odd == {"", "abc", "1x", "0x10", "1e", "e5", "--1", "+", ".", "1,5", " 1", "1 ", "1 2", "True", "yes", "inf", "nan", "-", "1.2.3", "atan ", "LOW"}
Enums == [mode |-> {"low", "high"}, friction |-> {"atan", "tabular", "linear"}]
\* The value kept when a parameter of a kind is given a text ("!": refused).  Texts that are not in the table are numbers written with up to
\* 16 significant digits, or names
Kept(kind, text, number) ==
    CASE kind = "string" -> text
      [] kind \in DOMAIN Enums -> IF text \in Enums[kind] THEN text ELSE "!"
      [] text \in DOMAIN Texts -> IF kind = "size" THEN IF Texts[text].uint = "!" THEN "!" ELSE Texts[text].uint ELSE Texts[text][kind]
      [] kind = "double" /\ number -> text
      [] OTHER -> "!"
\* Trees: [t |-> type, p |-> function of the names]; a leaf has the type "" and its text
RECURSIVE Default(_, _)
Default(face, type) ==
    [t |-> type, p |-> LET P == Params(face, type) names == {q[1] : q \in P}
                       IN TLCEval([n \in names |-> LET q == CHOOSE q \in P : q[1] = n
                                           IN IF IsChoice(q[2]) THEN Default(q[2], q[3]) ELSE [t |-> q[3], p |-> <<>>]])]
RECURSIVE Flat(_, _)
Flat(node, path) == UNION {{<<path \o <<n>>, node.p[n].t>>} \cup Flat(node.p[n], path \o <<n>>) : n \in DOMAIN node.p}
=============================================================================
