#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
I = 'include/ode_num_int/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[I + f if not f.startswith(('src/', 'examples/')) else f for f in files],
                               mechanism=[dict(name=m, where=I + files[0]) for m in mech],
                               state=[dict(name=x, meaning=x, where=I + files[0]) for x in (state or [])],
                               observe_at=observe, hook_needed=None)))
NOSOLVER = 'No existing test runs an ODE solver at all; a few sampled steps could not cover all systems, states, step sizes and modes.'

prop('P01', 'Explicit Runge-Kutta steps realise their published methods',
 'For every ODE system, time, state and step size, an accepted step of an explicit Runge-Kutta solver (explicit Euler, classic RK4, and the 4(5), 5(6) and 7(8) embedded pairs in high or low mode) that is not truncated moves time by the step size and the state to the value prescribed by the published coefficient table of that method, up to rounding. The advertised order of each solver (of the mode in use, for a pair) is the order its table really has.',
 ['inputs', 'configurations'], 'every right-hand side, initial time and state, step size, solver and mode',
 NOSOLVER, ['ode/ExplicitRKHelper.h', 'ode/OdeSolverExplicitRK.h', 'ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeSolverExplicitEuler.h', 'ode/OdeSolverRK4.h', 'ode/OdeSolverDOPRI45.h', 'ode/OdeSolverDOPRI56.h', 'ode/OdeSolverDOPRI78.h'],
 ['stage loop over the coefficient table', 'last stage argument reused as the next state', 'mode selects which of the two solutions is kept'],
 ['state and time of the solver after each step', 'advertised order'])

prop('P02', 'Step-size controller decides by tolerance, insurance and factor limits',
 'For every error norm, step size, method order and parameter setting, the default step-size controller accepts a step exactly when the error is within tolerance (up to its 1e-5 slack on the step ratio), keeps the step size when the error is zero or the growth is below the minimum growth factor, and otherwise proposes the step size times insurance*(tolerance/error)^(1/(order+1)) clipped by the maximum growth factor, the maximum decrease factor and the step-size ceiling. A limit set to zero is disabled. The order an adaptive solver hands to it is that of the less accurate of its two embedded solutions (for extrapolation, of the table with one stage less).',
 ['inputs', 'configurations'], 'every error norm, step size, order and combination of controller parameters',
 'No existing test calls the controller; the decision has about ten regions whose boundaries depend on six parameters.',
 ['ode/OdeStepSizeSimpleController.h', 'ode/interfaces/OdeStepSizeController.h'],
 ['case analysis on the ratio of tolerance to error'], ['decision returned for an error norm', 'step sizes and acceptance reported by the adaptive solvers'])

prop('P03', 'Adaptive solvers retry rejected attempts and report every attempt truthfully',
 'In an adaptive solver (embedded Runge-Kutta, extrapolation, Rosenbrock-W 2(4)) one step call makes attempts until the step-size controller accepts one: a rejected attempt leaves time and state untouched, the next attempt uses the step size the controller asked for, and only the accepted attempt moves time and state. Every attempt is announced to the observers before (with the step size it is going to use) and reported after (with the step size it used, its error norm, and whether it was accepted, changed the step size, or was truncated); with error checking disabled every attempt is accepted at the unchanged step size. A new step size that is at or below the minimum threshold, or not a number, makes the call fail with an exception instead. After a truncated step an embedded Runge-Kutta solver with a positive step size after switch goes on with at most that step size.',
 ['inputs', 'histories', 'configurations'], 'every sequence of step, restart and parameter calls, and every sequence of error norms and controller decisions',
 NOSOLVER + ' The retry loop depends on the whole sequence of controller decisions.',
 ['ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeSolverExtrapolator.h', 'ode/OdeSolverRosenbrock_SW2_4.h', 'ode/interfaces/OdeSolver.h', 'ode/interfaces/OdeSolverStepSizeController.h'],
 ['accept/reject loop', 'pre and post step observers', 'minimum step size threshold'], ['observer arguments', 'time and state before and after a step', 'exceptions'],
 ['current step size', 'time', 'state'])

prop('P04', 'Reported error norm measures the difference of the two embedded solutions',
 'For every system, state and step size, the error norm an adaptive solver reports for an attempt and passes to its step-size controller is the configured error norm of that method\'s local error estimate: the difference of the two embedded solutions (for extrapolation, of the two most accurate extrapolated values). With error checking disabled and no forced error calculation the reported norm is zero.',
 ['inputs', 'configurations'], 'every right-hand side, state, step size, mode, pair or extrapolation table, and error norm implementation',
 NOSOLVER, ['ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeSolverExtrapolator.h', 'ode/OdeSolverRosenbrock_SW2_4.h', 'ode/ErrorInfNormCalculator.h', 'ode/interfaces/OdeSolverErrorNormCalculator.h'],
 ['error vector of the pair', 'error norm calculator'], ['error norm passed to observers and to the controller'])

prop('P05', 'A step advances time by exactly the step size it reports, unless truncated',
 'For every solver, system and history of calls, a step that is not truncated moves the solver\'s time forward by exactly the step size reported to the observers, a truncated step never moves it further than that or backwards, and the time and state seen by the after-step observers are those the solver has when the call returns. Fixed-step solvers use the configured initial step size for every step after a (re)start.',
 ['inputs', 'histories', 'configurations'], 'every solver, every sequence of restarts, step size changes and steps',
 NOSOLVER, ['ode/interfaces/OdeSolver.h', 'ode/OdeSolverExplicitRK.h', 'ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeSolverGragg.h', 'ode/OdeSolverImplicitEuler.h', 'ode/OdeSolverExtrapolator.h', 'ode/OdeSolverRosenbrock_W1.h', 'ode/OdeSolverRosenbrock_SW2_4.h'],
 ['time update after a step', 'step observers'], ['observer arguments', 'time and state of the solver'], ['time', 'state', 'current step size'])

prop('P06', 'Restarting a solver from a state forgets everything done before',
 'For every solver and every earlier history of steps, events, rejected attempts and parameter changes, after the initial time and state are set anew (not as a soft restart) and the step size is set, the following steps produce the same times, states and notifications as a newly created solver with the same parameters started from there.',
 ['histories', 'inputs', 'configurations'], 'every solver and every history of calls before the restart',
 NOSOLVER + ' Stale state survives only particular histories (an event just before the restart, a reduced step size, a cached Jacobian).',
 ['ode/OdeSolverExplicitRK.h', 'ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeSolverGragg.h', 'ode/OdeSolverImplicitEuler.h', 'ode/OdeSolverExtrapolator.h', 'ode/OdeSolverRosenbrock_W1.h', 'ode/OdeSolverRosenbrock_SW2_4.h', 'ode/OdeSolverRosenbrock_W_base.h', 'ode/LinearOdeEventController.h'],
 ['restart drops work vectors, cached Jacobians and event indicators'], ['times, states and observer arguments after a restart'],
 ['cached right-hand side', 'Jacobian and factorisations', 'event indicators', 'current step size'])

prop('P07', 'Steps stop at the earliest event in an enabled direction, and only there',
 'For every set of zero functions, flags and states, an accepted step in which some zero function passes through zero in a direction its flags enable is truncated at the earliest such crossing, located by linear interpolation between the step\'s ends, with the state interpolated to the same point. A step in which no zero function makes an enabled crossing is never truncated, including when a function stays on one side or moves in a direction that is not enabled. A one-directional function that starts a step at zero and leaves it in its direction crosses at the start of the step. A model without zero functions may cut a step itself.',
 ['inputs', 'histories', 'configurations'], 'every sequence of zero-function values over steps, every combination of direction and recompute flags, every number of zero functions',
 'No existing test uses events; the outcome depends on the history of signs of every zero function.',
 ['ode/LinearOdeEventController.h', 'ode/interfaces/OdeEventController.h', 'ode/interfaces/OdeSolverEventController.h'],
 ['sign state per zero function', 'earliest crossing search', 'linear interpolation of time and state'], ['truncation flag, time and state after a step'], ['zero function values and sign state at step start'])

prop('P08', 'Each located event switches the model once, with the right transition',
 'For every truncated step, the model\'s switch operation is called exactly once, at the interpolated time and state, with a transition list that marks the function that crossed with the direction of its crossing and every other function with none; the observers get the same function index and direction, and the state the model leaves is the state the solver continues from. Afterwards functions flagged for recomputation are judged by their values in the switched state and the others by the values interpolated to the event, so a two-directional function does not report the same crossing twice.',
 ['inputs', 'histories', 'configurations'], 'every history of events and switches for all flags, including simultaneous crossings and switches that change the state',
 'No existing test uses events; double or lost switches appear only in multi-step histories.',
 ['ode/LinearOdeEventController.h', 'ode/interfaces/OdeRhs.h', 'ode/test_models/BouncingBall.h', 'ode/test_models/SlidingPoint.h'],
 ['switch call with the transition list', 'update of the sign state after the switch'], ['arguments of the switch call', 'observer arguments', 'following steps'], ['sign state per zero function'])

prop('P09', 'Gragg solver performs the modified midpoint recurrence',
 'For every system, state and step size, after any number of steps since a start, restart, step size change or event, the Gragg solver\'s state equals the one of the modified midpoint method with an explicit Euler starting half step, carried over the steps in two interleaved sequences; with smoothing on, the state returned while steps are running is the average of the two sequences, and the method is of order two.',
 ['inputs', 'histories'], 'every system, number of consecutive steps, and restart or event in between',
 NOSOLVER, ['ode/OdeSolverGragg.h'], ['two interleaved sequences', 'start-up after restart or event'], ['state after each step'], ['second sequence', 'right-hand side carried to the next step'])

prop('P10', 'Extrapolation combines substep solutions by the Aitken-Neville scheme',
 'For every reference solver, step sequence, number of stages and symmetry setting, an accepted extrapolated step equals the polynomial extrapolation to zero substep of the reference solver\'s results with the numbers of substeps given by the sequence (in powers of the substep, or of its square when the reference solver is symmetric). The harmonic, Romberg and Bulirsch sequences are 1,2,3,4,..., 1,2,4,8,... and 1,2,3,4,6,8,12,16,..., restart from the beginning for every step, and the advertised order grows by one (two if symmetric) per extra stage.',
 ['inputs', 'configurations'], 'every system, state, step size, sequence, stage count and reference solver',
 NOSOLVER, ['ode/OdeSolverExtrapolator.h', 'ode/ExtrapolatorStepSequenceHarmonic.h', 'ode/ExtrapolatorStepSequenceRomberg.h', 'ode/ExtrapolatorStepSequenceBulirsch.h'],
 ['extrapolation table built in place', 'step sequences'], ['state after each step', 'values of the step sequences', 'advertised order'])

prop('P11', 'Rosenbrock-W steps solve their linear implicit stages with one Jacobian',
 'For every system with second- and first-order variables, state and step size, a step of a Rosenbrock-W solver equals the published W-method formula in which the Jacobian is the one computed by finite differences with respect to all variables at the state of the last (hard) start, and every stage of an attempt, including one retried with a smaller step, uses the matrix for that attempt\'s step size. Repeating a step size reuses nothing that belongs to another step size or an earlier start.',
 ['inputs', 'histories', 'configurations'], 'every system, implicitness parameter and sequence of step sizes, rejections and restarts',
 NOSOLVER, ['ode/OdeSolverRosenbrock_W_base.h', 'ode/OdeSolverRosenbrock_W1.h', 'ode/OdeSolverRosenbrock_SW2_4.h'],
 ['finite-difference Jacobian split into position and velocity parts', 'factorisations cached by step size'], ['state after each step', 'error norm'], ['cached Jacobian and factorisations'])

prop('P12', 'Implicit Euler steps satisfy the implicit Euler equations',
 'For every system with second- and first-order variables, a step of the implicit Euler solver that completes ends in a state that satisfies the implicit step equations (of the alpha method: positions, velocities and first-order variables advance by the step size times the mean of their derivatives at the start, weight 1-alpha, and at the end of the step, weight alpha; alpha = 1 is backward Euler) within the Newton tolerance, whatever predictor, variable order and Newton strategy are configured. If the nonlinear solver does not converge, the step fails with an exception that names the failure of the algebraic solver, and the solver\'s time and state stay as they were.',
 ['inputs', 'histories', 'configurations'], 'every system, state, step size, position formula and Newton outcome',
 NOSOLVER, ['ode/OdeSolverImplicitEuler.h', 'ode/OdeStepMappingEuler.h', 'ode/interfaces/OdeNewtonSolver.h'],
 ['step mapping between the ODE state and the unknowns', 'soft and hard restart of the nonlinear solver'], ['state after a step', 'exceptions'], ['predictor', 'nonlinear solver state'])

prop('P13', 'Newton solver reports the outcome its iterations really had',
 'For every mapping, initial guess and component set, the Newton solver reports convergence exactly when an iteration ended with the error estimator declaring convergence, termination when an iteration observer asked for it, divergence when the estimator declared divergence or an iteration that did not converge took a zero step (a regularisation strategy that adjusts itself asks for another iteration instead), and the iteration limit otherwise; after a divergence or an exhausted limit it starts over from the initial guess at most once, with a hard reset, if the components say that may help. One attempt performs no more iterations than the limit, observers are notified after each iteration with its number, and the solution returned is the last iterate. The descent direction is told of success exactly when the run converged, and of failure when an attempt diverged or the run used up its limit. All components refer to the mapping, estimator, direction and Jacobian provider last set.',
 ['inputs', 'histories', 'fault_sequences'], 'every sequence of iteration outcomes, observer decisions, reset possibilities and limits',
 'No existing test runs the solver; its control flow depends on the sequence of outcomes of its components.',
 ['alg/NewtonSolver.h', 'alg/NewtonIterationPerformerImpl.h', 'alg/interfaces/NewtonSolverInterface.h'],
 ['iteration loop with status dispatch', 'hard reset', 'regularisation strategy'], ['status returned', 'observer calls', 'calls received by the components'], ['current iterate', 'hard reset done'])

prop('P14', 'Descent directions use the Jacobian approximation their strategy prescribes',
 'For every mapping, iterate sequence and reset, the direction d computed by a Newton descent strategy satisfies J*d = -f up to rounding, where J is the Jacobian at the current point (plain), the Jacobian kept since the last reset (constant), or that matrix updated at each later iteration by the secant update the strategy is named after (Broyden, Hart and their variants), so that after an update the approximation maps the last step to the last change of the residual where the variant prescribes it. A hard reset makes the next direction use a newly computed Jacobian.',
 ['inputs', 'histories', 'configurations'], 'every strategy and every sequence of points, residuals, iterations and resets',
 'No existing test runs a strategy; a wrong update shows only over a sequence of iterations.',
 ['alg/SimpleNewtonDescentDirection.h', 'alg/ConstJacobianNewtonDescentDirection.h', 'alg/JacobianBroydenUpdateNewtonDescentDirection.h', 'alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h', 'alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h', 'alg/JacobianHartUpdateNewtonDescentDirection.h', 'alg/DefaultJacobianProvider.h'],
 ['kept Jacobian and secant updates', 'reset'], ['direction returned for a point and residual'], ['kept matrix', 'previous point and residual'])

prop('P15', 'Line search and error estimator follow their stated acceptance rules',
 'For every residual sequence and parameters, the line search tries the step ratios 1, 1/2, 1/4, ... (as many as configured) until the squared residual norm is below the sufficient fraction of the starting one, takes the ratio with the least residual found if any improves, otherwise tries the negative ratios in the same way, otherwise takes a zero step, and returns the residual of that very point; the error estimator takes the largest residual as absolute and the step relative to the previous point as relative error and declares convergence exactly when both are within the configured tolerances, and divergence exactly when one reaches its configured positive threshold.',
 ['inputs', 'histories', 'configurations'], 'every sequence of residuals and steps, and every parameter setting',
 'No existing test calls either component.', ['alg/SimpleNewtonLinearSearch.h', 'alg/SimpleErrorEstimator.h'],
 ['step halving loop', 'convergence and divergence rules'], ['ratio and residual returned', 'status returned'], ['previous residuals and steps'])

prop('P16', 'LU solver solves exactly the system of the matrix it was last given',
 'For every non-singular sparse matrix that factorises without pivoting, of any sparsity pattern, and every right-hand side, solving returns x with A*x = b up to rounding, where A is the matrix most recently set, whether set afresh or through the fast path that keeps the sparsity layout; multiplying the factors back gives A. After a secant (Hart) update the factors represent the documented updated matrix, within the existing layout.',
 ['inputs', 'histories'], 'every matrix pattern and values, and every sequence of set, fast set, update and solve calls',
 'The existing test solves one fixed matrix; fill-in outside the entries of the matrix and stale layouts depend on the pattern and history.',
 ['lu/LUFactorizer.h', 'lu/util.h'], ['skyline layout from the sparsity pattern', 'factorise and substitute', 'fast refill', 'Hart update'], ['solution vectors', 'factor elements'], ['layout', 'factors'])

prop('P17', 'Sparse matrices behave as the mathematical matrices they represent',
 'For every sequence of element writes, assignments, sums, differences, scalings, blocks, transposes, and products with vectors and matrices (of operands that do not overlap the result), reading a sparse matrix (in flexible or fast storage, or through a view) gives what the same operations give on plain dense matrices, with absent elements reading as zero, and sizes follow the operations. Operations do not change their operands.',
 ['inputs', 'histories', 'programs'], 'every sequence of operations on matrices of any size and pattern, including empty rows, empty matrices and views of views',
 'No existing stable test uses the sparse matrix beyond LU input; errors appear in combinations of views, storage kinds and non-square sizes.',
 ['la/SparseMatrixTemplate.h'], ['row maps and compressed storage', 'block, transpose and scale views'], ['element values and sizes', 'product vectors'], ['stored elements'])

prop('P18', 'Vectors and their views obey vector algebra and value semantics',
 'For every sequence of constructions, copies, resizes, element writes, sums, differences, scalings, norms and dot products on vectors and their block and scaled views, element values, sizes and results equal those of plain arrays: copies are independent, a new vector or grown element is zero, views read and write exactly the elements they denote, and a scaled view reads scaled values and leaves its source unchanged.',
 ['inputs', 'histories', 'programs'], 'every sequence of operations and views of views, for all sizes including empty (operands that overlap the result do so element by element)',
 'The two existing tests cover zero initialisation and the copy constructor only.', ['la/VectorTemplate.h'],
 ['expression views sharing storage'], ['element values, sizes, norms'], ['stored elements'])

prop('P19', 'Numerical Jacobians are the finite-difference derivatives, dense or sparse',
 'For every mapping, the dense Jacobian has in each column the forward difference of the mapping along that input, and the sparse calculator gives the same matrix for any mapping whose dependence pattern is the one it detected, while grouping inputs that share no output into one evaluation. The pattern is the one detected at the first evaluation after the last reset. Trimming removes exactly the elements its rule names and changes no other, and a Jacobian provider returns the Jacobian of the mapping and at the point it is asked for, with resets forgetting earlier patterns.',
 ['inputs', 'histories', 'configurations'], 'every mapping and dependence pattern, point, trimmer and sequence of provider calls',
 'No stable test computes a Jacobian; the grouping depends on the whole pattern.',
 ['alg/computeJacobian.h', 'alg/SparseJacobianCalculator.h', 'alg/SparseJacobianProvider.h', 'alg/DefaultJacobianProvider.h', 'alg/JacobianWidthBasedTrimmer.h', 'alg/JacobianThresholdBasedTrimmer.h'],
 ['column grouping (colouring)', 'trimmers'], ['matrix elements returned', 'points at which the mapping is evaluated'], ['detected pattern and column groups'])

prop('P20', 'Composed vector mappings compute the composition they describe',
 'For every mapping and configuration, a normalising, narrowing, reordering, diagonal or inverse mapping returns exactly what its description says about the underlying mapping: inputs and outputs are scaled, dropped (replaced by the given default values), or permuted as configured, the inverse undoes the mapping, sizes agree, and the underlying mapping is evaluated at the transformed input.',
 ['inputs', 'configurations'], 'every mapping, index selection, permutation and scale, for inputs and outputs independently',
 'No stable test uses these mappings.', ['alg/MappingNormalizer.h', 'alg/VectorNarrowingMapping.h', 'alg/VectorReorderingMapping.h', 'alg/DiagonalMapping.h', 'alg/interfaces/VectorBijectiveMapping.h', 'alg/interfaces/VectorMapping.h'],
 ['index lists and scale factors'], ['mapping results and sizes'])

prop('P21', 'Observers are called once each, in order, exactly while registered',
 'For every sequence of registrations, removals and notifications, a notification calls every currently registered observer exactly once, in registration order, with the arguments given, and no removed one; identifiers of registered observers are distinct, a scoped registration lasts until its holder (or the holder it was moved to) is finished or destroyed, and a notification whose observers may ask for termination reports that exactly when at least one of them asked.',
 ['histories'], 'every sequence of add, remove, move, destroy and notify operations',
 'No existing test uses observers on their own; wrong bookkeeping shows only in particular orders of adds and removes.',
 ['infra/cxx_observers.h'], ['list of identified callbacks', 'scoped holders'], ['calls received by the observers', 'identifiers', 'return value of a notification'], ['registered observers'])

prop('P22', 'Component configuration is a consistent tree of choices and parameters',
 'For every sequence of value assignments by path, a value read back is the one last set, an unset choice reads as its default, setting a parameter of a component affects that component and no other, changing the choice of a component gives the new component its own parameters, and the components built from a configuration have exactly the configured types and parameter values. Unknown paths, component types and malformed values are refused with an exception and leave the configuration as it was.',
 ['histories', 'configurations', 'inputs'], 'every sequence of assignments over the tree of components',
 'No existing test touches configuration.', ['infra/ComponentConfiguration.h', 'ode/OdeSolverConfiguration.h', 'infra/OptionalParameters.h'],
 ['tree of component configurations with nested parameters'], ['values read back', 'components built'], ['tree of choices and values'])

prop('P23', 'Optional parameters round-trip and convert as declared',
 'For every component and parameter set, the parameters read after writing are those written, parameters that are not mentioned keep their values, and unrelated names are ignored. A value converts to text, numbers, truth values and components and back without change (numbers to 16 significant digits), and a conversion that is not possible fails with an exception instead of giving another value.',
 ['inputs', 'configurations'], 'every parameter value, kind and subset of names',
 'No existing test touches parameters.', ['infra/OptionalParameters.h', 'ode/interfaces/OdeSolver.h', 'ode/OdeStepSizeSimpleController.h'],
 ['value type with conversions', 'load only what is present'], ['parameters read back', 'component behaviour'])

prop('P24', 'Factories create exactly the registered types, fresh each time',
 'For every set of registered types, a factory creates for each registered name a new object of the type registered under it, lists exactly the registered names, reports for each object the name it was registered with, and refuses an unknown name with an exception (a name is registered once). Shared components held by a holder are those last set, and every change notification of a holder runs once per change, after the new value is in place.',
 ['histories', 'configurations'], 'every sequence of registrations, creations, and holder changes',
 'No existing test uses factories or holders.', ['infra/Factory.h', 'infra/PerTypeStorage.h', 'infra/def_prop_class.h', 'infra/def_prop_vd_template_class.h'],
 ['registry per interface', 'property holders with change notifications'], ['objects created', 'names listed', 'notifications'], ['registry', 'held component'])

prop('P25', 'A configured run integrates from the start time to the end time',
 'For every configuration, a run starts the solver at the given time and state, makes at least one step and then exactly the steps needed to bring the time to or beyond start plus duration, tells each configured output of the beginning once before the first step and of the end once after the last, and leaves the solver in the final state; the components are wired so that solver, event control, error norm, Newton solver and outputs all refer to the configured right-hand side and parameters.',
 ['inputs', 'histories', 'configurations'], 'every configuration, initial state and duration',
 'No existing test runs the driver.', ['ode/OdeSolverConfiguration.h', 'ode/SpecifiedOdeInitState.h', 'ode/interfaces/OdeInitState.h', 'examples/odexec/odexec.cpp'],
 ['component wiring', 'driver loop'], ['steps made', 'output callbacks', 'final time and state'])

prop('P26', 'Outputs record exactly the steps that were due, with the true values',
 'For every run, the solution outputs contain the initial state and then one record for each accepted step at which the configured output interval has elapsed since the last record (every accepted step when it is zero), with the solver\'s time and selected state elements at that step; the column output keeps at most its maximum number of records, the step log reports each attempt it is due for with its true step size, error and flags, and the statistics totals equal the numbers of attempts, rejections, step size changes, truncations and right-hand side evaluations that happened.',
 ['histories', 'inputs', 'configurations'], 'every run, output interval, element limit and mixture of accepted, rejected and truncated steps',
 'No existing test produces output.', ['ode/ode_solver_output.h', 'ode/OdeVarNameGenerator.h'],
 ['time thinning', 'element selection', 'counters fed by observers'], ['text written by the outputs'], ['time of the last record', 'counters'])

prop('P27', 'Richardson estimation compares one step with two half steps everywhere',
 'For every solver, interval and step size, the Richardson error calculator starts each interval from the two-half-step solution, takes as error sample 2^p/(2^p-1) times the difference between the solution by two half steps and by one full step (p is the solver order), skips samples in which a step was rejected or truncated, and covers the whole duration; the resulting maximum, sum and count are those of the samples.',
 ['inputs', 'histories'], 'every system, solver, step size, duration and pattern of truncated steps',
 'The existing test file is not run and only prints values.', ['ode/util/RichardsonErrorCalculator.h', 'util/ErrorStats.h'],
 ['pairing of half and full steps from a common state'], ['error samples', 'statistics'], ['current time and state'])

prop('P28', 'Built-in models have the equations, events and parameters they document',
 'For every parameter setting, time and state, each built-in model (oscillator, coupled nonlinear oscillators, stiff scalar equation, bouncing ball, sliding point) returns the derivative its equations prescribe (springs acting on both their ends, friction opposing the velocity and saturating at f0 where its type says so, forces f, F1 and F2*sin(omega*t)), declares the numbers of variables and zero functions it has, keeps parameters that are not given, and refuses an unknown friction type; the ball that touches the plane falling rebounds with the recovery factor, comes to rest when it is slower than the stick speed or already goes up, and then stays at rest.',
 ['inputs', 'histories', 'configurations'], 'every parameter setting, state and sequence of events',
 'No stable test uses the models.', ['ode/test_models/Oscillator.h', 'ode/test_models/CoupledNonlinearOscillators.h', 'ode/test_models/StiffOde1D.h', 'ode/test_models/BouncingBall.h', 'ode/test_models/SlidingPoint.h'],
 ['right-hand sides', 'phase switches'], ['derivative, zero functions and switched states'], ['phase of the model'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
