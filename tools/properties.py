"""Writes properties.jsonl (one place to edit the statements)."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe,
         'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


D5 = 'src/dorm_prince/dp5/'
RA = 'src/radau/'
INT = 'src/ode/integrator.rs'
ANYF = 'every right-hand side (arbitrary values per call), '

prop('P01', 'Dormand-Prince steps follow the 5(4) tableau for any right-hand side',
     'For any right-hand side, every evaluation the explicit method makes in a step attempt is at the abscissa and at the '
     'state prescribed by the Dormand-Prince 5(4) tableau for the current state, time and attempted step size. '
     'The accepted state is the fifth-order combination of the stage derivatives and the accepted time is the old time '
     'plus the attempted step. The first stage derivative is the one at the current state, whether it was reused from '
     'the previous step or survived rejected attempts.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'state, time, step size, tolerance pair, direction, dimension 1..3, and history of accepted and rejected '
     'attempts over two steps',
     'The tests integrate one smooth oscillator and print; a wrong coefficient, abscissa or a stale first stage after a '
     'rejection still gives a plausible curve.',
     [D5 + 'stages.rs', D5 + 'constants.rs', D5 + 'prepare.rs', D5 + 'algorithm.rs'],
     [('stage computation', D5 + 'stages.rs'), ('first-same-as-last reuse', D5 + 'prepare.rs')],
     ['arguments of the right-hand side calls', 'state and time after a step'])

prop('P02', 'Dormand-Prince accepts a step exactly when the scaled error is at most one',
     'A step attempt of the explicit method is accepted exactly when the root mean square over the components of the '
     'embedded error estimate divided by abstol + reltol * max(|old|, |new|) is at most one. '
     'The error estimate is the difference of the fifth- and fourth-order solutions of that attempt. '
     'A rejected attempt is repeated from the same state with a smaller step.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'state, step size, absolute and relative tolerance, dimension 1..3, direction and history of rejections',
     'Acceptance depends on the sign of a nonlinear expression of all stages; tests sit far from the boundary on one '
     'problem and never look at rejections.',
     [D5 + 'error.rs', D5 + 'stages.rs', D5 + 'prepare.rs', D5 + 'algorithm.rs'],
     [('error norm', D5 + 'error.rs'), ('accept/reject branch', D5 + 'prepare.rs')],
     ['whether the state advanced', 'number and times of right-hand side calls'])

prop('P03', 'Dormand-Prince proposes the step size of the stabilised PI controller',
     'After an accepted attempt with error norm e the next step size is the current one divided by '
     'e^(0.2-0.75*beta) / (p^beta * safe) clipped to [1/facr, 1/facl], where p is the error norm of the previously accepted '
     'step (at least 1e-4; 1e-4 before the first), then limited to dtmax in magnitude and, directly after a rejection, '
     'not larger than the step just made. After a rejected attempt it is the current one divided by '
     'min(1/facl, e^(0.2-0.75*beta)/safe). The proposal always points in the direction of integration.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'state, tolerances, controller options (safe, beta, facl, facr, dtmax, max_stiff), direction and history of up '
     'to three attempts',
     'A wrong exponent, clip, sign or memory still converges on smooth problems, only with more or fewer steps, which no '
     'test measures.',
     [D5 + 'prepare.rs', D5 + 'error.rs'],
     [('PI controller', D5 + 'prepare.rs')],
     ['step size of the integrator after each step', 'times of the right-hand side calls of the next attempt'])

prop('P04', 'Dormand-Prince dense output is the fourth-order interpolant of the step',
     'With dense output enabled, the interpolant of the last accepted step of the explicit method takes the old state at '
     'the start and the new state at the end of the step, its slope at both ends is the derivative there, and in between it '
     'is the continuous extension of the Dormand-Prince pair (weights of Hairer, Norsett and Wanner).',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'state, step size, direction, position inside the step, after one or two accepted steps with rejections between',
     'Nothing in the test suite calls the interpolant.',
     [D5 + 'dense.rs', D5 + 'prepare.rs', D5 + 'constants.rs'],
     [('continuous extension', D5 + 'dense.rs')],
     ['interpolated values'], 'read access to the interpolant (crate-private)')

prop('P05', 'Radau Newton corrections solve the simplified collocation system',
     'In every Newton iteration of a Radau5 step, the three stage increments move by the solution of the simplified Newton '
     'system of the 3-stage Radau IIA collocation equations: with F the right-hand side values at the current stages, J the '
     'Jacobian in use and h the attempted step size, (I - h A x J) dZ = h A F - Z. '
     'This holds for the first step and after rejected attempts, changes of step size and renewed Jacobians alike.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'Jacobian, state, step size, dimension 1..2, direction and history of attempts',
     'An inexact Newton matrix (wrong step size, stale decomposition, wrong sign) still converges more slowly on the tested '
     'problem, so the result looks right.',
     [RA + 'newton.rs', RA + 'dec.rs', RA + 'linear_solve.rs', RA + 'constants.rs', 'src/linalg/dec.rs', 'src/linalg/sol.rs'],
     [('transformed Newton iteration', RA + 'newton.rs'), ('decomposition', RA + 'dec.rs'), ('solve', RA + 'linear_solve.rs')],
     ['arguments of consecutive right-hand side calls'])

prop('P06', 'Radau stages are evaluated at the collocation points from the right guess',
     'Every Newton iteration of Radau5 evaluates the right-hand side at t + c_i h with c = ((4-sqrt6)/10, (4+sqrt6)/10, 1) '
     'for the attempted step h. '
     'The initial stage guess is the current state in the first step or when extrapolation is switched off, and otherwise '
     'the collocation polynomial of the last accepted step continued to the new stage times.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'state, step size, options for extrapolation, dimension 1..2, direction and history of accepted and rejected steps',
     'A wrong guess or abscissa only costs iterations or order on the single tested autonomous problem.',
     [RA + 'newton.rs', RA + 'constants.rs', RA + 'step_size_control.rs'],
     [('starting values', RA + 'newton.rs'), ('collocation coefficients', RA + 'step_size_control.rs')],
     ['times and states of right-hand side calls'])

prop('P07', 'Radau reproduces the Radau IIA solution on linear problems',
     'For a linear right-hand side u\' = J u + g with its exact Jacobian, an accepted Radau5 step of size h advances the '
     'state by exactly the 3-stage Radau IIA method, i.e. by the rational stability function '
     '(1+2z/5+z^2/20)/(1-3z/5+3z^2/20-z^3/60) with z = hJ when g = 0, regardless of the number of Newton iterations. '
     'The accepted time is the old time plus h.',
     ['inputs', 'histories', 'configurations'],
     'every matrix J with bounded entries, state, inhomogeneity, step size, dimension 1..2, direction, one or two steps',
     'The suite has one Radau test and asserts nothing about the solution.',
     [RA + 'newton.rs', RA + 'step_size_control.rs', RA + 'constants.rs', RA + 'dec.rs', RA + 'linear_solve.rs'],
     [('Newton iteration and transformation back', RA + 'newton.rs'), ('state update', RA + 'step_size_control.rs')],
     ['state after the step'])

prop('P08', 'Radau accepts a step exactly when the filtered error estimate is below one',
     'A Radau5 attempt whose Newton iteration converged is accepted exactly when the scaled root mean square of '
     '(gamma0/h I - J)^-1 (f(t,u) + E Z / h) is below one, where scaling uses abstol + reltol*|u| of the step start; in the '
     'first step or after a failed attempt an estimate of one or more is first replaced by the one recomputed with f at the '
     'state shifted by the estimate. An accepted step adds the last stage increment to the state; a rejected one leaves it.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'Jacobian, state, step size, tolerances, direction, dimension 1..2 and history of attempts',
     'Only one problem is run and rejections are never examined; a wrong filter or scale changes accuracy silently.',
     [RA + 'error_estimate.rs', RA + 'step_size_control.rs'],
     [('error estimate', RA + 'error_estimate.rs'), ('accept/reject branch', RA + 'step_size_control.rs')],
     ['whether the state advanced', 'arguments of the extra right-hand side call'])

prop('P09', 'Radau proposes the step size of the predictive controller',
     'After an accepted Radau5 step with error e and k Newton iterations the proposed step is h/q with '
     'q = clip(e^(1/4)/fac, facr, facl), fac = min(safe, safe*(1+2*maxnewton)/(k+2*maxnewton)), raised to the Gustafsson '
     'predictor of the last two accepted steps when that is enabled, limited to dtmax, to the step just made directly after '
     'a rejection, and kept unchanged when Newton converged fast and the ratio lies in [quot1, quot2]. '
     'After a rejected step it is h/q, or h/10 when no step was accepted yet.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'state, tolerances, controller options, direction and history of up to three attempts',
     'Step sizes are not observed by any test.',
     [RA + 'step_size_control.rs'],
     [('predictive controller', RA + 'step_size_control.rs')],
     ['step size of the integrator after each step', 'times of the next right-hand side calls'])

prop('P10', 'Radau only uses Newton results whose predicted error is small',
     'A Radau5 attempt proceeds to the error test only if the Newton iteration stopped with contraction factor times last '
     'increment at most the Newton tolerance, within the allowed number of iterations. '
     'When the contraction rate is at least 0.99, when the predicted final increment is too large, or when the iterations '
     'are used up, the attempt is abandoned: the state and time stay, and the next attempt uses a smaller step and a '
     'Jacobian at the current state.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'Jacobian, state, step size, Newton tolerance, iteration limit 1..4, direction',
     'Newton failure never occurs in the tests.',
     [RA + 'newton.rs', RA + 'algorithm.rs'],
     [('convergence control', RA + 'newton.rs')],
     ['number of right-hand side calls per attempt', 'step size of the next attempt', 'state'])

prop('P11', 'Radau dense output is the collocation polynomial of the step',
     'With dense output enabled, the interpolant of the last accepted Radau5 step takes the old state at the start of the '
     'step, the stage values at the two interior collocation points and the new state at the end, and is the cubic '
     'through these four values in between.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'state, step size, direction, position, dimension 1..2, after one or two accepted steps',
     'Nothing in the test suite calls the interpolant.',
     [RA + 'continuous_output.rs', RA + 'step_size_control.rs'],
     [('continuous output', RA + 'continuous_output.rs')],
     ['interpolated values'], 'read access to the interpolant (crate-private)')

LA = 'factorise-and-solve returns x with A x = b'
WHYLA = ('The tests factorise one or two fixed well-conditioned matrices; other pivot orders, shapes and bandwidths are '
         'never run, and several routines have no test at all.')


def lin(id, title, what, fn, text):
    prop(id, title,
         'For every %s the factorisation either reports singularity or the subsequent solve returns the exact solution of '
         'A x = b (in exact arithmetic), for every pivot order. No access outside the matrix happens.' % what,
         ['inputs', 'configurations'], text, WHYLA, ['src/linalg/dec.rs', 'src/linalg/sol.rs'],
         [('elimination with partial pivoting', 'src/linalg/dec.rs'), ('forward and back substitution', 'src/linalg/sol.rs')],
         ['solution vector', 'reported status'], 'call access to the crate-private routines')


lin('P12', 'Real dense factorisation and solve give the solution of the system', 'real dense matrix and right-hand side',
    'dec', 'all matrix entries and right-hand sides, dimension 1..4, all pivot orders')
lin('P13', 'Complex dense factorisation and solve give the solution of the system',
    'complex dense matrix and right-hand side', 'decc', 'all matrix entries and right-hand sides, dimension 1..3, all pivot orders')
lin('P14', 'Real Hessenberg-type factorisation and solve give the solution',
    'real matrix with a given lower bandwidth and right-hand side', 'dech',
    'all entries, dimension 1..5, every lower bandwidth, all pivot orders')
lin('P15', 'Complex Hessenberg-type factorisation and solve give the solution',
    'complex matrix with a given lower bandwidth and right-hand side', 'dechc',
    'all entries, dimension 1..4, every lower bandwidth, all pivot orders')
lin('P16', 'Real banded factorisation and solve give the solution',
    'real band matrix in packed storage and right-hand side', 'decb',
    'all entries, dimension 1..5, every lower and upper bandwidth, all pivot orders')
lin('P17', 'Complex banded factorisation and solve give the solution',
    'complex band matrix in packed storage and right-hand side', 'decbc',
    'all entries, dimension 1..4, every lower and upper bandwidth, all pivot orders')

prop('P18', 'Reduction to Hessenberg form is a similarity transformation',
     'Reducing a real matrix to upper Hessenberg form by elimination yields a matrix similar to the input: undoing the '
     'recorded row and column operations reproduces the input exactly (in exact arithmetic), for every pivot order and '
     'every active index range. Entries outside the active range are transformed consistently.',
     ['inputs', 'configurations'],
     'all matrix entries, dimension 1..4, every index range, all pivot orders',
     'No test calls the reduction.',
     ['src/linalg/dec.rs'], [('elimination with interchanges', 'src/linalg/dec.rs')],
     ['the reduced matrix, stored multipliers and interchanges'], 'call access to the crate-private routine')

prop('P19', 'Singular systems are reported and regular ones are not',
     'Each factorisation (dense, Hessenberg, banded; real and complex) returns success exactly when the matrix is regular; '
     'when it is singular a nonzero status is returned.',
     ['inputs', 'configurations'],
     'all matrices of dimension 1..3 (band and Hessenberg shapes with at least one subdiagonal), including all rank '
     'deficiencies and all pivot orders',
     'No test factorises a singular matrix.',
     ['src/linalg/dec.rs'], [('zero pivot test', 'src/linalg/dec.rs')],
     ['reported status'], 'call access to the crate-private routines')

prop('P20', 'Without a Jacobian, forward differences of the right-hand side are used',
     'When no Jacobian is supplied, each Jacobian is built from one evaluation at the current state and one per component '
     'with only that component increased by sqrt(eps*max(1e-5,|u_i|)), all at the current time. '
     'The Newton iteration then uses the resulting difference quotients, row by equation and column by component.',
     ['inputs', 'histories', 'configurations'],
     'every right-hand side that is affine in the state at the start of a step, state of either sign, direction, dimension 1..3; when built, '
     'after a rejected attempt and after slow convergence',
     'The only implicit test supplies its Jacobian.',
     ['src/ode/jacobian.rs', RA + 'algorithm.rs', RA + 'newton.rs'],
     [('forward differences', 'src/ode/jacobian.rs')],
     ['arguments of right-hand side calls', 'Newton corrections'])

prop('P21', 'The supplied Jacobian is evaluated at the current state and time',
     'When a Jacobian is supplied, no differencing evaluations are made, and every call of it receives the integrator\'s '
     'current (last accepted) state and time and the problem parameters. '
     'It is called when the integrator is built, after an accepted step whose Newton contraction exceeded the threshold, and '
     'after every failed attempt.',
     ['inputs', 'histories', 'configurations'],
     ANYF + 'Jacobian values, state, step size, tolerances, dimension 1..2, history of attempts',
     'A stale or misplaced Jacobian only slows Newton down; tests cannot see it.',
     [RA + 'newton.rs', RA + 'step_size_control.rs', RA + 'dec.rs', RA + 'algorithm.rs', 'src/ode/jacobian.rs'],
     [('Jacobian renewal', RA + 'step_size_control.rs')],
     ['arguments of the Jacobian calls'])

prop('P22', 'Accepted times move monotonically and end exactly at the final time',
     'For a non-empty time span in either direction, every accepted step moves the time strictly towards the final time and '
     'never past it, the right-hand side is never evaluated beyond the final time, and the integration reports success '
     'exactly when an accepted step ends at the final time.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of error norms, span, direction, initial and maximal step, both algorithms, up to three steps with rejections, callbacks '
     'that move the time',
     'Tests integrate forward over one span and do not check where the last step ends.',
     [D5 + 'algorithm.rs', D5 + 'prepare.rs', RA + 'algorithm.rs', RA + 'step_size_control.rs'],
     [('last-step adjustment', D5 + 'algorithm.rs'), ('last-step adjustment', RA + 'step_size_control.rs')],
     ['accepted times', 'right-hand side times', 'return code'])

prop('P23', 'The first step and the step limit follow the options and direction',
     'The first attempted step has the magnitude of the configured initial step, limited by the configured maximum and by '
     'the distance to the final time, and points towards the final time. '
     'No attempted step exceeds the configured maximum in magnitude, except that the last step may stretch by at most one '
     'percent to hit the final time.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of error norms, initial step, maximum step, span, direction, both algorithms, order of the option calls, up to three steps',
     'Tests use the defaults, for which the limits are inactive.',
     [INT, D5 + 'algorithm.rs', D5 + 'prepare.rs', RA + 'algorithm.rs', RA + 'step_size_control.rs'],
     [('initial step', INT), ('dtmax clamp', D5 + 'prepare.rs'), ('dtmax clamp', RA + 'step_size_control.rs')],
     ['times of right-hand side calls', 'step size after building'])

prop('P24', 'The step budget is honoured exactly',
     'With a budget of m steps the explicit method accepts at most m steps and the implicit one makes at most m attempts. '
     'When the budget ends before the final time the integration stops with the iteration-limit code and the last accepted '
     'state; reaching the final time within the budget reports success.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of error norms, budget 1..3, span, step size, both algorithms, histories of accepted and rejected attempts',
     'The default budget of 100000 is never reached in tests.',
     [D5 + 'algorithm.rs', RA + 'algorithm.rs', INT],
     [('step budget', D5 + 'algorithm.rs'), ('step budget', RA + 'algorithm.rs')],
     ['return code', 'number of accepted steps', 'number of attempts'])

prop('P25', 'Non-finite derivatives are never accepted into the solution',
     'If the right-hand side, which gives non-finite values for non-finite arguments, returns NaN or an infinity anywhere in a step attempt, that attempt is not accepted: state, time and the '
     'recorded solution keep the last finite values, and the step size is reduced. '
     'If it keeps doing so the integration ends with the step-too-small code instead of looping or panicking.',
     ['inputs', 'histories', 'fault_sequences'],
     'every position of the non-finite value (stage, iteration, component) and every value elsewhere; both algorithms; '
     'single faults and persistent faults',
     'No test produces a non-finite value.',
     [D5 + 'prepare.rs', D5 + 'error.rs', D5 + 'algorithm.rs', RA + 'newton.rs', RA + 'error_estimate.rs', RA + 'step_size_control.rs'],
     [('acceptance comparisons', D5 + 'prepare.rs'), ('acceptance comparisons', RA + 'step_size_control.rs')],
     ['state and recorded solution', 'return code'])

prop('P26', 'Giving up leaves the last accepted state and reports why',
     'When a step cannot be completed because the step size became too small or the iteration matrices stay singular, the '
     'integration stops with the corresponding code, and state, time and recorded solution are those of the last accepted '
     'step. Singular iteration matrices are retried with half the step at most four times in total before giving up.',
     ['inputs', 'histories', 'fault_sequences'],
     'every start time away from zero, error norms too large from some step on, both algorithms; zero to five singular matrices in each of two steps',
     'No test makes an integration fail.',
     [D5 + 'algorithm.rs', RA + 'algorithm.rs', RA + 'dec.rs'],
     [('step size floor', D5 + 'algorithm.rs'), ('singular matrix handling', RA + 'dec.rs')],
     ['return code', 'state, time and recorded solution'])

prop('P27', 'The recorded solution is the sequence of accepted states',
     'The recorded solution starts with the initial time and state and gains exactly one entry per accepted step, equal to '
     'the time and state right after that step; earlier entries never change. '
     'After a step the integrator also exposes the previous time, state and step size of that step.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of error norms, span, step size, both algorithms, dimension 1..2, histories of up to three steps with rejections',
     'Tests print the record without comparing it with the states.',
     [D5 + 'algorithm.rs', RA + 'step_size_control.rs', INT, 'src/ode/solution.rs'],
     [('recording', D5 + 'algorithm.rs'), ('recording', RA + 'step_size_control.rs')],
     ['recorded times and states', 'integrator fields'])

prop('P28', 'Stepping, integrating and iterating visit the same accepted states',
     'Calling step until it reports the end, calling integrate, and consuming either iterator produce the same accepted '
     'times and states, and the iterators yield every accepted state including the final one exactly once. '
     'Once the integration has finished, further steps change nothing and yield nothing.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of error norms, span, both algorithms and directions, ending by success, too small a step, or the step '
     'budget within three steps',
     'Tests use one of the interfaces at a time and never continue after the end.',
     [INT], [('iterators', INT), ('step and integrate', INT)],
     ['yielded items', 'recorded solution'])

prop('P29', 'Iterating a solution yields each time with its own state in order',
     'Iterating over a solution, by value or by reference, yields the recorded (time, state) pairs in recording order, each '
     'exactly once, and stops at the shorter of the two sequences.',
     ['inputs', 'configurations'],
     'all times and states, record lengths 0..4 for either sequence',
     'Tests only print the pairs.',
     ['src/ode/solution.rs'], [('solution iterators', 'src/ode/solution.rs')],
     ['yielded items'])

prop('P30', 'Callback changes to the integrator take effect from the next step on',
     'A registered callback runs exactly once per step call, after the step\'s effects, and sees them. '
     'If it changes the state or time, the next step starts from the changed values: its first-stage derivative is evaluated '
     'there; a callback that changes nothing leaves the accepted states as they are without it.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of error norms, callback-made changes of the state and the time, span, step size, both algorithms, two steps',
     'No test registers a callback.',
     [INT, D5 + 'algorithm.rs', RA + 'algorithm.rs'],
     [('callback invocation', INT), ('refresh of the derivative', D5 + 'algorithm.rs')],
     ['callback invocations', 'arguments of right-hand side calls', 'states'])

prop('P31', 'Statistics count what actually happened',
     'After every step, the counters equal the numbers of accepted steps, of attempts rejected by the error test after the first acceptance, '
     'of right-hand side evaluations made while stepping (difference quotients excepted), of Jacobian evaluations, of '
     'successful matrix decompositions and of Newton solves; steps counts accepted steps for the explicit and attempts for '
     'the implicit method.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of error norms and Newton increments, span, step size, both algorithms, histories of up to three steps with '
     'rejections and Newton failures',
     'No test reads the statistics.',
     ['src/ode/statistics.rs', D5 + 'stages.rs', D5 + 'prepare.rs', RA + 'newton.rs', RA + 'step_size_control.rs',
      RA + 'dec.rs', RA + 'error_estimate.rs', RA + 'algorithm.rs'],
     [('counters', 'src/ode/statistics.rs')],
     ['statistics fields'])

prop('P32', 'The right-hand side and Jacobian always receive the problem parameters',
     'Every call of the right-hand side and of the Jacobian receives the parameters given when the integrator was built, '
     'unchanged; the integrator never modifies them, and a change made to the integrator\'s parameters between steps is seen '
     'by all later calls.',
     ['inputs', 'histories', 'configurations'],
     'all parameter values, both algorithms, with and without Jacobian and callback, up to two steps',
     'Tests use one constant parameter.',
     [INT, D5 + 'stages.rs', D5 + 'algorithm.rs', RA + 'newton.rs', 'src/ode/jacobian.rs'],
     [('parameter passing', INT)],
     ['parameters seen by the callbacks'])

prop('P33', 'Builder options reach the integrator unchanged and independently',
     'Each builder option sets exactly the integrator option of that name to the given value and no other, in any order of '
     'calls; options not set keep the documented default of the algorithm, and initial state, time span and direction are '
     'those given.',
     ['inputs', 'configurations'],
     'all option values, each option alone and all together in two orders, both algorithms',
     'Tests set only the two tolerances.',
     [INT, 'src/ode/options.rs', D5 + 'algorithm.rs', RA + 'algorithm.rs'],
     [('builder', INT)],
     ['option fields of the built integrator'])

prop('P34', 'Radau derives its internal tolerances as documented for RADAU5',
     'Building a Radau5 integrator replaces the relative tolerance r by 0.1*r^(2/3) and the absolute tolerance a by that '
     'times a/r, so that their ratio is kept, and, unless set by the user, chooses the Newton tolerance '
     'max(10*eps/r\', min(0.03, sqrt(r\'))) from the new relative tolerance r\'.',
     ['inputs', 'configurations'],
     'all positive tolerances in [1e-10, 1], user Newton tolerances, both orders of the option calls',
     'Tests use one tolerance pair and do not look at the derived values.',
     [RA + 'algorithm.rs'], [('tolerance transformation', RA + 'algorithm.rs')],
     ['option fields of the built integrator'])

prop('P35', 'Global error stays proportional to the tolerance on nonlinear problems',
     'On any smooth nonlinear problem the difference between the computed and the exact solution at the final time is bounded '
     'by a problem-dependent constant times the requested tolerance, for both algorithms.',
     ['inputs', 'programs'],
     'every smooth right-hand side, span and tolerance',
     'Tests cover a handful of problems.',
     [D5 + 'stages.rs', RA + 'newton.rs'], [('error control', D5 + 'prepare.rs')], ['final state'])

prop('P36', 'Rounding in the linear solvers stays backward stable',
     'In double precision, the computed solution of each factorise-and-solve pair is the exact solution of a system whose '
     'entries differ from the given ones by a modest multiple of the unit roundoff times the growth factor.',
     ['inputs'],
     'all double precision matrices without overflow',
     'Tests compare two fixed systems to 1e-15.',
     ['src/linalg/dec.rs', 'src/linalg/sol.rs'], [('partial pivoting', 'src/linalg/dec.rs')], ['solution vector'])

with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
