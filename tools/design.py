"""Writes DESIGN.md: the general part, one section per property, planted changes."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import specs

PROPS = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
COST = json.load(open(os.path.join(HERE, 'tools', 'cost.json')))
PLANTED = json.load(open(os.path.join(HERE, 'tools', 'planted.json')))
HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()

ORACLE = {
 'P01': 'Harness `h_stages` (dp5.rs). The right-hand side returns a fresh arbitrary number per call and component and records its arguments. '
        'Oracle: the tableau written out from the published rationals in the harness; every recorded argument and the accepted state must equal '
        'the tableau combination of the recorded values, with the first stage being the value recorded at the current state.',
 'P02': 'Harness `h_accept`: arbitrary derivatives, so the embedded error is an arbitrary linear form of them. Oracle: the squared scaled norm from the '
        'published weights; acceptance (seen from outside as a change of time) must coincide with "norm at most one". `h_control` decides '
        'that a rejected attempt is followed by a smaller step.',
 'P03': 'Harness `h_control`: derivatives are set up so that the error norm of each attempt is an arbitrary number in [0,1e4]. Oracle: the '
        'controller formula of the statement evaluated on these numbers; powers are the same uninterpreted function on both sides, so the '
        'comparison is one of formulas.',
 'P04': 'Harness `h_dense`, through the hook for the dense output. Oracle: the polynomial from the published continuous-extension weights at an arbitrary '
        'position, and value and slope at the two ends.',
 'P05': 'Harness `h_newton`: arbitrary stage derivatives and Jacobian. The stage increments are observed as the arguments of consecutive '
        'evaluations; oracle: the simplified Newton system with the Radau IIA coefficients in closed form (no transformation matrices), multiplied out. '
        '`h_accept` and `h_convergence` repeat this after rejections and failed iterations with another Jacobian from each call.',
 'P06': 'The times and arguments of stage evaluations in `h_newton` and `h_guess`; oracle: closed-form abscissae, Lagrange cubic of the previous step.',
 'P07': 'Harness `h_linear`: right-hand side J u + g with symbolic coefficients. Oracle: the collocation system solved in closed form (the state '
        'must satisfy the rational stability function multiplied out; dimension 2 by adjugates).',
 'P08': 'Harness `h_accept`: stage increments, the derivative at the start and (when asked for) the second estimate are arbitrary. The right-hand side '
        'is chosen such that Newton converges in one iteration to the chosen increments. Oracle: filtered estimate with weights in closed form.',
 'P09': 'Harness `h_control`: error norm and number of iterations of every attempt are chosen by the harness. Oracle: controller formula.',
 'P10': 'Harness `h_convergence`: the norm of every Newton increment is an arbitrary number. Oracle: the stopping rules evaluated on these numbers; '
        'seen from outside as further evaluations, their times (step size) and Jacobian calls.',
 'P11': 'Harness `h_guess`, through the hook for the dense output. Oracle: Lagrange cubic through the four observed values at an arbitrary position.',
 'P18': 'Harness `h_elim`. Oracle: apply the recorded interchanges and multipliers backwards to the result and compare with the input, entry by entry.',
 'P19': 'As P12-P17 with the determinant by expansion as oracle: status zero if and only if it is nonzero.',
 'P20': 'Harness `h_differences`: affine right-hand sides. Oracle: recorded arguments of the differencing calls; the Newton system with '
        'the difference quotients as Jacobian.',
 'P21': 'Recorded arguments of the Jacobian calls in `h_control`, `h_convergence`, `h_callback`, `h_singular`; oracle: last accepted state and time; '
        'number and places of the calls by the rules of the statement.',
 'P22': 'Harness `h_grid` (and `h_callback`): error norms arbitrary. Oracle: order relations between start, accepted and final times; return code.',
 'P23': 'Harness `h_grid`; oracle: recorded evaluation times give the attempted steps.',
 'P24': 'Harness `h_grid` with a budget; oracle: numbers of accepted steps and attempts seen by the right-hand side, return code.',
 'P25': 'Harness `h_nonfinite`: the position of the non-finite value is a choice explored exhaustively, the values elsewhere are symbolic. NaN and '
        'infinities are concrete IEEE values in the executor.',
 'P26': 'Harnesses `h_giveup` (error norms too large) and `h_singular` (Jacobians that make the iteration matrix exactly singular); the step size '
        'shrinks through all of its range, up to 60 attempts.',
 'P27': 'Harness `h_grid`: recorded solution compared with what was seen after every step, all earlier entries compared again.',
 'P28': 'Harness `h_same`: four integrators on the same (symbolic) problem; oracle: each other.',
 'P29': 'Harness `h_solution`: records of symbolic numbers; oracle: the records themselves.',
 'P30': 'Harness `h_callback`: two runs on the same error norms, with and without callback; recorded evaluation points.',
 'P31': 'Harnesses `h_grid`, `h_control`, `h_convergence`: the right-hand side and Jacobian count their calls and classify them by their times.',
 'P32': 'Harness `h_params`: the functions compare the parameters they receive with the symbolic ones given.',
 'P33': 'Harness `h_options`: oracle is a copy of the option record, changed field by field; defaults as documented in the harness.',
 'P34': 'Harness `h_tolerances`: the formulas of the statement.',
}
LU = ('Harness `%s` (linalg.rs), through the hook. The factorisation and the solve run on symbolic matrices; pivot comparisons fork. Oracle: '
      'residual A x - b = 0, row by row, with the original matrix. Since every path ends with an explicit rational x, this is a '
      'polynomial identity per path, decided by normalisation or by the solver. Out-of-bounds accesses abort and count as violations.')
for p, h in (('P12', 'h_dense'), ('P13', 'h_dense_c'), ('P14', 'h_hess'), ('P15', 'h_hess_c'), ('P16', 'h_band'), ('P17', 'h_band_c')):
    ORACLE[p] = LU % h
NA = {x['property']: x['reason'] for x in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['not_applicable']}

out = [HEAD.rstrip(), '', '## Properties', '']
for p in PROPS:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    out.append('')
    if i in specs.SPECS:
        out += ['- **Specified**: ' + p['statement'], '- **How it is decided**: ' + ORACLE[i],
                '- **Bounds**: ' + specs.SPECS[i]['bounds'] + '.']
        c = COST.get(i)
        if c:
            out.append('- **Cost** (quick, 8 cores): %d s; %d paths, %d checks decided, %d solver queries, %.0f s of solver time, %d native replays.'
                       % (c['wall'], c['paths'], c['checks'], c['queries'], c['solver'], c['native']))
        out.append('- **Beyond the tests**: ' + p['why_tests_cant'])
        mine = [k for k, v in PLANTED.items() if v['property'] == i]
        if mine:
            out.append('- **Planted changes caught**: ' + ', '.join('`%s`' % k for k in mine) + '.')
    else:
        out += ['- **Specified**: ' + p['statement'], '- **Not applicable**: ' + NA[i]]
    out.append('')
out += ['## Planted changes', '',
        'Each lives in `seeded/<id>/`; every one compiles, passes the repository\'s tests and is shown by its `demo.sh`. '
        'Time is that of the quick check until it reported the violation.', '',
        '| change | property | what it breaks | caught | note |', '|---|---|---|---|---|']
for k, v in PLANTED.items():
    out.append('| %s | %s | %s | %s | %s |' % (k, v['property'], v['what'], v['caught'], v.get('note', '')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
