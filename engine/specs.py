"""What is run for each property: harness, splits, bounds, witnesses."""


def split(bin, harness, choices, **kw):
    """One job per combination of the given choice values."""
    out = [{}]
    for tag, vals in choices.items():
        out = [dict(o, **{tag: v}) for o in out for v in vals]
    out = [{int(k): v for k, v in o.items()} for o in out]
    return [dict(bin=bin, harness=harness, fixed=f, **kw) for f in out]


SPECS = {}
# times and states
UNITS = '; also with times in units of 2^-30 and states in units of 2^-40, and with times in units of 2^20 and states in units of 2^30'
SPECS['P01'] = dict(
    jobs=split('dp5', 'h_stages', {'900': [0, 1], '901': [0, 1], '950': [0]})
         + split('dp5', 'h_stages', {'900': [2], '901': [0, 1], '950': [0]})
         + split('dp5', 'h_stages', {'900': [1], '901': [0], '950': [1, 2]}),
    reach={'h_stages': [1, 2, 3]},
    bounds='dimension 1..3, both directions, two steps with up to two rejected attempts; start time in [-2,2], '
           'span length in [0.25,2], step size in [0.001,0.5], state and every derivative component in [-10,10]' + UNITS,
)

EX = dict(exact=True)
CONTROL = split('dp5', 'h_control', {'900': [0, 1], '901': [0, 1], '902': [3], '903': [0], '904': [0], '906': [2], '950': [0]}, cfg=EX) \
    + split('dp5', 'h_control', {'900': [0, 1], '901': [0, 1], '902': [2], '903': [0], '904': [1], '906': [2], '950': [0]}, cfg=EX) \
    + split('dp5', 'h_control', {'900': [0], '901': [0, 1], '902': [2], '903': [1], '904': [0], '905': [0, 1], '906': [2], '950': [0]}, cfg=EX, cost=3) \
    + split('dp5', 'h_control', {'900': [0], '901': [0], '902': [2], '903': [0], '904': [1], '906': [2], '950': [1, 2]}, cfg=EX, cost=2) \
    + split('dp5', 'h_control', {'900': [0], '901': [1], '902': [2], '903': [1], '904': [0], '905': [0], '906': [2], '950': [1, 2]}, cfg=EX, cost=2)
SPECS['P02'] = dict(
    jobs=split('dp5', 'h_accept', {'900': [0], '901': [0, 1], '902': [2], '905': [1], '950': [0]}, cfg=EX, cost=4)
         + split('dp5', 'h_accept', {'900': [0], '901': [1], '902': [2], '905': [1], '950': [1, 2]}, cfg=EX, cost=4)
         + split('dp5', 'h_accept', {'900': [1], '901': [0, 1], '902': [1], '905': [1], '950': [0]}, cfg=EX, cost=3)
         + split('dp5', 'h_accept', {'900': [2], '901': [0, 1], '902': [1], '905': [0], '950': [0]}, cfg=EX, cost=2)
         + [dict(j, tags=[20, 21, 22]) for j in CONTROL],
    reach={'h_accept': [1, 2, 3], 'h_control': [1, 2, 3]},
    bounds='dimension 1 with two steps and three attempts in all, 2 with two steps and two attempts, 3 with one step and two attempts; '
           'both directions; step size in [0.01,0.5], tolerances in [1e-3,10], state and every derivative component in [-10,10]; '
           'the smaller next step for every error norm in (1,1e4] over up to four attempts' + UNITS,
)
SPECS['P03'] = dict(
    jobs=CONTROL, tags=[30, 31, 32], reach={'h_control': [1, 2, 3, 4]},
    bounds='up to four attempts over up to three steps, the error norm of each anywhere in [0,1e4]; both directions; step size in '
           '[0.01,0.5]; default options near and far from the final time; safe in [0.5,1], facl in [0.1,0.9], facr in [1.5,20], dtmax in '
           '[0.01,1] with beta 0.04 or 0 and stiffness detection in every step far from it; dimension 1..2' + UNITS,
)
SPECS['P04'] = dict(
    jobs=split('dp5', 'h_dense', {'900': [0, 1, 2], '901': [0, 1], '902': [2], '904': [0, 1], '950': [0]}, cfg=EX)
         + split('dp5', 'h_dense', {'900': [1], '901': [1], '902': [2], '904': [1], '950': [1, 2]}, cfg=EX),
    reach={'h_dense': [1, 2, 3]},
    bounds='dimension 1..3, both directions, two steps with three attempts in all, any position in the step, last step or not; step size '
           'in [0.01,0.5], state and every derivative component in [-10,10]' + UNITS,
)


def sharded(n, depth, jobs):
    """Split every job into n by the outcome of its first decisions."""
    return [dict(j, cfg=dict(j.get('cfg', {}), shard=(i, n, depth)), cost=j.get('cost', 5)) for j in jobs for i in range(n)]


# entries of larger matrices are integers except for one; see DESIGN.md
ONE = dict(exact=True, generic=True)
LU_BOUNDS = 'all matrix entries and right-hand side components in [-10,10]; '
SOLVE = [1, 2]
ALL = [1, 2, 10, 11, 12]

SPECS['P12'] = dict(
    jobs=split('linalg', 'h_dense', {'900': [0, 1, 2]})
         + sharded(16, 14, split('linalg', 'h_dense', {'900': [3]}))
         + split('linalg', 'h_dense', {'900': [4]}, cfg=ONE),
    tags=SOLVE, reach={'h_dense': [1, 2]},
    bounds=LU_BOUNDS + 'dimension 1..4 in full with all pivot orders and vanishing entries; dimension 5 with one arbitrary '
                       'entry in an integer matrix (each of the 25 positions), no intermediate value vanishing',
)
SPECS['P13'] = dict(
    jobs=split('linalg', 'h_dense_c', {'900': [0, 1]}) + split('linalg', 'h_dense_c', {'900': [2]}, cfg=ONE),
    tags=SOLVE, reach={'h_dense_c': [1, 2]},
    bounds=LU_BOUNDS + 'dimension 1..2 in full with all pivot orders and vanishing entries; dimension 3 with one arbitrary '
                       'complex entry in an integer matrix (each of the 9 positions), no intermediate value vanishing',
)
SPECS['P14'] = dict(
    jobs=split('linalg', 'h_hess', {'900': [0, 1, 2], '901': [0, 1, 2]})
         + split('linalg', 'h_hess', {'900': [3], '901': [0, 1]}, cost=3)
         + sharded(8, 14, split('linalg', 'h_hess', {'900': [3], '901': [2]}))
         + split('linalg', 'h_hess', {'900': [4], '901': [0, 1, 2, 3, 4]}, cfg=ONE),
    tags=SOLVE, reach={'h_hess': [1, 2]},
    bounds=LU_BOUNDS + 'dimension 1..3 with every lower bandwidth and dimension 4 with lower bandwidth 0..2 in full; dimension 5 with '
                       'every lower bandwidth and one arbitrary entry in an integer matrix, no intermediate value vanishing',
)
SPECS['P15'] = dict(
    jobs=split('linalg', 'h_hess_c', {'900': [0, 1], '901': [0, 1]})
         + split('linalg', 'h_hess_c', {'900': [2], '901': [0, 1, 2]}, cfg=ONE)
         + split('linalg', 'h_hess_c', {'900': [3], '901': [0, 1]}, cfg=ONE, cost=4),
    tags=SOLVE, reach={'h_hess_c': [1, 2]},
    bounds=LU_BOUNDS + 'dimension 1..2 with every lower bandwidth in full; dimension 3 with every lower bandwidth and dimension 4 with '
                       'lower bandwidth 0..1 with one arbitrary complex entry in an integer matrix, no intermediate value vanishing; '
                       'with lower bandwidth 0 the diagonal is assumed nonzero',
)
SPECS['P16'] = dict(
    jobs=split('linalg', 'h_band', {'900': [0, 1, 2], '901': [0, 1, 2], '902': [0, 1, 2]})
         + split('linalg', 'h_band', {'900': [3], '901': [0, 1], '902': [0, 1, 2, 3]}, cost=3)
         + sharded(8, 14, split('linalg', 'h_band', {'900': [3], '901': [2], '902': [0, 1]}))
         + split('linalg', 'h_band', {'900': [4], '901': [0, 1, 2], '902': [0, 1, 2, 3]}, cfg=ONE),
    tags=SOLVE, reach={'h_band': [1, 2]},
    bounds=LU_BOUNDS + 'dimension 1..3 with every pair of bandwidths and dimension 4 with lower bandwidth 0..1 (any upper) or 2 (upper 0..1) '
                       'in full; dimension 5 with lower bandwidth 0..2 and upper 0..3 with one arbitrary entry in an integer matrix, no '
                       'intermediate value vanishing; with lower bandwidth 0 the diagonal is assumed nonzero',
)
SPECS['P17'] = dict(
    jobs=split('linalg', 'h_band_c', {'900': [0, 1], '901': [0, 1], '902': [0, 1]})
         + split('linalg', 'h_band_c', {'900': [2], '901': [0, 1, 2], '902': [0, 1, 2]}, cfg=ONE)
         + split('linalg', 'h_band_c', {'900': [3], '901': [0, 1], '902': [0, 1, 2]}, cfg=ONE, cost=3),
    tags=SOLVE, reach={'h_band_c': [1, 2]},
    bounds=LU_BOUNDS + 'dimension 1..2 with every pair of bandwidths in full; dimension 3 with every pair and dimension 4 with lower bandwidth '
                       '0..1 and upper 0..2 with one arbitrary complex entry in an integer matrix, no intermediate value vanishing; with lower '
                       'bandwidth 0 the diagonal is assumed nonzero',
)
SPECS['P18'] = dict(
    jobs=split('linalg', 'h_elim', {'900': [0, 1, 2]}) + split('linalg', 'h_elim', {'900': [3], '901': [0, 1, 2, 3]}, cost=3),
    reach={'h_elim': [1]},
    bounds='dimension 1..4 with every active range, all entries in [-10,10], all pivot orders and vanishing entries',
)
SPECS['P19'] = dict(
    jobs=split('linalg', 'h_dense', {'900': [0, 1, 2]})
         + split('linalg', 'h_hess', {'900': [1, 2], '901': [1, 2]}) + split('linalg', 'h_hess', {'900': [3], '901': [1]}, cost=3)
         + split('linalg', 'h_band', {'900': [1, 2], '901': [1, 2], '902': [0, 1, 2]}, cost=2)
         + split('linalg', 'h_dense_c', {'900': [0, 1]}) + split('linalg', 'h_hess_c', {'900': [1], '901': [1]})
         + split('linalg', 'h_band_c', {'900': [1], '901': [1], '902': [0, 1]}),
    tags=ALL, reach={'h_dense': [1, 2], 'h_hess': [1, 2], 'h_band': [1, 2], 'h_dense_c': [1, 2], 'h_hess_c': [1, 2],
                     'h_band_c': [1, 2]},
    bounds=LU_BOUNDS + 'real matrices of dimension 1..3 (Hessenberg with one subdiagonal: 4), complex ones of dimension 1..2, bandwidths at '
                       'least one below the diagonal',
)

# Radau5.  Constants are taken to 40 significant bits; see DESIGN.md
SN = dict(snap=True)
STEP = 'start time in [-2,2], state in [-10,10], '
def plain(jobs, **kw):
    """Fix further choices where the job leaves them open."""
    return [dict(j, fixed={**{int(k[1:]): v for k, v in kw.items()}, **j['fixed']}) for j in jobs]


NEWTON = plain(
    split('radau', 'h_newton', {'900': [0], '901': [0, 1], '902': [0, 1, 2], '904': [1], '905': [1], '907': [1]}, cost=6)
    + split('radau', 'h_newton', {'900': [1], '901': [0, 1], '902': [0], '904': [2], '905': [0], '907': [0]}, cost=6)
    + split('radau', 'h_newton', {'900': [1, 2], '901': [0, 1], '902': [0, 2], '904': [3], '905': [0], '907': [0]}, cost=2)
    + split('radau', 'h_newton', {'900': [0], '901': [0], '902': [0], '904': [1], '905': [1], '907': [1], '950': [1, 2]}, cost=6), c950=0)
R_ACCEPT = plain(
    split('radau', 'h_accept', {'900': [0], '901': [0, 1], '902': [1], '904': [0], '905': [1]}, cfg=SN)
    + split('radau', 'h_accept', {'900': [0], '901': [0, 1], '902': [2], '904': [0, 3], '905': [0]}, cfg=SN)
    + split('radau', 'h_accept', {'900': [1], '901': [0, 1], '902': [1], '904': [0, 3], '905': [0]}, cfg=SN, cost=4)
    + split('radau', 'h_accept', {'900': [2], '901': [0, 1], '902': [1], '904': [0], '905': [0]}, cfg=SN, cost=2)
    + split('radau', 'h_accept', {'900': [2], '901': [0, 1], '902': [0], '904': [3], '905': [0]}, cfg=SN, cost=2)
    + split('radau', 'h_accept', {'900': [0], '901': [0, 1], '902': [1], '904': [0], '905': [1], '950': [1, 2]}, cfg=SN), c950=0)
R_FAIL = plain(
    split('radau', 'h_control', {'901': [0, 1], '902': [2], '903': [0, 3], '904': [0], '905': [1], '906': [1], '907': [0], '909': [1, 2, 3]}, cfg=SN)
    + split('radau', 'h_control', {'901': [0, 1], '902': [3], '903': [0], '904': [0], '905': [2], '906': [1], '907': [0], '909': [1]}, cfg=SN, cost=4),
    c950=0)
R_PAST = plain(
    split('radau', 'h_control', {'901': [0, 1], '902': [2], '903': [0], '904': [0], '905': [2], '906': [1], '907': [0]}, cfg=SN, cost=4)
    + split('radau', 'h_control', {'901': [0, 1], '902': [3], '903': [0, 3], '904': [0], '905': [2], '906': [2], '907': [0]}, cfg=SN, cost=3)
    + split('radau', 'h_control', {'901': [0, 1], '902': [4], '903': [0, 3], '904': [0], '905': [2], '906': [3], '907': [0]}, cfg=SN, cost=3)
    + split('radau', 'h_control', {'901': [1], '902': [4], '903': [0], '904': [0], '905': [2], '906': [4], '907': [0]}, cfg=SN, cost=6)
    + split('radau', 'h_control', {'901': [0, 1], '902': [3], '903': [0], '904': [0], '905': [2], '906': [2], '907': [0], '950': [1, 2]}, cfg=SN),
    c909=0, c950=0)
R_CONTROL = plain(
    split('radau', 'h_control', {'901': [0, 1], '902': [2], '903': [0, 1, 2, 3], '904': [0, 1], '905': [0]}, cfg=SN)
    + sharded(4, 8, split('radau', 'h_control', {'901': [0, 1], '902': [1], '903': [0], '904': [0], '905': [1]}, cfg=SN))
    + sharded(2, 8, split('radau', 'h_control', {'901': [0], '902': [1], '903': [0], '904': [1], '905': [1], '907': [0]}, cfg=SN))
    + split('radau', 'h_control', {'901': [1], '902': [1], '903': [3], '904': [0], '905': [1]}, cfg=SN, cost=3)
    + split('radau', 'h_control', {'901': [0, 1], '902': [2], '903': [0], '904': [1], '905': [0], '950': [1, 2]}, cfg=SN),
    c906=0, c909=0, c950=0) + R_PAST + R_FAIL
R_CONV = plain(
    split('radau', 'h_convergence', {'900': [0, 1, 2], '901': [0, 1], '902': [2], '904': [0]}, cfg=SN, cost=2)
    + split('radau', 'h_convergence', {'900': [3], '901': [0, 1], '902': [1], '904': [0]}, cfg=SN, cost=5)
    + split('radau', 'h_convergence', {'900': [1], '901': [0, 1], '902': [2], '904': [1]}, cfg=SN)
    + split('radau', 'h_convergence', {'900': [0, 1, 2], '901': [0, 1], '902': [2], '904': [0], '906': [1]}, cfg=SN)
    + split('radau', 'h_convergence', {'900': [3], '901': [0, 1], '902': [2], '904': [0], '906': [1]}, cfg=SN, cost=2)
    + split('radau', 'h_convergence', {'900': [1], '901': [0, 1], '902': [2], '904': [1], '906': [1]}, cfg=SN)
    + split('radau', 'h_convergence', {'900': [2], '901': [0, 1], '902': [2], '904': [0], '950': [1, 2]}, cfg=SN)
    + split('radau', 'h_convergence', {'900': [1, 2], '901': [0, 1], '902': [1], '904': [0], '905': [1]}, cfg=SN)
    + split('radau', 'h_convergence', {'900': [1], '901': [0, 1], '902': [2], '904': [0], '905': [2], '906': [1]}, cfg=SN),
    c905=0, c906=0, c950=0)
R_GUESS = plain(
    split('radau', 'h_guess', {'900': [0, 1, 2], '901': [0, 1]}) + split('radau', 'h_guess', {'900': [1], '901': [0, 1], '950': [1, 2]}), c950=0)

SPECS['P05'] = dict(
    jobs=[dict(j, tags=[51, 52]) for j in NEWTON]
         + [dict(j, tags=[64, 65, 66]) for j in R_ACCEPT] + [dict(j, tags=[80, 82, 86]) for j in R_CONV if j['fixed'][904]],
    reach={'h_newton': [1, 2], 'h_accept': [1, 2, 3, 4], 'h_convergence': [1, 2, 3, 5]},
    bounds='both directions; dimension 1 with any Jacobian entry in [-5,5] and step size in [0.02,0.1], up to three iterations of the first '
           'attempt and of the step after an accepted one (same or other step size), derivatives in [-10,10]; dimension 2 with one arbitrary '
           'Jacobian entry in an integer matrix, two iterations; after up to two rejected attempts and up to two failed iterations with a '
           'different Jacobian from each call, dimension 1..3 (integer Jacobians in dimension 3), and in the step after an accepted one; ' + STEP.rstrip(', ')
           + UNITS,
)
SPECS['P06'] = dict(
    jobs=[dict(j, tags=[50]) for j in NEWTON if j['fixed'][900] == 0] + [dict(j, tags=[50, 53]) for j in R_GUESS],
    reach={'h_newton': [1, 2], 'h_guess': [1, 2, 3, 4]},
    bounds='dimension 1..3, both directions, first attempt, the attempt after a rejected one and the step after an accepted one, extrapolated '
           'and zero starting values, stage increments in [-10,10], step sizes in [0.02,0.5]; ' + STEP.rstrip(', ') + UNITS,
)
SPECS['P07'] = dict(
    jobs=plain(
        split('radau', 'h_linear', {'900': [0, 1], '901': [0, 1], '902': [0, 1], '904': [0], '905': [1]}, cfg=SN)
        + split('radau', 'h_linear', {'900': [0], '901': [0, 1], '902': [0], '904': [1], '905': [0]}, cfg=SN)
        + split('radau', 'h_linear', {'900': [0], '901': [0, 1], '902': [0], '904': [3], '905': [1]}, cfg=SN)
        + split('radau', 'h_linear', {'900': [1], '901': [0, 1], '902': [0, 1], '904': [3], '905': [1]}, cfg=SN)
        + split('radau', 'h_linear', {'900': [1], '901': [0, 1], '902': [0], '904': [1, 2], '905': [1]}, cfg=SN, cost=5)
        + split('radau', 'h_linear', {'900': [2], '901': [0, 1], '902': [0], '904': [3], '905': [1]}, cfg=SN)
        + split('radau', 'h_linear', {'900': [1], '901': [0, 1], '902': [0], '904': [1], '905': [0], '950': [1]}, cfg=SN)
        + split('radau', 'h_linear', {'900': [0], '901': [0, 1], '902': [1], '904': [0], '905': [1], '950': [2]}, cfg=SN), c950=0),
    reach={'h_linear': [1, 2]},
    bounds='both directions, one and two steps; dimension 1 with coefficient in [-5,5], step size in [0.02,0.1]; dimension 2 with all four '
           'coefficients in [-5,5], fixed step sizes; constant term in [-5,5]; large tolerances (one iteration), and the default ones for zero '
           'and integer coefficients; dimension 3 with integer coefficients; ' + STEP.rstrip(', ') + UNITS,
)
SPECS['P08'] = dict(
    jobs=[dict(j, tags=[60, 61, 62, 63, 64, 65, 67, 68]) for j in R_ACCEPT] + [dict(j, tags=[60, 61, 63]) for j in R_FAIL],
    reach={'h_accept': [1, 2, 3, 4], 'h_control': [6]},
    bounds='both directions, dimension 1 with up to three attempts of the first step and two attempts over two steps, dimension 2..3 with two '
           'attempts; a second step whose first attempt has a failing Newton iteration; any stage increments, derivatives and state in [-10,10], tolerances in [1e-4,10]; Jacobian zero with any step size in '
           '[0.02,0.1], and integer Jacobians (another from each call) with step size 0.0625' + UNITS,
)
SPECS['P09'] = dict(
    jobs=R_CONTROL, tags=[70, 71, 72, 74, 75], reach={'h_control': [1, 3, 4, 5, 6, 7]},
    bounds='both directions, up to three attempts of the first step and two attempts over two steps, the error norm of each anywhere in [0,1e4]; '
           'one to three Newton iterations with fast and slow convergence; first step size in [0.01,0.5]; default options, classical prediction, '
           'and for the first step safe in [0.5,0.95], facl in [1.1,10], facr in [0.05,0.9], dtmax in [0.01,1], quot1 in [0.8,1], quot2 in '
           '[1.1,1.5]; far from and near the final time; third steps after two accepted ones, also when the first or the second was rejected once '
           'before, with those error norms given and one to two attempts with any error norm after them; second steps that begin with a failing '
           'Newton iteration (by rate, by predicted increment, by number)' + UNITS,
)
SPECS['P10'] = dict(
    jobs=R_CONV, tags=[80, 81, 82, 84, 85, 86], reach={'h_convergence': [1, 2, 3, 4, 5, 6]},
    bounds='both directions; at most 1..3 iterations with up to three attempts and 4 with two attempts; the norm of every increment anywhere in '
           '[0,2], stopping constant in [1e-3,0.1], step size in [0.1,0.5]; the same for one and two attempts of the step after a given accepted one '
           '(stopping constant 1/32, step size 1/4); dimension 1, and 2..3 with all components moving by the same multiple of different tolerances; '
           'contraction rates and predicted norms within 1e-9 of their limits excluded' + UNITS,
)
SPECS['P11'] = dict(
    jobs=R_GUESS, tags=[54, 55, 56, 57, 58], reach={'h_guess': [1, 2, 3, 4]},
    bounds='dimension 1..3, both directions, any position in the step, after one and two steps with and without a rejected attempt in between, '
           'stage increments in [-10,10], step sizes in [0.02,0.5]; ' + STEP.rstrip(', ') + UNITS,
)
SPECS['P21'] = dict(
    jobs=[dict(j, tags=[91, 92]) for j in R_CONTROL] + [dict(j, tags=[83]) for j in R_CONV],
    reach={'h_control': [1, 3, 4, 5, 6], 'h_convergence': [1, 2, 3, 4, 5, 6]},
    bounds='both directions; up to three attempts, rejected for their error norm (anywhere in [0,1e4]) or for failed Newton iterations (any norms '
           'of up to four increments), also in the step after an accepted one; after accepted steps with fast and slow convergence; third steps '
           'after given error norms' + UNITS,
)
SPECS['P34'] = dict(
    jobs=split('radau', 'h_tolerances', {}), reach={'h_tolerances': [1, 2]},
    bounds='relative tolerance in [1e-15,1], absolute tolerance in [1e-15,10], number of iterations 1..20',
)

# ---- what both methods share ----
SN = dict(snap=True)


def grid(modes, dims=(0,), orders=False, deep=True):
    """Time grid: explicit method, implicit one with its own control, and with steps that only halve."""
    o = {} if orders else {'909': [0], '911': [0]}
    j = []
    for m in modes:
        for n in dims:
            base = dict({'900': [n], '901': [0, 1], '903': [m]}, **o)
            j += split('ode', 'h_grid', dict(base, **{'899': [0], '902': [2], '904': [3 if m in (0, 2) else 2]}), cfg=SN, cost=3)
            j += split('ode', 'h_grid', dict(base, **{'899': [1], '902': [1], '904': [1], '905': [0]}), cfg=SN, cost=3 if m in (0, 2) else 6)
            if deep:
                j += split('ode', 'h_grid', dict(base, **{'899': [1], '902': [2], '904': [2], '905': [1]}), cfg=SN, cost=3 if m in (0, 2) else 8)
    return j


GRID_BOUNDS = 'both methods and directions, up to three steps and three attempts in all (four for the explicit method away from the end), the ' \
              'error norm of each attempt anywhere in [0,1e4]; start time in [-2,2], initial step in [0.01,0.5], span length in [0.01,2] or ' \
              'far away; the implicit method with its own step size control over two attempts and with halved steps over three; one Newton ' \
              'iteration per attempt'
CALLBACK = split('ode', 'h_callback', {'899': [0, 1], '900': [0], '901': [0, 1], '902': [0, 1, 2, 3], '903': [0, 1], '904': [1]}, cfg=SN, cost=3) \
    + split('ode', 'h_callback', {'899': [0, 1], '900': [1], '901': [0, 1], '902': [0, 3], '903': [0], '904': [0]}, cfg=SN)
SPECS['P20'] = dict(
    jobs=split('ode', 'h_differences', {'900': [0], '901': [0, 1], '902': [0], '903': [0], '904': [1], '905': [0], '906': [0]})
         + split('ode', 'h_differences', {'900': [1], '901': [0, 1], '902': [0], '903': [0], '904': [1], '905': [0], '906': [0], '907': [1, 2, 3]})
         + split('ode', 'h_differences', {'900': [0], '901': [0, 1], '902': [1], '903': [1], '904': [3]}, cfg=SN)
         + split('ode', 'h_differences', {'900': [1], '901': [0, 1], '902': [1], '903': [1], '904': [3], '905': [0]}, cfg=SN)
         + split('ode', 'h_differences', {'900': [1], '901': [0, 1], '902': [1], '903': [0], '904': [3], '905': [1]}, cfg=SN)
         + split('ode', 'h_differences', {'900': [2], '901': [0, 1], '902': [1], '903': [0], '904': [3]}, cfg=SN, cost=2),
    reach={'h_differences': [1, 2, 3]},
    bounds='dimension 1..3, both directions, state in [-10,10], start time in [-2,2]; right-hand sides whose derivative is one arbitrary entry in '
           '[-3,3] among fixed ones (dimension 1; dimension 2 except the first entry) or fixed (dimension 3); when built, after a rejected first attempt and after slow '
           'convergence; up to two steps of size 0.25 and what follows from it',
)
SPECS['P22'] = dict(
    jobs=grid([0, 1, 3]) + [dict(j, tags=[104]) for j in CALLBACK if j['fixed'][903] == 1],
    tags=[100, 101, 102, 103, 112], reach={'h_grid': [1, 2, 4, 6, 7, 11, 12], 'h_callback': [1, 2, 3]},
    bounds=GRID_BOUNDS + '; maximal step in [0.005,1] or none; also with a callback that moves the time by up to 0.05',
)
SPECS['P23'] = dict(
    jobs=grid([1, 2, 3], orders=True, deep=False), tags=[110, 111], reach={'h_grid': [1, 2, 4, 6, 7, 11, 12]},
    bounds=GRID_BOUNDS + ' (two attempts with the implicit method); maximal step in [0.005,1] or none; initial step given with either sign, before or after the maximal step',
)
SPECS['P24'] = dict(
    jobs=grid([4]), tags=[120, 121], reach={'h_grid': [1, 2, 3, 4, 6, 7, 11, 12]},
    bounds=GRID_BOUNDS + '; budget 1..3',
)
SPECS['P25'] = dict(
    jobs=split('ode', 'h_nonfinite', {'899': [0], '900': [0, 1], '901': [0, 1], '905': [0], '904': [0, 1, 2]})
         + split('ode', 'h_nonfinite', {'899': [0], '900': [0], '901': [0, 1], '905': [1], '904': [0, 1, 2]}, cost=3)
         + split('ode', 'h_nonfinite', {'899': [1], '900': [0, 1], '901': [0, 1], '905': [0], '904': [0, 1, 2]}, cost=3)
         + split('ode', 'h_nonfinite', {'899': [1], '900': [0], '901': [0, 1], '905': [1], '904': [0, 1, 2]}, cost=5),
    reach={'h_nonfinite': [1, 2, 3]},
    bounds='both methods and directions, dimension 1..2; NaN, +inf or -inf in any one component of any one of the first ten (implicit) or fourteen '
           '(explicit) right-hand side calls, or in all calls from any of these on; non-finite arguments give non-finite values; one error norm '
           'anywhere in [0,1e4], the others 0.25; start time in [9,10], first step 0.25, steps of at most 2',
)
SPECS['P26'] = dict(
    jobs=split('ode', 'h_giveup', {'899': [0, 1], '900': [0, 1], '901': [0, 1], '902': [0, 1, 2]}, cost=2)
         + split('ode', 'h_singular', {'900': [0, 1], '901': [0, 1]}),
    tags=[190, 191, 192, 193, 194, 195, 196, 197, 198, 199], reach={'h_giveup': [1], 'h_singular': [1, 2, 3]},
    bounds='both methods and directions, dimension 1..2, error norms that stay too large from the first, second or third step on (the first of them '
           'anywhere in [1.5,1e4], for the implicit method times 1e25), start time in [-2,-1] or [1,2], first step 0.25; iteration matrices '
           'singular 0..5 times in the first and 0..5 times in the second step, steps 0.5 and 0.375, start time in [-2,2]',
)
SPECS['P27'] = dict(
    jobs=grid([0], dims=(0, 1)) + grid([1]), tags=[130, 131, 132], reach={'h_grid': [1, 2, 4, 6, 7, 11, 12]},
    bounds=GRID_BOUNDS + '; dimension 1..2',
)
SPECS['P28'] = dict(
    jobs=split('ode', 'h_same', {'899': [0, 1], '901': [0, 1], '902': [0], '904': [2]}, cfg=SN, cost=4)
         + split('ode', 'h_same', {'899': [0, 1], '901': [0, 1], '902': [1], '904': [3]}, cfg=SN, cost=4)
         + split('ode', 'h_same', {'899': [0, 1], '901': [0, 1], '902': [2]}),
    reach={'h_same': [1, 2]},
    bounds='both methods and directions; ending at the final time (span length in [0.1,0.7], first step 0.25) within three attempts, by a budget of two '
           'steps within four attempts, or for too small a step; error norm of every attempt anywhere in [0,1e4] (in the last case: one accepted '
           'step, then always rejected); start time in [1,2]; the implicit method halves its steps',
)
SPECS['P29'] = dict(
    jobs=split('ode', 'h_solution', {}), reach={'h_solution': [1]},
    bounds='all times and states in [-10,10], record lengths 0..4 for either sequence, dimension 2',
)
SPECS['P30'] = dict(
    jobs=CALLBACK, tags=[170, 171, 172, 173, 174, 175, 176], reach={'h_callback': [1, 2, 3, 4]},
    bounds='both methods and directions, two steps with three attempts in all (dimension 2: two), error norms anywhere in [0,1e4]; callbacks that '
           'change nothing, the state (by up to 10), the time (by up to 0.05) or both; first step in [0.1,0.5], span length in [0.2,1] or far '
           'away; the implicit method halves its steps',
)
SPECS['P31'] = dict(
    jobs=[dict(j, tags=[140, 141, 142]) for j in grid([0, 1]) + R_CONTROL + R_CONV],
    reach={'h_grid': [1, 2, 4, 5, 6, 7, 11, 12], 'h_control': [1, 3, 4, 5, 6], 'h_convergence': [1, 2, 3, 4, 5, 6]},
    bounds=GRID_BOUNDS + '; with up to three Newton iterations and renewed Jacobians over two steps, and with failed Newton iterations of up to four '
           'increments over up to three attempts of the first step and two of the second',
)
SPECS['P32'] = dict(
    jobs=split('ode', 'h_params', {'899': [0, 1], '901': [0, 1], '904': [1]}, cfg=SN), reach={'h_params': [1, 2]},
    bounds='both methods and directions, with and without Jacobian and callback; two real parameters in [-10,10] and an integer in 0..1000, changed '
           'between the steps by the caller or the callback; two steps with three attempts in all, error norms anywhere in [0,1e4]',
)
SPECS['P33'] = dict(
    jobs=split('ode', 'h_options', {'899': [0, 1], '900': [0, 1]}, cfg=SN), reach={'h_options': [1]},
    bounds='both methods; no option, each of the eighteen options alone, and all of them in two orders; real options in [1e-4,20], integers in '
           '1..2^20 (for the implicit method the number of iterations 1, 4 or 50), both values of the flags; initial state in [-10,10], '
           'dimension 1..2, start and end in [-2,2] and at least 1e-3 apart',
)
P21_MORE = [dict(j, tags=[93]) for j in CALLBACK if j['fixed'][899] == 1 and j['fixed'][903] == 0] \
    + [dict(j, tags=[93]) for j in SPECS['P26']['jobs'] if j['harness'] == 'h_singular']
SPECS['P21']['jobs'] = SPECS['P21']['jobs'] + P21_MORE
SPECS['P21']['reach'] = dict(SPECS['P21']['reach'], h_callback=[5], h_singular=[1, 2, 3])
SPECS['P21']['bounds'] += '; after singular iteration matrices; after a callback has changed state or time'
