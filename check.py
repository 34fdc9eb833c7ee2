"""Decide one property by symbolic execution of the compiled code.

  check.py ID            run the check for property ID (VERIF_TIER, VERIF_SEED)
  check.py --setup       build everything once
  check.py --replay F    run the compiled code on a recorded counterexample
"""
import json
import multiprocessing
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
EVID = os.path.join(HERE, 'evidence')

ASSUME = [
    'Symbolic f64 values are exact reals: rounding, overflow and underflow of symbolic values are not modelled; '
    'concrete doubles, NaN and infinities follow IEEE 754.',
    'The code checked is the LLVM IR rustc emits for the current source (opt-level 2, overflow checks on).',
    'powf with a non-half exponent is an uninterpreted function with monotonicity, sign and tangent axioms; '
    'every counterexample is replayed with the real function.',
]


def demangle(names):
    out = []
    for n in names:
        n = n.lstrip('@').strip('"')
        if n.startswith('_ZN'):
            parts, i = [], 3
            while i < len(n) and n[i].isdigit():
                j = i
                while n[j].isdigit():
                    j += 1
                k = int(n[i:j])
                parts.append(n[j:j + k])
                i = j + k
            if parts and parts[-1].startswith('h') and len(parts[-1]) == 17:
                parts.pop()
            n = '::'.join(parts)
        out.append(n)
    return sorted(set(out))


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: property=%s ' % pid):
                out.append(ln.strip())
    return out


def run_check(pid, tier, seed):
    import build
    import job
    import ll
    import specs
    t0 = time.time()
    spec = specs.SPECS[pid]
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or not j.get('thorough')]
    bins = sorted({j['bin'] for j in jobs})
    arts, build_s = build.build(bins)
    for b in bins:
        job.MODULES[arts[b][0]] = ll.Module(arts[b][0])
    limit = 780 if tier == 'quick' else 3 * 3600
    js = []
    for k, j in enumerate(jobs):
        cfg = dict(j.get('cfg', {}))
        js.append({'ll': arts[j['bin']][0], 'binary': arts[j['bin']][1], 'harness': j['harness'],
                   'bin': j['bin'], 'fixed': j.get('fixed', {}), 'tags': j.get('tags', spec.get('tags')),
                   'cfg': cfg, 'seed': seed, 'deep': j.get('deep'), 'stop_at': t0 + limit,
                   'budget': j.get('budget', limit), 'validate': j.get('validate', 3)})
    # the quick ones, then the longest first
    order = sorted(range(len(js)), key=lambda i: (jobs[i].get('cost', 1) > 1, -jobs[i].get('cost', 1)))
    with multiprocessing.get_context('fork').Pool(min(8, len(js)), maxtasksperchild=1) as pool:
        res = [None] * len(order)
        for k, r in pool.imap_unordered(run_one, [(k, js[i]) for k, i in enumerate(order)]):
            res[k] = r
            if any(v['status'] == 'confirmed' for v in r.get('violations', [])):
                pool.terminate()
                break
    done = [(i, r) for i, r in zip(order, res) if r is not None]
    return report(pid, spec, tier, seed, t0, build_s, js, [i for i, _ in done], [r for _, r in done])


def run_one(a):
    import job
    k, s = a
    s = dict(s)
    s['budget'] = max(5.0, min(s['budget'], s['stop_at'] - time.time()))
    return k, job.run_job(s)


def report(pid, spec, tier, seed, t0, build_s, js, order, res):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    problems = []
    unfinished = []
    confirmed = []
    reached = {}
    tot = dict(paths=0, steps=0, checks=0, forks=0, queries=0, unknown=0, validated=0, native_ok=0, same_path=0, probes=0, refuted=0, left_out=0)
    by_layer, solver_s, ended, tags, funcs, samples = {}, 0.0, {}, {}, set(), []
    jobs_out = []
    for i, r in zip(order, res):
        s = js[i]
        name = '%s%s' % (s['harness'], ''.join(' %s=%s' % kv for kv in sorted(s['fixed'].items())))
        if s['cfg'].get('shard'):
            name += ' part %d/%d' % tuple(s['cfg']['shard'][:2])
        if r.get('error'):
            problems.append('%s: %s' % (name, r['error']))
            print('ERROR in %s: %s\n%s' % (name, r['error'], r.get('trace', '')))
        for v in r.get('violations', []):
            if v['status'] == 'confirmed':
                confirmed.append((s, v))
            elif v['status'] == 'refuted':
                tot['refuted'] += 1
            else:
                problems.append('%s: model for check %s did not reproduce natively (%s)'
                                % (name, v['tag'], v.get('info', '')[:120]))
        deep = s.get('deep')
        for a, b in r.get('inconclusive', []):
            (unfinished if deep else problems).append('%s: inconclusive %s %s' % (name, a, b[:80]))
        for v in r.get('validation', []):
            tot['validated'] += 1
            if v['ok']:
                tot['native_ok'] += 1
                tot['same_path'] += v['same_path']
                for t in v['reached']:
                    reached.setdefault((s['harness'], t), True)
                if len(samples) < 6:
                    samples.append({'harness': name, 'inputs': v['values'][:8], 'observed': v['theirs'][:6]})
            else:
                problems.append('%s: native run and executor differ: %s vs %s' % (name, v['native'], v['exec']))
        tot['probes'] += r.get('probes', 0)
        for v in r.get('strays', []):
            problems.append('%s: a native run took a path that was not explored (witnesses %s)' % (name, v['reached']))
        for t in r.get('reached', {}):
            reached.setdefault((s['harness'], t), False)
        for k in ('paths', 'steps', 'checks', 'forks', 'left_out'):
            tot[k] += r.get(k, 0)
        so = r.get('solver', {})
        tot['queries'] += so.get('queries', 0)
        tot['unknown'] += so.get('unknown', 0)
        solver_s += so.get('solver_s', 0)
        for k, v in so.get('by_layer', {}).items():
            by_layer[k] = by_layer.get(k, 0) + v
        for k, v in r.get('ended', {}).items():
            ended[k] = ended.get(k, 0) + v
        for k, v in r.get('check_tags', {}).items():
            tags[str(k)] = tags.get(str(k), 0) + v
        funcs |= set(r.get('funcs', []))
        jobs_out.append({'job': name, 'paths': r.get('paths', 0), 'checks': r.get('checks', 0),
                         'solver_s': so.get('solver_s', 0), 'wall_s': round(r.get('wall', 0), 2)})
    for h, ts in spec.get('reach', {}).items():
        for t in ts:
            if (h, t) not in reached:
                problems.append('vacuous: %s never reached witness %d' % (h, t))
            elif not reached[(h, t)]:
                problems.append('vacuous: witness %d of %s was not confirmed natively' % (t, h))
    if 2 * tot['same_path'] < tot['native_ok']:
        problems.append('%d of %d native runs left the path their inputs were derived from'
                        % (tot['native_ok'] - tot['same_path'], tot['native_ok']))
    known = known_findings(pid)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k.split(' ', 2)[2]))
    names = demangle(funcs)
    ours = [n for n in names if 'cyphus_diffeq' in n]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['steps'],
            'traces_validated_against_impl': tot['native_ok'], 'samples': samples,
            'replays_on_their_path': tot['same_path'], 'random_runs_on_explored_paths': tot['probes'],
            'checks_decided': tot['checks'], 'checks_by_tag': tags, 'forks': tot['forks'], 'paths_by_end': ended,
            'solver_queries': tot['queries'], 'solver_unknown_branch_feasibility': tot['unknown'],
            'queries_by_layer': by_layer, 'solver_s': round(solver_s, 2), 'build_s': round(build_s, 2),
            'models_refuted': tot['refuted'], 'functions_encoded': ours, 'functions_encoded_total': len(names),
            'witnesses': sorted('%s:%d' % k for k in reached), 'bounds': spec['bounds'], 'jobs': jobs_out,
            'problems': problems[:20],
            # extra jobs beyond the stated bounds that did not finish; nothing is claimed for them
            'unfinished': unfinished[:20], 'branches_left_out': tot['left_out'],
        },
        'assumptions': ASSUME + spec.get('assumptions', []),
        'violations': len(confirmed), 'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d checks, %d queries (%.1f s solver), %d/%d native replays, build %.1f s, %.1f s'
          % (pid, tier, tot['paths'], tot['checks'], tot['queries'], solver_s, tot['native_ok'],
             tot['validated'], build_s, time.time() - t0))
    if confirmed:
        for k, (s, v) in enumerate(confirmed[:5]):
            p = os.path.join(EVID, 'replay', '%s-%d.json' % (pid, k))
            with open(p, 'w') as f:
                json.dump({'property': pid, 'bin': s['bin'], 'harness': s['harness'], 'tags': s['tags'],
                           'check': v['tag'], 'kind': v['kind'], 'native': v['native'],
                           'native_output': v['native_out'], 'native_stderr': v['native_err'],
                           'values': v['values'],
                           'how': 'python3-vt /verif/check.py --replay %s' % p}, f, indent=1)
            print('  check %s in %s%s: %s' % (v['tag'], s['harness'], s['fixed'] or '', v['native_out'].strip()[-200:]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if problems:
        for p in problems[:20]:
            print('PROBLEM ' + p)
        return 2
    return 0


def replay(path):
    import build
    import job
    import native
    d = json.load(open(path))
    arts, _ = build.build([d['bin']])
    r = native.run(arts[d['bin']][1], d['harness'], job.deser(d['values']), tags=d.get('tags'))
    print('%s: %s' % (d['harness'], r.status))
    print(r.out, r.err)
    return 1 if r.status in ('fail', 'abort', 'hang') else 0


def main():
    import build
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        arts, s = build.build(list(build.BINS))
        print('built %s in %.1f s' % (', '.join(arts), s))
        return 0
    if a and a[0] == '--replay':
        return replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    for x in a[1:]:
        if x in ('--quick', '--thorough'):
            tier = x[2:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        return run_check(a[0], tier, seed)
    except build.BuildError as e:
        print('BUILD FAILED: %s' % e)
        return 2


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same order of terms in every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
