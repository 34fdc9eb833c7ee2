"""One exploration job: symbolically execute one harness, confirm what it finds."""
import math
import random
import sys
import time
import traceback
from fractions import Fraction

import exec as X
import ll
import native
import smt
import terms as T
import witness as W

sys.set_int_max_str_digits(0)


MODULES = {}      # parsed IR shared with forked jobs


def values_of(inputs, env=None, model=None, snap=None):
    """Concrete inputs for a path: {(kind, tag): [v, ...]}"""
    out = {}
    for tag, k, kind, v in inputs:
        if kind == 'f':
            if isinstance(v, float):
                x = v
            else:
                at = T.ATOMS[v]
                if env is not None:
                    x = float(env.inp(at))
                else:
                    q = model.get(v) if model else None
                    if q is None:
                        lo = float(at.lo) if at.lo is not None else None
                        hi = float(at.hi) if at.hi is not None else None
                        x = X.default_f(lo if lo is not None else -math.inf, hi if hi is not None else math.inf)
                    else:
                        x = float(q)
                if snap:
                    y = round(x * snap) / snap
                    if (at.lo is None or y >= at.lo) and (at.hi is None or y <= at.hi):
                        x = y
                if at.lo is not None and x < at.lo:
                    x = float(at.lo)
                if at.hi is not None and x > at.hi:
                    x = float(at.hi)
        elif kind == 'u':
            if isinstance(v, int):
                x = v
            else:
                x = None
                if model and model.get('z3') is not None:
                    try:
                        x = model['z3'].eval(v, model_completion=True).as_long()
                    except Exception:
                        x = None
                if x is None:
                    x = 0
        else:
            x = v
        out.setdefault((kind, tag), []).append(x)
    return out


def perturb(inputs, vals, rng, amp):
    """Random relative changes that stay within the declared ranges."""
    rngs = {}
    for tag, k, kind, v in inputs:
        if kind == 'f' and not isinstance(v, float):
            at = T.ATOMS[v]
            rngs[(kind, tag, k)] = (at.lo, at.hi)
    out = {}
    for (kd, t), vs in vals.items():
        if kd != 'f':
            out[(kd, t)] = list(vs)
            continue
        ns = []
        for k, v in enumerate(vs):
            x = v * (1 + amp * rng.uniform(-1, 1))
            lo, hi = rngs.get((kd, t, k), (None, None))
            if lo is not None and x < lo:
                x = float(lo)
            if hi is not None and x > hi:
                x = float(hi)
            ns.append(x)
        out[(kd, t)] = ns
    return out


def margin_neg(neg, m):
    """Strengthen a violated comparison by a margin."""
    if neg is None:
        return None
    if neg.kind == 'cmp' and neg.args[0] in ('lt', 'le'):
        return T.cmp('le', T.add(neg.args[1], T.const(m)))
    if neg.kind == 'and':
        a, b = margin_neg(neg.args[0], m), margin_neg(neg.args[1], m)
        return T.band(a, b)
    if neg.kind == 'or':
        a, b = margin_neg(neg.args[0], m), margin_neg(neg.args[1], m)
        return T.bor(a, b)
    return neg


def pow_cuts(model, seen_atoms):
    """Facts tying pow atoms to the true function at the model's argument values."""
    cuts = []
    tr = smt.TR
    import z3
    for a in seen_atoms:
        at = T.ATOMS[a]
        if at.kind != 'pow':
            continue
        zm = model.get('z3')
        if zm is None:
            continue
        try:
            x0 = smt.z3frac(zm.eval(tr.poly(at.args[0]), model_completion=True))
            y0 = at.args[1].const()
            if y0 is None or x0 <= 0:
                continue
            v0 = math.pow(float(x0), float(y0))
        except (OverflowError, ValueError):
            continue
        lo, hi = smt.rat(Fraction(v0 * (1 - 1e-9))), smt.rat(Fraction(v0 * (1 + 1e-9)))
        x = tr.poly(at.args[0])
        v = tr.var(a)
        xx = smt.rat(x0)
        if y0 > 0:
            cuts += [z3.Implies(x <= xx, v <= hi), z3.Implies(x >= xx, v >= lo)]
        else:
            cuts += [z3.Implies(x <= xx, v >= lo), z3.Implies(x >= xx, v <= hi)]
    return cuts


def confirm(v, binary, harness, rng, budget=40.0, tags=None):
    """Find concrete inputs on which the compiled code shows the violation."""
    t0 = time.time()
    tried = 0

    def attempt(vals):
        nonlocal tried
        tried += 1
        r = native.run(binary, harness, vals, tags=tags)
        if r.status in ('fail', 'abort', 'hang'):
            return r
        return None

    models = [v.model] if v.model else []
    k = 0
    cuts = []
    while models or k == 0:
        if models:
            model = models.pop(0)
            for snap in (None, 1 << 10, 1 << 20, 1 << 4):
                vals = values_of(v.inputs, model=model, snap=snap)
                r = attempt(vals)
                if r:
                    return vals, r, tried
            base = values_of(v.inputs, model=model)
            for amp in (1e-6, 1e-3, 1e-1):
                for _ in range(15):
                    vals = perturb(v.inputs, base, rng, amp)
                    r = attempt(vals)
                    if r:
                        return vals, r, tried
        if time.time() - t0 > budget or k > 12:
            break
        # ask for another model: with a margin, and consistent with the true powers
        k += 1
        cons = list(v.pc) + ([v.neg] if v.neg is not None else [])
        seen = set()
        for c in cons:
            seen |= smt.full_atoms(c)[1]
        if v.model:
            cuts += pow_cuts(v.model, seen)
        got = False
        for m in (Fraction(1), Fraction(1, 100), Fraction(1, 10000), Fraction(0)):
            if v.neg is None and m:
                continue
            cc = list(v.pc) + ([margin_neg(v.neg, m) if m else v.neg] if v.neg is not None else [])
            r = smt.check(cc, want_model=True, timeout=5000, extra_z3=tuple(cuts))
            if r.res == 'sat':
                v.model = r.model
                models.append(r.model)
                got = True
                break
            if r.res == 'unsat' and not m:
                return None, 'refuted', tried
            if time.time() - t0 > budget:
                break
        if not got:
            break
    return None, None, tried


def validate(ex, st, binary, harness, tags=None):
    """Replay one explored path natively and in the executor's concrete mode; compare bit for bit."""
    vals = None
    for e in st.envs:
        vals = values_of(st.inputs, env=e)
        break
    if vals is None or any(i[2] == 'u' for i in st.inputs):
        r = smt.check(st.pc, want_model=True, timeout=1000)
        if r.res != 'sat':
            return None
        env = st.envs[0] if st.envs else None
        vals = values_of(st.inputs, model=r.model)
        if env is not None:
            v2 = values_of(st.inputs, env=env, model=None)
            for k in v2:
                if k[0] == 'f':
                    vals[k] = v2[k]
    r = native.run(binary, harness, vals, tags=tags)
    kind, obs = ex.concrete_run(harness, vals)
    want = {'end': 'done', 'stop': 'stop', 'assume': 'assume', 'violated': 'fail', 'panic': 'abort', 'hang': 'hang'}.get(kind)
    mine = []
    for tag, k, x in obs:
        if k == 'f':
            b = X.f2bits(x)
            if x != x:
                b = None
        else:
            b = x
        mine.append((tag, k, b))
    theirs = []
    for tag, k, b in r.obs:
        if k == 'f' and X.bits2f(b) != X.bits2f(b):
            b = None
        theirs.append((tag, k, b))
    ok = (want == r.status) and mine == theirs
    # does the native run also take the path the values were derived for?
    same = set(r.reached) == set(st.reached)
    return {'ok': ok, 'same_path': same, 'native': r.status, 'exec': kind, 'values': vals, 'reached': r.reached,
            'mine': mine[:20], 'theirs': theirs[:20], 'out': r.out[-300:], 'err': r.err[-300:]}


def strays(ex, paths, spec, tags, rng, want=4):
    """Native runs on random inputs must follow a path that was explored (told by its witnesses)."""
    known = {frozenset(s.reached) for s in ex.complete_states}
    bad, n = [], 0
    for s in paths[:want]:
        vals = {}
        for tag, k, kind, v in s.inputs:
            if kind == 'f' and not isinstance(v, float):
                lo, hi = T.ATOMS[v].lo, T.ATOMS[v].hi
                v = rng.uniform(float(max(lo, -1e6)) if lo is not None else -1e6, float(min(hi, 1e6)) if hi is not None else 1e6)
            elif kind != 'f' and not isinstance(v, int):
                return bad, n
            vals.setdefault((kind, tag), []).append(v)
        r = native.run(spec['binary'], spec['harness'], vals, tags=tags)
        if r.status in ('done', 'stop'):
            n += 1
            if frozenset(r.reached) not in known:
                bad.append({'values': ser(vals), 'reached': sorted(r.reached)})
    return bad, n


def run_job(spec):
    """spec: ll, binary, harness, fixed, cfg{...}, validate"""
    t0 = time.time()
    out = {'harness': spec['harness'], 'fixed': spec.get('fixed', {}), 'error': None}
    try:
        T.reset()
        smt.reset()
        mod = MODULES.get(spec['ll']) or ll.Module(spec['ll'])
        cfg = X.Config()
        for k, v in spec.get('cfg', {}).items():
            setattr(cfg, k, v)
        cfg.fixed = dict(spec.get('fixed', {}))
        tags = spec.get('tags')
        T.SNAP = cfg.snap
        cfg.tags = set(tags) if tags is not None else None
        cfg.seed = spec.get('seed', 1)
        cfg.deadline = time.time() + spec.get('budget', 300)
        ex = X.Executor(mod, cfg)
        ex.run(spec['harness'])
        out.update(paths=ex.paths, ended=ex.ended, steps=ex.total_steps, forks=ex.forks,
                   checks=ex.checks, left_out=ex.left_out, check_tags=ex.check_tags, reached=ex.reached,
                   inconclusive=[(str(a), str(b)[:200]) for a, b in ex.inconclusive],
                   funcs=sorted(ex.funcs_run))
        rng = random.Random(spec.get('seed', 1))
        vs = []
        for v in ex.violations:
            vals, r, tried = confirm(v, spec['binary'], spec['harness'], rng, tags=tags)
            d = {'tag': v.tag, 'kind': v.kind, 'info': str(v.info)[:300], 'tried': tried,
                 'neg': repr(v.neg)[:300] if v.neg is not None else None}
            if r == 'refuted':
                d['status'] = 'refuted'
            elif vals is None:
                d['status'] = 'unreproduced'
                if v.model:
                    d['values'] = ser(values_of(v.inputs, model=v.model))
            else:
                d['status'] = 'confirmed'
                d['values'] = ser(vals)
                d['native'] = r.status
                d['native_tag'] = r.tag
                d['native_out'] = r.out[-400:]
                d['native_err'] = r.err[-400:]
            vs.append(d)
        out['violations'] = vs
        # translation validation: spread over the explored paths, and over vacuity witnesses
        want = spec.get('validate', 4)
        done = sorted(ex.complete_states, key=lambda s: not s.envs)
        nw = sum(1 for s in done if s.envs)
        if nw:
            done = done[:max(nw, 1)] + done[nw:][:8]
        pick = []
        need = set(ex.reached)
        for s in done:
            new = s.reached & need
            if new:
                pick.append(s)
                need -= new
        if len(done) > want:
            stepn = max(1, len(done) // want)
            pick += done[::stepn][:want]
        else:
            pick += done
        seen = set()
        val = []
        for s in pick:
            if id(s) in seen:
                continue
            seen.add(id(s))
            try:
                r = validate(ex, s, spec['binary'], spec['harness'], tags)
            except (ArithmeticError, ValueError):
                r = None
            if r is None:
                continue
            r['values'] = ser(r['values'])
            r['reached'] = sorted(r['reached'])
            val.append(r)
            if len(val) >= want + len(ex.reached):
                break
        out['validation'] = val
        if not (cfg.shard or ex.violations or ex.inconclusive):
            out['strays'], out['probes'] = strays(ex, pick, spec, tags, rng)
    except ll.Unsupported as e:
        out['error'] = 'unsupported: %s' % e
        out['trace'] = traceback.format_exc()[-1500:]
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-2500:]
    out['solver'] = smt.STATS.as_dict()
    out['wall'] = time.time() - t0
    return out


def ser(vals):
    return [[k, t, [x if k != 'f' else native.f2hex(x) for x in vs]] for (k, t), vs in sorted(vals.items())]


def deser(l):
    return {(k, t): [x if k != 'f' else X.bits2f(int(x, 16)) for x in vs] for k, t, vs in l}
