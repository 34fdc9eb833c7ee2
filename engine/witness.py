"""Concrete witnesses for path feasibility.

A pool of numeric assignments follows every path.  When an assignment satisfies
the path condition and a branch condition, that branch is feasible and the solver
need not be asked.  Witnesses only ever keep a path alive; they never discharge a
check.
"""
import math
import random

import terms as T

EPS = 1e-9


class Env:
    __slots__ = ('vals', 'cache', 'rng', 'style')

    def __init__(self, seed, vals=None):
        self.vals = dict(vals) if vals else {}
        self.cache = {}
        self.rng = random.Random(seed)
        self.style = seed % 4

    def inp(self, at):
        v = self.vals.get(at.id)
        if v is None:
            lo = float(at.lo) if at.lo is not None else -1e3
            hi = float(at.hi) if at.hi is not None else 1e3
            r = self.rng
            if self.style == 0:
                v = r.uniform(lo, hi)
            elif self.style == 1:
                v = r.choice([-1, 1]) * 10 ** r.uniform(-6, 1)
            elif self.style == 2:
                v = r.uniform(-1, 1)
            else:
                a, b = max(lo, -2.0), min(hi, 2.0)
                v = r.uniform(a, b) if a <= b else r.uniform(lo, hi)
            if not lo <= v <= hi:
                if lo > 0 and hi / lo > 100:
                    v = math.exp(r.uniform(math.log(lo), math.log(hi)))
                else:
                    v = r.uniform(lo, hi)
            self.vals[at.id] = v
        return v


def atom(e, a):
    v = e.cache.get(a)
    if v is not None:
        return v
    at = T.ATOMS[a]
    k = at.kind
    if k == 'inp':
        v = e.inp(at)
    elif k == 'def':
        v = poly(e, at.args[0])
    elif k == 'abs':
        v = abs(poly(e, at.args[0]))
    elif k == 'max':
        v = max(poly(e, at.args[0]), poly(e, at.args[1]))
    elif k == 'ite':
        c = boolean(e, at.args[0])
        if c is None:
            raise ArithmeticError
        v = poly(e, at.args[1] if c else at.args[2])
    elif k == 'sqrt':
        v = math.sqrt(max(0.0, poly(e, at.args[0])))
    elif k == 'pow':
        v = math.pow(poly(e, at.args[0]), poly(e, at.args[1]))
    else:
        f = getattr(math, at.args[0])
        v = f(*[poly(e, p) for p in at.args[1]])
    if v != v or v in (math.inf, -math.inf):
        raise ArithmeticError
    e.cache[a] = v
    return v


def fl(c):
    return c.numerator / c.denominator


def poly2(e, p):
    s = 0.0
    m = 0.0
    for mono, c in p.d.items():
        t = fl(c)
        for a, ex in mono:
            v = atom(e, a)
            t *= v if ex == 1 else v ** ex
        s += t
        m += abs(t)
    return s, m


def poly(e, p):
    return poly2(e, p)[0]


def boolean(e, b):
    """True/False when clear, None when too close to call or unknown."""
    k = b.kind
    if k == 'cmp':
        op, p = b.args
        s, m = poly2(e, p)
        if abs(s) <= EPS * m:
            return None
        if op == 'eq':
            return False
        return s < 0
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k == 'not':
        r = boolean(e, b.args[0])
        return None if r is None else not r
    if k == 'and':
        x, y = boolean(e, b.args[0]), boolean(e, b.args[1])
        if x is False or y is False:
            return False
        return None if x is None or y is None else True
    if k == 'or':
        x, y = boolean(e, b.args[0]), boolean(e, b.args[1])
        if x is True or y is True:
            return True
        return None if x is None or y is None else False
    return None


def test(e, b):
    try:
        return boolean(e, b)
    except (ArithmeticError, ValueError, OverflowError):
        return None


def is_bv(b):
    if b.kind == 'z3':
        return True
    return b.kind in ('and', 'or', 'not') and any(is_bv(x) for x in b.args)


def satisfies(e, pc):
    return all(is_bv(c) or test(e, c) is True for c in pc)


def repair(envs, pc, cond, want, atoms, rng, tries=40, old=frozenset()):
    """Search near existing witnesses for one that satisfies pc and gives cond the wanted value."""
    inps = [T.ATOMS[a] for a in atoms if T.ATOMS[a].kind == 'inp']
    if not inps:
        return None
    # first move only the inputs the path does not depend on yet
    fresh = [at for at in inps if at.id not in old]
    if fresh and envs:
        for k in range(24):
            e = Env(rng.randrange(1 << 30), envs[k % len(envs)].vals)
            mag = 10 ** rng.uniform(-7, 1)
            for at in fresh:
                lo = float(at.lo) if at.lo is not None else -1e3
                hi = float(at.hi) if at.hi is not None else 1e3
                if k % 3 == 0:
                    v = rng.choice((lo, hi))
                elif k % 3 == 1:
                    v = rng.uniform(-mag, mag)
                else:
                    v = rng.uniform(lo, hi)
                e.vals[at.id] = min(max(v, lo), hi)
            if test(e, cond) is want and satisfies(e, pc):
                return e
    for k in range(tries):
        base = envs[k % len(envs)] if envs else None
        e = Env(rng.randrange(1 << 30), base.vals if base else None)
        mode = k % 4
        mag = 10 ** rng.uniform(-7, 1)
        for at in inps:
            if mode == 0 and rng.random() < 0.5:
                continue
            lo = float(at.lo) if at.lo is not None else -1e3
            hi = float(at.hi) if at.hi is not None else 1e3
            if mode == 1:
                v = rng.uniform(lo, hi)
            elif mode == 3 and at.id in e.vals:
                v = e.vals[at.id] * (1 + rng.uniform(-0.5, 0.5))
            else:
                v = rng.uniform(-mag, mag)
            if not lo <= v <= hi:
                v = rng.uniform(lo, hi)
            e.vals[at.id] = v
        if test(e, cond) is want and satisfies(e, pc):
            return e
    return None


def pool(n, seed):
    return [Env(seed * 1000 + i) for i in range(n)]


def more(envs, pc, rng, want=6, tries=12):
    """Further witnesses of the same path, near the ones there are."""
    out = []
    for k in range(tries):
        b = envs[k % len(envs)]
        amp = 10 ** rng.uniform(-4, -0.3)
        e = Env(rng.randrange(1 << 30))
        for a, v in b.vals.items():
            at = T.ATOMS[a]
            x = v * (1 + amp * rng.uniform(-1, 1))
            if (at.lo is None or x >= at.lo) and (at.hi is None or x <= at.hi):
                v = x
            e.vals[a] = v
        if satisfies(e, pc):
            out.append(e)
            if len(envs) + len(out) >= want:
                break
    return out
