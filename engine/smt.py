"""SMT back end: translates terms to z3 and decides queries.

Layers, all solver verdicts:
  lin   - every non-linear monomial becomes a fresh, interval-bounded variable
          (a relaxation, so only its `unsat` is used);
  smt   - z3's default arithmetic solver on the exact non-linear query;
  nlsat - z3's qfnra-nlsat tactic on the exact query;
  cvc5  - cvc5 on the SMT-LIB text of the exact query (last resort / cross-check).
"""
import math
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

import terms as T

INF = float('inf')


class Stats:
    def __init__(self):
        self.q = {}
        self.t = {}
        self.n = 0
        self.unknown = 0
        self.time = 0.0

    def rec(self, layer, res, dt):
        k = layer + ':' + res
        self.q[k] = self.q.get(k, 0) + 1
        self.t[layer] = self.t.get(layer, 0.0) + dt

    def as_dict(self):
        return {'queries': self.n, 'unknown': self.unknown,
                'by_layer': dict(sorted(self.q.items())),
                'solver_s': round(self.time, 3),
                'time_by_layer_s': {k: round(v, 3) for k, v in self.t.items()}}


STATS = Stats()


def rat(c):
    if c.denominator == 1:
        return z3.RealVal(str(c.numerator))
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator))


# ------------------------------------------------------------ intervals
def ivmul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return Fraction(0)
        return x * y
    xs = [m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1])]
    return min(xs), max(xs)


def ivpow(a, e):
    if e < 0:
        lo, hi = a
        if lo > 0:
            r = (Fraction(0) if hi == INF else 1 / Fraction(hi), 1 / Fraction(lo))
        elif hi < 0:
            r = (1 / Fraction(hi), Fraction(0) if lo == -INF else 1 / Fraction(lo))
        elif lo == 0 and hi > 0:
            r = (Fraction(0) if hi == INF else 1 / Fraction(hi), INF)
        elif hi == 0 and lo < 0:
            r = (-INF, Fraction(0) if lo == -INF else 1 / Fraction(lo))
        else:
            return (-INF, INF)
        return ivpow(r, -e) if e != -1 else r
    r = a
    if e % 2 == 0:
        lo, hi = a
        m = max(abs(lo), abs(hi))
        n = Fraction(0) if lo <= 0 <= hi else min(abs(lo), abs(hi))
        a2 = (n * n, m * m if m != INF else INF)
        r = a2
        for _ in range(e // 2 - 1):
            r = ivmul(r, a2)
        return r
    for _ in range(e - 1):
        r = ivmul(r, a)
    return r


def outward(lo, hi, f):
    """Outward-rounded image of [lo, hi] (lo >= 0) under an increasing f."""
    def g(x, up):
        if x == INF:
            return INF
        if x <= 0:
            return Fraction(0)
        try:
            v = f(float(x))
        except OverflowError:
            return INF if up else Fraction(0)
        if v == INF:
            return INF if up else Fraction(10) ** 300
        v = Fraction(v)
        return v * (1 + Fraction(1, 10**12)) if up else v * (1 - Fraction(1, 10**12))
    return g(lo, False), g(hi, True)


class Intervals:
    """Interval bounds of atoms; `over` holds bounds known on the path at hand."""

    def __init__(self, over=None):
        self.over = over or {}
        self.memo = {}

    def mono(self, m):
        r = (Fraction(1), Fraction(1))
        for a, e in m:
            r = ivmul(r, ivpow(self.atom(a), e))
        return r

    def poly(self, p):
        lo = Fraction(0)
        hi = Fraction(0)
        for m, c in p.d.items():
            l, h = self.mono(m)
            if c < 0:
                l, h = h, l
            lo = lo + (l * c if l not in (INF, -INF) else (INF if (l > 0) == (c > 0) else -INF))
            hi = hi + (h * c if h not in (INF, -INF) else (INF if (h > 0) == (c > 0) else -INF))
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        if lo < 0 and p.nn:
            lo = Fraction(0)
        return lo, hi

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        r = self.raw(a)
        o = self.over.get(a)
        if o is not None:
            lo, hi = max(r[0], o[0]), min(r[1], o[1])
            if lo <= hi:
                r = (lo, hi)
        self.memo[a] = r
        return r

    def raw(self, a):
        at = T.ATOMS[a]
        k = at.kind
        if k == 'inp':
            return (Fraction(at.lo) if at.lo is not None else -INF,
                    Fraction(at.hi) if at.hi is not None else INF)
        if k == 'def':
            return self.poly(at.args[0])
        if k == 'abs':
            lo, hi = self.poly(at.args[0])
            m = max(abs(lo), abs(hi))
            return (Fraction(0) if lo <= 0 <= hi else min(abs(lo), abs(hi)), m)
        if k == 'max':
            a1, a2 = self.poly(at.args[0]), self.poly(at.args[1])
            return (max(a1[0], a2[0]), max(a1[1], a2[1]))
        if k == 'ite':
            a1, a2 = self.poly(at.args[1]), self.poly(at.args[2])
            return (min(a1[0], a2[0]), max(a1[1], a2[1]))
        if k == 'sqrt':
            lo, hi = self.poly(at.args[0])
            return outward(lo, hi, math.sqrt)
        if k == 'pow':
            y = at.args[1].const()
            if y is None:
                return (Fraction(0), INF)
            lo, hi = self.poly(at.args[0])
            fy = float(abs(y))
            r = outward(lo, hi, lambda x: math.pow(x, fy))
            # the exponent itself is an exact double, so only the result is rounded
            return r if y > 0 else ivpow(r, -1)
        return (-INF, INF)


GIV = Intervals()


def path_bounds(cons):
    """Bounds on single atoms stated by the constraints."""
    over = {}
    for c in cons:
        if c.kind != 'cmp' or len(c.args[1].d) > 2:
            continue
        op, p = c.args
        k = p.d.get((), Fraction(0))
        ms = [m for m in p.d if m != ()]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            continue
        a, co = ms[0][0][0], p.d[ms[0]]
        v = -k / co
        lo, hi = over.get(a, (-INF, INF))
        if op == 'eq':
            lo, hi = max(lo, v), min(hi, v)
        elif co > 0:
            hi = min(hi, v)
        else:
            lo = max(lo, v)
        over[a] = (lo, hi)
    return over


T.IV = GIV.poly


def path_equalities(cons, nz=frozenset()):
    """Equalities that hold on the path: {input: term} where solved, and the terms that vanish otherwise."""
    out = {}
    rest_eqs = []

    def zero(p):
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and T.ATOMS[m[0][0]].kind == 'abs' and len(p.d) == 1:
                return zero(T.ATOMS[m[0][0]].args[0])
        if len(p.d) == 1:
            (m, c), = p.d.items()
            ms = [a for a, e in m if e > 0]
            # a product is zero only through its single positive factor
            if len(ms) != 1:
                return
            at = T.ATOMS[ms[0]]
            if at.kind == 'def':
                return zero(at.args[0])
            if at.kind == 'inp':
                out.setdefault(at.id, T.Poly({}))
                return
        if all(c > 0 for c in p.d.values()) and all(
                len(m) == 1 and m[0][1] == 1 and T.ATOMS[m[0][0]].kind == 'abs' for m in p.d):
            for m in p.d:
                zero(T.ATOMS[m[0][0]].args[0])
            return
        best = None
        for m, c in p.d.items():
            for a, e in m:
                if T.ATOMS[a].kind != 'inp' or e != 1 or a in out or any(x not in nz for x, _ in m if x != a):
                    continue
                f = tuple((x, -k) for x, k in m if x != a)
                rest = T.times_mono(T.Poly({k: v for k, v in p.d.items() if k != m}), f)
                _, seen = closure(TR, rest.atoms() | {x for x, _ in f})
                if a in seen:
                    continue
                best = (a, T.scale(rest, -1 / c))
        if best:
            out[best[0]] = best[1]
        else:
            rest_eqs.append(p)

    def dead(a):
        at = T.ATOMS[a]
        if at.kind != 'abs':
            return False
        r = T.clear(at.args[0], out, 2000)
        return r is not None and not r[0].d

    flat = []
    false = {c.args[0].key for c in cons if c.kind == 'not'}
    nz = set(nz)
    for c in cons:
        for b in disjuncts(c.args[0]) if c.kind == 'not' else ():
            if b.kind == 'cmp' and b.args[0] == 'eq' and len(b.args[1].d) == 1:
                nz |= {a for m in b.args[1].d for a, e in m if e > 0}
    todo = list(cons)
    while todo:
        c = todo.pop(0)
        if c.kind == 'and':
            todo[:0] = list(c.args)
        elif c.kind == 'cmp':
            flat.append(c)
        elif c.kind == 'or':
            left = [x for x in disjuncts(c) if x.key not in false]
            if len(left) == 1:
                todo.insert(0, left[0])
    for c in flat:
        if c.args[0] == 'eq':
            zero(c.args[1])
    if not out:
        return out, rest_eqs
    # |x| <= |y| with y = 0
    again = True
    while again:
        again = False
        for c in flat:
            op, p = c.args
            if op == 'eq' or any(len(m) != 1 or T.ATOMS[m[0][0]].kind != 'abs' for m in p.d):
                continue
            neg = [m for m, x in p.d.items() if x < 0]
            if neg and all(dead(m[0][0]) for m in neg):
                k = len(out)
                for m, x in p.d.items():
                    if x > 0 and not dead(m[0][0]):
                        zero(T.ATOMS[m[0][0]].args[0])
                again = again or len(out) > k
    return out, rest_eqs


def divided(polys):
    """Atoms the code divided by on the way to these terms."""
    nz = set()
    seen = set()
    todo = list(polys)
    while todo:
        p = todo.pop()
        for m in p.d:
            for a, e in m:
                if e < 0:
                    nz.add(a)
                if a not in seen:
                    seen.add(a)
                    todo += [x for x in T.ATOMS[a].args if isinstance(x, T.Poly)]
    return nz


def disjuncts(b):
    if b.kind == 'or':
        return disjuncts(b.args[0]) + disjuncts(b.args[1])
    return [b]


# ------------------------------------------------------------ translation
OPAQUE = ('sqrt', 'def')


class Tr:
    """Translator; lin=True makes every non-linear monomial a bounded variable, part=True
    those with roots or definitions in them, which are then left undefined."""

    def __init__(self, lin, part=False):
        self.lin = lin
        self.part = part
        self.vars = {}
        self.invs = {}
        self.monos = {}
        self.side = {}      # atom -> (constraints, deps)
        self.pc = {}
        self.bc = {}

    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            v = self.vars[a] = z3.Real('a%d' % a)
        return v

    def inv(self, a):
        v = self.invs.get(a)
        if v is None:
            v = self.invs[a] = z3.Real('inv%d' % a)
        return v

    def mono(self, m):
        if (self.lin and (len(m) > 1 or m[0][1] != 1)
                or self.part and (len(m) > 1 or m[0][1] != 1) and any(T.ATOMS[a].kind in OPAQUE for a, _ in m)):
            v = self.monos.get(m)
            if v is None:
                v = self.monos[m] = z3.Real('m%d' % len(self.monos))
            return v
        r = None
        for a, e in m:
            v = self.var(a) if e > 0 else self.inv(a)
            for _ in range(abs(e)):
                r = v if r is None else r * v
        return r

    def poly(self, p):
        k = p.key
        r = self.pc.get(k)
        if r is None:
            ts = []
            for m, c in p.d.items():
                if m == ():
                    ts.append(rat(c))
                elif c == 1:
                    ts.append(self.mono(m))
                else:
                    ts.append(rat(c) * self.mono(m))
            if not ts:
                r = z3.RealVal(0)
            elif len(ts) == 1:
                r = ts[0]
            else:
                r = z3.Sum(ts)
            self.pc[k] = r
        return r

    def boolean(self, b):
        r = self.bc.get(b.key)
        if r is not None:
            return r
        k = b.kind
        if k == 'cmp':
            op, p = b.args
            # scale so that the leading coefficient has modest size
            e = self.poly(p)
            if op == 'lt':
                r = e < 0
            elif op == 'le':
                r = e <= 0
            else:
                r = e == 0
        elif k == 'true':
            r = z3.BoolVal(True)
        elif k == 'false':
            r = z3.BoolVal(False)
        elif k == 'not':
            r = z3.Not(self.boolean(b.args[0]))
        elif k == 'and':
            r = z3.And(self.boolean(b.args[0]), self.boolean(b.args[1]))
        elif k == 'or':
            r = z3.Or(self.boolean(b.args[0]), self.boolean(b.args[1]))
        elif k == 'z3':
            r = b.args[0]
        self.bc[b.key] = r
        return r

    def side_of(self, a):
        r = self.side.get(a)
        if r is not None:
            return r
        at = T.ATOMS[a]
        v = self.var(a)
        cs = []
        deps = set()
        k = at.kind
        if self.part and k in OPAQUE:
            if k == 'sqrt':
                cs.append(v >= 0)
            r = self.side[a] = (cs, deps)
            return r
        if k == 'inp':
            if at.lo is not None:
                cs.append(v >= rat(Fraction(at.lo)))
            if at.hi is not None:
                cs.append(v <= rat(Fraction(at.hi)))
        elif k == 'def':
            p = at.args[0]
            cs.append(v == self.poly(p))
            deps |= p.atoms()
        elif k == 'abs':
            p = at.args[0]
            e = self.poly(p)
            cs += [v >= 0, v >= e, v >= -e, z3.Or(v == e, v == -e)]
            deps |= p.atoms()
        elif k == 'max':
            x, y = self.poly(at.args[0]), self.poly(at.args[1])
            cs += [v >= x, v >= y, z3.Or(v == x, v == y)]
            deps |= at.args[0].atoms() | at.args[1].atoms()
        elif k == 'ite':
            c, p, q = at.args
            cc = self.boolean(c)
            cs += [z3.Implies(cc, v == self.poly(p)), z3.Implies(z3.Not(cc), v == self.poly(q))]
            deps |= p.atoms() | q.atoms() | T.bool_atoms(c, set())
        elif k == 'sqrt':
            p = at.args[0]
            cs.append(v >= 0)
            if not self.lin:
                cs.append(v * v == self.poly(p))
            else:
                # linear consequences of v*v == p
                e = self.poly(p)
                cs += [z3.Implies(v == 0, e == 0), z3.Implies(e == 0, v == 0),
                       z3.Implies(v <= 1, e <= 1), z3.Implies(e <= 1, v <= 1),
                       z3.Implies(v < 1, e < 1), z3.Implies(e < 1, v < 1)]
            deps |= p.atoms()
        elif k == 'pow':
            x, y = at.args
            cs += pow_axioms(v, self.poly(x), y, self.poly(y))
            deps |= x.atoms() | y.atoms()
        elif k == 'uf':
            for p in at.args[1]:
                deps |= p.atoms()
        r = self.side[a] = (cs, deps)
        return r


def pow_axioms(v, x, yp, y):
    """Facts about v = x**y for finite x >= 0 (x < 0 is split off before)."""
    c = yp.const()
    one = z3.RealVal(1)
    cs = [v >= 0]
    if c is not None:
        if c > 0:
            cs += [z3.Implies(x == 0, v == 0), z3.Implies(x > 0, v > 0),
                   z3.Implies(x == 1, v == 1), z3.Implies(x > 1, v > 1),
                   z3.Implies(z3.And(x > 0, x < 1), v < 1)]
            if c <= 1:
                # concavity: tangent at 1, and chord
                cs += [z3.Implies(x > 0, v <= 1 + rat(c) * (x - 1)),
                       z3.Implies(x >= 1, v <= x),
                       z3.Implies(z3.And(x >= 0, x <= 1), v >= x)]
            else:
                cs += [z3.Implies(x > 0, v >= 1 + rat(c) * (x - 1)),
                       z3.Implies(x >= 1, v >= x),
                       z3.Implies(z3.And(x >= 0, x <= 1), v <= x)]
        elif c < 0:
            cs += [z3.Implies(x > 0, v > 0), z3.Implies(x == 1, v == 1),
                   z3.Implies(x > 1, v < 1), z3.Implies(z3.And(x > 0, x < 1), v > 1)]
            # convexity: tangent at 1, and chord from 1/2 to 1
            cs += [z3.Implies(x > 0, v >= 1 + rat(c) * (x - 1))]
            if c >= -1:
                cs += [z3.Implies(z3.And(2 * x >= 1, x <= 1), v <= 3 - 2 * x)]
        else:
            cs += [v == 1]
    else:
        cs += [z3.Implies(x > 0, v > 0), z3.Implies(x == 1, v == 1), z3.Implies(y == 0, v == 1),
               z3.Implies(z3.And(x > 1, y > 0), v > 1), z3.Implies(z3.And(x > 1, y < 0), v < 1),
               z3.Implies(z3.And(x > 0, x < 1, y > 0), v < 1),
               z3.Implies(z3.And(x > 0, x < 1, y < 0), v > 1),
               z3.Implies(z3.And(x == 0, y > 0), v == 0)]
    return cs


TR = None
TRL = None
TRP = None


def reset():
    global TR, TRL, TRP
    TR = Tr(False)
    TRL = Tr(True)
    TRP = Tr(False, True)
    GIV.memo.clear()


reset()


def closure(tr, atoms):
    seen = set()
    todo = list(atoms)
    cs = []
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        c, deps = tr.side_of(a)
        cs.extend(c)
        todo.extend(deps - seen)
    # same-exponent powers: monotonicity between pairs
    pows = [a for a in seen if T.ATOMS[a].kind == 'pow']
    for i in range(len(pows)):
        for j in range(i + 1, len(pows)):
            p, q = T.ATOMS[pows[i]], T.ATOMS[pows[j]]
            if p.args[1].key == q.args[1].key:
                c = p.args[1].const()
                if c is not None and c > 0:
                    x, y = tr.poly(p.args[0]), tr.poly(q.args[0])
                    v, w = tr.var(p.id), tr.var(q.id)
                    cs += [z3.Implies(x <= y, v <= w), z3.Implies(y <= x, w <= v)]
    ufs = [a for a in seen if T.ATOMS[a].kind == 'uf']
    for i in range(len(ufs)):
        for j in range(i + 1, len(ufs)):
            p, q = T.ATOMS[ufs[i]], T.ATOMS[ufs[j]]
            if p.args[0] == q.args[0] and len(p.args[1]) == len(q.args[1]):
                same = z3.And([tr.poly(x) == tr.poly(y) for x, y in zip(p.args[1], q.args[1])])
                cs.append(z3.Implies(same, tr.var(p.id) == tr.var(q.id)))
    return cs, seen


_deps_cache = {}


def full_atoms(b):
    """All atoms a boolean depends on, through definitions."""
    r = _deps_cache.get(b.key)
    if r is None or r[0] is not b:
        s = T.bool_atoms(b, set())
        _, seen = closure(TR, s)
        r = _deps_cache[b.key] = (b, frozenset(seen), has_z3(b))
    return r


def has_z3(b):
    if b.kind == 'z3':
        return True
    return any(has_z3(x) for x in b.args if isinstance(x, T.Bool)) if b.kind in ('and', 'or', 'not') else False


def relevant(pc, goals):
    """Constraints of pc connected to the goals through shared atoms."""
    seen = set()
    z = False
    for g in goals:
        _, s, hz = full_atoms(g)
        seen |= s
        z = z or hz
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c in rest:
            _, s, hz = full_atoms(c)
            if (s & seen) or (hz and z):
                out.append(c)
                seen |= s
                z = z or hz
                changed = True
            else:
                nr.append(c)
        rest = nr
    return out


class Result:
    __slots__ = ('res', 'model', 'layer')

    def __init__(self, res, model=None, layer=None):
        self.res = res
        self.model = model
        self.layer = layer


def build(tr, cons, extra_z3=()):
    atoms = set()
    es = []
    for c in cons:
        T.bool_atoms(c, atoms)
        es.append(tr.boolean(c))
    cs, seen = closure(tr, atoms)
    es = cs + es + list(extra_z3)
    if tr.part:
        for a in seen:
            if a in tr.invs:
                es.append(tr.var(a) * tr.inv(a) == 1)
    if tr.lin or tr.part:
        # interval bounds of the abstracted monomials that occur
        used = set()
        polys = set()
        # all monomials of constraint polys and of definitions
        for m, v in tr.monos.items():
            if all(a in seen for a, _ in m):
                used.add(m)
        iv = Intervals(path_bounds(cons))
        for a in seen:
            k = T.ATOMS[a].kind
            if k in ('pow', 'max', 'abs', 'sqrt', 'def'):
                lo, hi = iv.atom(a)
                if lo != -INF:
                    es.append(tr.var(a) >= rat(lo))
                if hi != INF:
                    es.append(tr.var(a) <= rat(hi))
                p = T.ATOMS[a].args[0]
                if p.nn and k in ('def', 'sqrt'):
                    es.append(tr.poly(p) >= 0)
        for m in used:
            lo, hi = iv.mono(m)
            v = tr.monos[m]
            if lo != -INF:
                es.append(v >= rat(lo))
            if hi != INF:
                es.append(v <= rat(hi))
    else:
        for a in seen:
            if a in tr.invs:
                es.append(tr.var(a) * tr.inv(a) == 1)
    return es, seen


_cache = {}


def check(cons, want_model=False, timeout=5000, lin=True, extra_z3=(), nl=True):
    """Satisfiability of a conjunction of Bool terms."""
    for c in cons:
        if c is T.FALSE:
            STATS.n += 1
            STATS.rec('const', 'unsat', 0.0)
            return Result('unsat', layer='const')
    cons = [c for c in cons if c is not T.TRUE]
    key = None
    if not extra_z3:
        key = frozenset(c.key for c in cons)
        r = _cache.get(key)
        if r is not None and (r.res == 'unsat' or (r.res == 'sat' and (r.model is not None or not want_model))):
            return r
    STATS.n += 1
    t0 = time.time()
    r = _check(cons, want_model, timeout, lin, extra_z3, nl)
    STATS.time += time.time() - t0
    if r.res == 'unknown':
        STATS.unknown += 1
    elif key is not None:
        _cache[key] = r
    return r


def limit(s, ms, slack=3):
    """Bounds a query by the solver's own work count, so that a busy machine gives the same answers; the clock is the second bound."""
    s.set('rlimit', int(1300 * ms))
    s.set('timeout', int(slack * ms))


def _check(cons, want_model, timeout, lin, extra_z3, nl=True):
    if lin:
        t = time.time()
        es, _ = build(TRL, cons, extra_z3)
        s = z3.SolverFor('QF_LRA') if not any(has_z3(c) for c in cons) else z3.Solver()
        limit(s, min(timeout, 4000))
        s.add(es)
        r = s.check()
        STATS.rec('lin', str(r), time.time() - t)
        if r == z3.unsat:
            return Result('unsat', layer='lin')
        if not any(has_z3(c) for c in cons) and nl and any(T.ATOMS[a].kind in OPAQUE for c in cons for a in T.bool_atoms(c, set())):
            t = time.time()
            es, _ = build(TRP, cons, extra_z3)
            s = z3.Solver()
            limit(s, min(timeout, 500))
            s.add(es)
            r = s.check()
            STATS.rec('part', str(r), time.time() - t)
            if r == z3.unsat:
                return Result('unsat', layer='part')
    if not nl and sum(len(p.d) for p in polys_of(cons)) > 150:
        return Result('unknown')
    es, seen = build(TR, cons, extra_z3)
    for layer in ('smt', 'nlsat', 'smt2', 'nlsat2') if nl else ('smt',):
        t = time.time()
        if layer.startswith('smt'):
            s = z3.Solver()
            to = min(1000, timeout) if layer == 'smt' else timeout
        else:
            if any(has_z3(c) for c in cons):
                continue
            s = z3.Tactic('qfnra-nlsat').solver()
            to = min(2000, timeout) if layer == 'nlsat' else timeout
        if layer.endswith('2') and timeout <= 2000:
            continue
        limit(s, int(to), 3 if layer.startswith('smt') else 1.5)
        s.add(es)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS.rec(layer, str(r), time.time() - t)
        if r == z3.unsat:
            return Result('unsat', layer=layer)
        if r == z3.sat:
            m = None
            if want_model:
                zm = s.model()
                m = {}
                for a in seen:
                    if T.ATOMS[a].kind in ('inp', 'pow', 'uf'):
                        v = zm.eval(TR.var(a), model_completion=True)
                        m[a] = z3frac(v)
                m['z3'] = zm
            return Result('sat', m, layer)
    return Result('unknown')


def polys_of(cons):
    """Every polynomial a query is about, through definitions."""
    out = []
    atoms = set()

    def walk(b):
        if b.kind == 'cmp':
            out.append(b.args[1])
            atoms.update(b.args[1].atoms())
        elif b.kind in ('not', 'and', 'or'):
            for x in b.args:
                walk(x)
    for c in cons:
        walk(c)
    _, seen = closure(TR, atoms)
    for a in seen:
        for x in T.ATOMS[a].args:
            if isinstance(x, T.Poly):
                out.append(x)
            elif isinstance(x, T.Bool):
                walk(x)
    return out


def z3frac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def to_smt2(cons):
    es, _ = build(TR, cons)
    s = z3.Solver()
    s.add(es)
    return s.to_smt2()


def cvc5_check(cons, timeout=20000):
    txt = '(set-logic QF_NRA)\n' + '\n'.join(
        l for l in to_smt2(cons).split('\n') if not l.startswith('(set-info') and not l.startswith('(set-logic'))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        nm = f.name
    try:
        t = time.time()
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, nm], capture_output=True, text=True)
        out = p.stdout.strip().split('\n')[-1] if p.stdout.strip() else 'unknown'
        if '(error' in p.stdout:
            out = 'unknown'
        if out not in ('sat', 'unsat'):
            out = 'unknown'
        STATS.rec('cvc5', out, time.time() - t)
        return out
    finally:
        os.unlink(nm)
