"""Symbolic terms: exact-real polynomials over atoms, and booleans over them.

A symbolic f64 is a `Poly`: a (Laurent) polynomial with rational coefficients
over atoms.  Atoms are inputs, or auxiliary values (quotient denominators,
square roots, powers, absolute values, max/min, if-then-else) that carry
defining constraints.  Polynomials are kept in normal form; every question
about them is put to an SMT solver (smt.py).
"""
from fractions import Fraction

DEF_LIMIT = 600       # products with more monomials than this are cut by a definition


class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'lo', 'hi')

    def __init__(self, id, kind, args, name=None, lo=None, hi=None):
        self.id = id
        self.kind = kind
        self.args = args
        self.name = name
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return self.name or '%s_%d' % (self.kind, self.id)


class Poly:
    __slots__ = ('d', '_key', '_atoms', 'nn')

    def __init__(self, d, nn=False):
        self.d = d
        self._key = None
        self._atoms = None
        self.nn = nn            # known to be >= 0 by construction (squares, sums of squares)

    @property
    def key(self):
        k = self._key
        if k is None:
            fs = frozenset(self.d.items())
            k = _intern.get(fs)
            if k is None:
                k = len(_intern) + 1
                _intern[fs] = k
                _bykey[k] = self
            elif self.nn:
                _bykey[k].nn = True
            self._key = k
        return k

    def const(self):
        d = self.d
        if not d:
            return Fraction(0)
        if len(d) == 1 and () in d:
            return d[()]
        return None

    def atoms(self):
        a = self._atoms
        if a is None:
            a = set()
            for m in self.d:
                for x, _ in m:
                    a.add(x)
            self._atoms = a
        return a

    def atoms_now(self):
        return {x for m in self.d for x, _ in m}

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for m, c in sorted(self.d.items(), key=lambda kv: (len(kv[0]), kv[0]))[:12]:
            s = '%.6g' % float(c) if abs(c) < 10**300 else str(c)
            for x, e in m:
                s += '*%r' % ATOMS[x] + ('^%d' % e if e != 1 else '')
            out.append(s)
        if len(self.d) > 12:
            out.append('...(%d)' % len(self.d))
        return ' + '.join(out)


_intern = {}
_bykey = {}
ATOMS = []
_atomtab = {}


def reset():
    _intern.clear()
    _bykey.clear()
    ATOMS.clear()
    _atomtab.clear()
    _btab.clear()
    _snapped.clear()
    _init_consts()


def mkatom(kind, key, args, name=None, lo=None, hi=None):
    k = (kind,) + key
    a = _atomtab.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, args, name, lo, hi)
        ATOMS.append(a)
        _atomtab[k] = a
    return a


def atom_poly(a):
    return Poly({((a.id, 1),): Fraction(1)})


def const(c):
    c = Fraction(c)
    return Poly({(): c}) if c else Poly({})


def inp(name, lo=None, hi=None):
    a = mkatom('inp', (name,), (), name, lo, hi)
    return atom_poly(a)


SNAP = False          # coefficients that agree to about 40 bits are taken as equal
_snapped = {}


def left(x, c, bits=44):
    """Whether anything is left of a coefficient that became x when c was added to it."""
    if not SNAP:
        return bool(x)
    return bool(x) and (x.numerator.bit_length() - x.denominator.bit_length()
                        > c.numerator.bit_length() - c.denominator.bit_length() - bits)


def add(a, b):
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m)
        if x is None:
            d[m] = c
        else:
            x = x + c
            if left(x, c):
                d[m] = x
            else:
                del d[m]
    return Poly(d, nonneg(a) and nonneg(b))


def scale(a, c):
    if not c:
        return Poly({})
    if c == 1:
        return a
    return Poly({m: x * c for m, x in a.d.items()}, a.nn and c > 0)


def neg(a):
    return Poly({m: -x for m, x in a.d.items()})


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    """Merge monomials. Returns (mono, needs_rewrite)."""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    out = []
    i = j = 0
    rw = False
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            g = e + f
            if g:
                out.append((a, g))
                if g >= 2 and ATOMS[a].kind in ('sqrt', 'abs'):
                    rw = True
            i += 1
            j += 1
        elif a < b:
            out.append((a, e))
            i += 1
        else:
            out.append((b, f))
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), rw


def mul(a, b):
    ca = a.const()
    if ca is not None:
        return scale(b, ca)
    cb = b.const()
    if cb is not None:
        return scale(a, cb)
    if len(a.d) > 1 and len(a.d) == len(b.d) and a.key == b.key:
        return square(a)
    if len(a.d) * len(b.d) > DEF_LIMIT:
        # cut: name the larger factor
        if len(a.d) > len(b.d):
            a = defn(a)
        else:
            b = defn(b)
        if len(a.d) * len(b.d) > DEF_LIMIT:
            if len(a.d) > 1:
                a = defn(a)
            else:
                b = defn(b)
    d = {}
    nn = a is b or a.key == b.key or (nonneg(a) and nonneg(b))
    extra = None
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, rw = mono_mul(m1, m2)
            c = c1 * c2
            if rw:
                t = rewrite(m, c)
                extra = t if extra is None else add(extra, t)
                continue
            x = d.get(m)
            if x is None:
                d[m] = c
            else:
                x = x + c
                if left(x, c):
                    d[m] = x
                else:
                    del d[m]
    r = Poly(d)
    if extra is not None:
        r = add(r, extra)
    r.nn = r.nn or nn
    return r


def content(p):
    """p = c * m * core with core having no monomial factor and leading coefficient 1."""
    com = None
    for m in p.d:
        e = dict(m)
        if com is None:
            com = e
        else:
            for a in set(com) | set(e):
                com[a] = min(com.get(a, 0), e.get(a, 0))
    m = tuple(sorted((a, e) for a, e in com.items() if e))
    inv = tuple((a, -e) for a, e in m)
    core = {mono_mul(x, inv)[0]: c for x, c in p.d.items()}
    c = core[min(core)]
    return c, m, Poly({x: y / c for x, y in core.items()})


def square(p):
    """p*p with p named, so that sums of squares stay recognisable."""
    c, m, core = content(p)
    a = defn(core)
    (am, _), = a.d.items()
    r = Poly({tuple((x, 2 * e) for x, e in m): c * c}) if m else const(c * c)
    rw = any(ATOMS[x].kind in ('sqrt', 'abs') and e >= 1 for x, e in m)
    if rw:
        r = rewrite(tuple((x, 2 * e) for x, e in m), c * c)
    r = mul(r, Poly({tuple((x, 2 * e) for x, e in am): Fraction(1)}))
    r.nn = True
    return r


def rewrite(m, c):
    """sqrt(P)^2 -> P, |P|^2 -> P^2."""
    rest = []
    r = const(c)
    for a, e in m:
        at = ATOMS[a]
        if e >= 2 and at.kind in ('sqrt', 'abs'):
            p = at.args[0]
            if at.kind == 'abs':
                p = mul(p, p)
            for _ in range(e // 2):
                r = mul(r, p)
            if e % 2:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    return mul(r, Poly({tuple(rest): Fraction(1)}))


def defn(p):
    """An atom equal to p (keeps normal form small)."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return p
    if SNAP:
        k = lead(p)
        p = snap(scale(p, 1 / k))
        return scale(atom_poly(mkatom('def', (p.key,), (p,))), k)
    a = mkatom('def', (p.key,), (p,))
    return atom_poly(a)


def proportional(n, d):
    """c with n == c*d, or None."""
    if len(n.d) != len(d.d):
        return None
    c = None
    for m, x in n.d.items():
        y = d.d.get(m)
        if y is None:
            return None
        q = x / y
        if c is None:
            c = q
        elif c != q:
            return None
    return c


def div(n, d):
    """n / d, assuming d != 0 holds on the path."""
    c = d.const()
    if c is not None:
        return scale(n, 1 / c)
    if not n.d:
        return n
    c = proportional(n, d)
    if c is not None:
        return const(c)
    if len(d.d) > 1:
        # pull out the content so that proportional denominators share an atom
        lead = min(d.d)
        lc = d.d[lead]
        dn = scale(d, 1 / lc)
        d = scale(defn(dn), lc)
    (m, c), = d.d.items()
    inv = Poly({tuple((a, -e) for a, e in m): 1 / c})
    return mul(n, inv)


def times_mono(p, m):
    return Poly({mono_mul(m, x)[0]: c for x, c in p.d.items()})


def raw_mul(a, b, limit):
    """Product without naming subterms; None when it gets too large."""
    if len(a.d) * len(b.d) > 40 * limit:
        return None
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, _ = mono_mul(m1, m2)
            c = c1 * c2
            x = d.get(m, 0) + c
            if left(x, c):
                d[m] = x
            else:
                d.pop(m, None)
    return Poly(d) if len(d) <= limit else None


def subst(p, a, q, limit):
    """p with atom a (non-negative exponents only) replaced by q."""
    if not p.d:
        return p
    parts = {}
    for m, c in p.d.items():
        e = 0
        rest = m
        for x, k in m:
            if x == a:
                e = k
                rest = tuple(t for t in m if t[0] != a)
                break
        parts.setdefault(e, {})[rest] = c
    top = max(parts)
    r = Poly(parts.get(top, {}))
    for e in range(top - 1, -1, -1):
        r = raw_mul(r, q, limit)
        if r is None:
            return None
        if e in parts:
            r = add(r, Poly(parts[e]))
    return r


def reduce(p, q, limit=60000):
    """Remainder of p modulo q (no negative exponents in either), lexicographic order."""
    def key(m):
        # lexicographic on exponent vectors, smallest atom first
        return [(-a, e) for a, e in m]
    lead = max(q.d, key=key)
    lc = q.d[lead]
    ld = dict(lead)
    tail = [(m, c / lc) for m, c in q.d.items() if m != lead]
    d = dict(p.d)
    rem = {}
    steps = 0
    while d:
        m = max(d, key=key)
        c = d.pop(m)
        md = dict(m)
        if all(md.get(a, 0) >= e for a, e in ld.items()):
            f = mono_mul(m, tuple((a, -e) for a, e in lead))[0]
            for t, x in tail:
                k = mono_mul(t, f)[0]
                y = d.get(k, 0) - c * x
                if y:
                    d[k] = y
                else:
                    d.pop(k, None)
        else:
            rem[m] = c
        steps += 1
        if steps > 20000 or len(d) + len(rem) > limit:
            return None
    return Poly(rem)


LONG = 700


def shorten(c):
    """c to 350 bits when it is longer than LONG (coefficients of unrounded constant arithmetic)."""
    n, d = abs(c.numerator), c.denominator
    if n.bit_length() <= LONG and d.bit_length() <= LONG:
        return c
    k = 350 - n.bit_length() + d.bit_length()
    v = Fraction((n << k) // d, 1 << k) if k >= 0 else Fraction((n // (d << -k)) << -k)
    return v if c > 0 else -v


def snap(p):
    """The first term seen that agrees with p to 40 bits in each coefficient."""
    if not SNAP:
        return p
    seen = _snapped.setdefault(tuple(sorted(p.d)), [])
    for r in seen:
        if all(c == r.d[m] or not left(c - r.d[m], c, 40) for m, c in p.d.items()):
            r.nn = r.nn or p.nn
            return r
    seen.append(p)
    return p


def lead(p):
    """Magnitude of the coefficient terms are normalised by."""
    return abs(p.d[min(p.d)])


def short(p):
    """p with long coefficients shortened and without what is left of terms that cancelled but for that."""
    if len(p.d) > 1:
        size = {m: c.numerator.bit_length() - c.denominator.bit_length() for m, c in p.d.items()}
        top = max(size.values()) - 250
        if min(size.values()) < top:
            p = Poly({m: c for m, c in p.d.items() if size[m] >= top})
    for c in p.d.values():
        if c.denominator.bit_length() > LONG or c.numerator.bit_length() > LONG:
            return Poly({m: shorten(c) for m, c in p.d.items()})
    return p


def clear(p, sub=None, limit=60000, keep=None):
    """(N, den): p = N / prod(atom^k for den), N without negative exponents and definitions.

    `sub` maps atoms to terms they equal on the path.  `keep` stops the expansion of
    definitions whose atoms it contains.  None when the expansion gets too large.
    """
    sub = sub or {}
    keep = keep or ()
    den = {}
    for _ in range(400):
        best = None
        for a in p.atoms_now():
            at = ATOMS[a]
            d = a in sub or (at.kind == 'def' and a not in keep)
            low = 0
            if not d:
                low = min((e for m in p.d for x, e in m if x == a), default=0)
                if low >= 0:
                    continue
            r = (1, list(sub).index(a)) if a in sub else (0, a)
            if best is None or r > best[0]:
                best = (r, a, d)
        if best is None:
            # sqrt and abs squares that appeared on the way
            hit = next((m for m in p.d for x, e in m if e >= 2 and ATOMS[x].kind in ('sqrt', 'abs')), None)
            if hit is None:
                return p, den
            a = next(x for x, e in hit if e >= 2 and ATOMS[x].kind in ('sqrt', 'abs'))
            q = ATOMS[a].args[0]
            if ATOMS[a].kind == 'abs':
                q = raw_mul(q, q, limit)
                if q is None:
                    return None
            out = Poly({})
            parts = {}
            for m, c in p.d.items():
                e = next((k for x, k in m if x == a), 0)
                rest = tuple(t for t in m if t[0] != a)
                if e % 2:
                    rest = mono_mul(rest, ((a, 1),))[0]
                parts.setdefault(e // 2, {})[rest] = c
            for k in range(max(parts), -1, -1):
                if out.d:
                    out = raw_mul(out, q, limit)
                    if out is None:
                        return None
                if k in parts:
                    out = add(out, Poly(parts[k]))
            p = out
            continue
        _, a, d = best
        low = min((e for m in p.d for x, e in m if x == a), default=0)
        if low < 0:
            den[a] = den.get(a, 0) - low
            p = times_mono(p, ((a, -low),))
        if d:
            p = subst(p, a, sub[a] if a in sub else ATOMS[a].args[0], limit)
            if p is None:
                return None
            p = short(p)
        if not p.d:
            return p, den
    return None


def nonneg(p):
    """Syntactic proof that p >= 0."""
    if p.nn:
        return True
    for m, c in p.d.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            at = ATOMS[a]
            if at.kind in ('sqrt', 'abs', 'pow'):
                continue
            if at.lo is not None and at.lo >= 0:
                continue
            if at.kind == 'def' and nonneg(at.args[0]):
                continue
            if at.kind == 'max' and (nonneg(at.args[0]) or nonneg(at.args[1])):
                continue
            return False
    return True


def pabs(p):
    c = p.const()
    if c is not None:
        return const(abs(c))
    if nonneg(p):
        return p
    n = neg(p)
    if nonneg(n):
        return n
    lo, hi = IV(p) if IV else (None, None)
    if lo is not None and lo >= 0:
        return p
    if hi is not None and hi <= 0:
        return n
    if len(p.d) == 1:
        (m, c), = p.d.items()
        core = Poly({m: Fraction(1)})
        return scale(atom_poly(mkatom('abs', (core.key,), (core,))), abs(c))
    if p.d[min(p.d)] < 0:
        p = n
    k = 1
    if SNAP:
        k = lead(p)
        p = snap(scale(p, 1 / k))
    return scale(atom_poly(mkatom('abs', (p.key,), (p,))), k)


def psqrt(p):
    """sqrt(p) assuming p >= 0 on the path."""
    c = p.const()
    if c is not None:
        from math import isqrt
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return const(Fraction(a, b))
        # an irrational constant, to 200 bits
        k = max(0, 200 + (c.denominator.bit_length() - c.numerator.bit_length()) // 2)
        return const(Fraction(isqrt((c.numerator << 2 * k) // c.denominator), 1 << k))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if m and all(e % 2 == 0 for _, e in m):
            half = Poly({tuple((a, e // 2) for a, e in m): Fraction(1)})
            cr = psqrt(const(c))
            return mul(cr, pabs(half))
    if not p.d:
        return p
    if SNAP:
        k = lead(p)
        p = snap(scale(p, 1 / k))
        return mul(psqrt(const(k)), atom_poly(mkatom('sqrt', (p.key,), (p,))))
    return atom_poly(mkatom('sqrt', (p.key,), (p,)))


def max_args(p):
    """(a, b) for a term that is max(a, b), or None."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'max':
            return ATOMS[m[0][0]].args
    return None


def pmax(a, b):
    d = sub(a, b)
    c = d.const()
    if c is not None:
        return a if c >= 0 else b
    if nonneg(d):
        return a
    if nonneg(neg(d)):
        return b
    lo, hi = IV(d) if IV else (None, None)
    if lo is not None and lo >= 0:
        return a
    if hi is not None and hi <= 0:
        return b
    a, b = snap(a), snap(b)
    for x, y in ((a, b), (b, a)):
        # max(max(p, q), r) with q and r constant
        args = max_args(x)
        if args is None:
            continue
        if y.key in (args[0].key, args[1].key):
            return x
        if y.const() is not None:
            for p, q in (args, args[::-1]):
                if q.const() is not None:
                    return x if q.const() >= y.const() else pmax(p, y)
    if a.key > b.key:
        a, b = b, a
    return atom_poly(mkatom('max', (a.key, b.key), (a, b)))


def pmin(a, b):
    return neg(pmax(neg(a), neg(b)))


def pite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.key == b.key:
        return a
    if c.kind == 'cmp' and c.args[0] in ('lt', 'le'):
        # b < a ? a : b and the like
        d = sub(b, a)
        p = c.args[1]
        if p.d.keys() == d.d.keys():
            k = lead(d)
            d = snap(scale(d, 1 / k))
            p = snap(scale(p, 1 / lead(p)))
            if d.key == p.key:
                return pmax(a, b)
            if d.key == snap(neg(p)).key:
                return pmin(a, b)
    return atom_poly(mkatom('ite', (c.key, a.key, b.key), (c, a, b)))


def ppow(x, y):
    c = y.const()
    if c is not None and len(x.d) == 1:
        # near-equal factors share one term: (f*m)^y = (f/g)^y * (g*m)^y with g = f to 40 bits
        (m, f), = x.d.items()
        if f > 0:
            b = f.numerator.bit_length() - f.denominator.bit_length() - 40
            u = Fraction(2) ** b
            g = Fraction(round(f / u)) * u
            if g != f:
                x = Poly({m: g})
                r = atom_poly(mkatom('pow', (x.key, y.key), (x, y)))
                return scale(r, 1 + c * (f / g - 1))
    x = snap(x)
    return atom_poly(mkatom('pow', (x.key, y.key), (x, y)))


def uf(name, args):
    return atom_poly(mkatom('uf', (name,) + tuple(a.key for a in args), (name, args)))


# ------------------------------------------------------------------ booleans
class Bool:
    __slots__ = ('kind', 'args', 'key')

    def __init__(self, kind, args, key):
        self.kind = kind
        self.args = args
        self.key = key

    def __repr__(self):
        if self.kind == 'cmp':
            return '(%r %s 0)' % (self.args[1], self.args[0])
        return '%s(%s)' % (self.kind, ', '.join(map(repr, self.args)))


_btab = {}
IV = None        # interval evaluation of a polynomial, set by smt


def _mk(kind, args, key):
    k = (kind,) + key
    b = _btab.get(k)
    if b is None:
        b = Bool(kind, args, len(_btab) + 1)
        _btab[k] = b
    return b


def _init_consts():
    global TRUE, FALSE
    TRUE = Bool('true', (), -1)
    FALSE = Bool('false', (), -2)


_init_consts()


def boolc(b):
    return TRUE if b else FALSE


def cmp(op, p):
    """op in lt, le, eq  -- p op 0"""
    if SNAP and len(p.d) > 1:
        p = snap(scale(p, 1 / lead(p)))
    c = p.const()
    if c is not None:
        return boolc({'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op])
    if op == 'lt' and nonneg(p):
        return FALSE
    if len(p.d) <= 24 and IV is not None:
        lo, hi = IV(p)
        if op == 'lt':
            if hi < 0:
                return TRUE
            if lo >= 0:
                return FALSE
        elif op == 'le':
            if hi <= 0:
                return TRUE
            if lo > 0:
                return FALSE
        elif lo > 0 or hi < 0:
            return FALSE
    if op == 'eq' or (op == 'le' and nonneg(p)):
        z = zero_parts(p)
        if z is not None:
            r = TRUE
            for q in z:
                r = band(r, cmp('eq', q))
            return r
        # zero when the core or a common factor is; denominators are not zero on the path
        _, m, core = content(p)
        r = FALSE
        if len(core.d) > 1:
            r = _mk('cmp', ('eq', core), ('eq', core.key))
        for a, e in m:
            if e > 0:
                r = bor(r, cmp('eq', Poly({((a, 1),): Fraction(1)})) if len(p.d) > 1 or len(m) > 1 else
                        _mk('cmp', ('eq', p), ('eq', Poly({((a, 1),): Fraction(1)}).key)))
        return r
    elif op == 'lt' and nonneg(neg(p)):
        return bnot(cmp('eq', p))
    return _mk('cmp', (op, p), (op, p.key))


def zero_parts(p):
    """Terms that all vanish exactly when p does, if p is a sum of magnitudes or a named term."""
    pos = all(c > 0 for c in p.d.values())
    if len(p.d) > 1 and not pos:
        if not all(c < 0 for c in p.d.values()):
            return None
    out = []
    for m in p.d:
        up = [(a, e) for a, e in m if e > 0]
        if len(up) != 1:
            return None
        a, e = up[0]
        k = ATOMS[a].kind
        if any(ATOMS[x].kind not in ('abs', 'sqrt', 'pow') and f % 2 for x, f in m if x != a) and len(p.d) > 1:
            return None
        if k == 'abs' or k == 'sqrt':
            out.append(ATOMS[a].args[0])
        elif k == 'def' and (e % 2 == 0 or len(p.d) == 1):
            out.append(ATOMS[a].args[0])
        elif e % 2 == 0 or (len(p.d) == 1 and len(m) > 1):
            out.append(Poly({((a, 1),): Fraction(1)}))
        else:
            return None
    return out


def lt(a, b):
    return cmp('lt', sub(a, b))


def le(a, b):
    return cmp('le', sub(a, b))


def eq(a, b):
    return cmp('eq', sub(a, b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == 'not':
        return b.args[0]
    if b.kind == 'cmp':
        op, p = b.args
        if op == 'lt':
            return cmp('le', neg(p))
        if op == 'le':
            return cmp('lt', neg(p))
    return _mk('not', (b,), (b.key,))


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return _mk('and', (a, b), (a.key, b.key))


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return _mk('or', (a, b), (a.key, b.key))


def bxor(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return bnot(b)
    if b is TRUE:
        return bnot(a)
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return bor(band(c, a), band(bnot(c), b))


def bz3(e):
    """wrap a z3 boolean expression (bit-vector reasoning)."""
    return _mk('z3', (e,), ('z3', e.get_id()))


def bool_atoms(b, acc):
    if b.kind == 'cmp':
        acc |= b.args[1].atoms()
    elif b.kind in ('not', 'and', 'or'):
        for x in b.args:
            bool_atoms(x, acc)
    return acc


def under(p, holds, memo):
    """p with the max, abs and if-then-else terms in it decided where holds(condition) does so."""
    changed = {}
    for a in p.atoms_now():
        r = memo.get(a)
        if r is None:
            r = memo[a] = under_atom(a, holds, memo)
        if r is not ATOMS[a]:
            changed[a] = r
    if not changed:
        return p
    out = Poly({})
    for m, c in p.d.items():
        t = Poly({tuple((a, e) for a, e in m if a not in changed): c})
        for a, e in m:
            if a in changed:
                for _ in range(abs(e)):
                    t = mul(t, changed[a]) if e > 0 else div(t, changed[a])
        out = add(out, t)
    return out


def under_atom(a, holds, memo):
    at = ATOMS[a]
    k = at.kind
    if k == 'inp' or k == 'uf':
        return at
    if k == 'ite':
        c = at.args[0]
        x, y = at.args[1], at.args[2]
        if holds(c):
            return under(x, holds, memo)
        if holds(bnot(c)):
            return under(y, holds, memo)
        u, v = under(x, holds, memo), under(y, holds, memo)
        return at if u is x and v is y else pite(c, u, v)
    if k == 'max':
        x, y = at.args
        u, v = under(x, holds, memo), under(y, holds, memo)
        if holds(le(v, u)):
            return u
        if holds(le(u, v)):
            return v
        return at if u is x and v is y else pmax(u, v)
    x = at.args[0]
    u = under(x, holds, memo)
    if k == 'abs':
        if holds(le(const(0), u)):
            return u
        if holds(le(u, const(0))):
            return neg(u)
        return at if u is x else pabs(u)
    if u is x:
        return at
    if k == 'def':
        return u if len(u.d) == 1 else defn(u)
    if k == 'sqrt':
        return psqrt(u)
    if k == 'pow':
        c = u.const()
        return at if c is not None else ppow(u, at.args[1])
    return at


def under_bool(b, holds, memo):
    """The condition b with the terms in it decided in the same way."""
    k = b.kind
    if k == 'cmp':
        p = under(b.args[1], holds, memo)
        return b if p is b.args[1] else cmp(b.args[0], p)
    if k == 'not':
        x = under_bool(b.args[0], holds, memo)
        return b if x is b.args[0] else bnot(x)
    if k in ('and', 'or'):
        x, y = under_bool(b.args[0], holds, memo), under_bool(b.args[1], holds, memo)
        return b if x is b.args[0] and y is b.args[1] else (band if k == 'and' else bor)(x, y)
    return b
