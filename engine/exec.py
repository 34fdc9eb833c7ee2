"""Symbolic executor for LLVM IR.

Integers, pointers and control are concrete where the program makes them so;
f64 values are either concrete IEEE doubles (including NaN and infinities,
computed exactly as the machine does) or symbolic finite reals (terms.Poly).
Symbolic branches fork; each side is kept only if the solver does not refute it.
"""
import math
import random
import struct
import time
from fractions import Fraction

import z3

import ll
import smt
import terms as T
import witness as W
from ll import Unsupported

MASK64 = (1 << 64) - 1
OBJ_SHIFT = 32
FUNC_BASE = 0x7000_0000_0000_0000


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class SInt:
    """symbolic integer: a z3 bit-vector z, or a zero-extended bool b"""
    __slots__ = ('w', 'z', 'b')

    def __init__(self, w, z=None, b=None):
        self.w = w
        self.z = z
        self.b = b

    def zz(self):
        return self.z


class DBits:
    """integer view of a symbolic double"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Obj:
    __slots__ = ('base', 'size', 'cells', 'raw', 'owner', 'alive', 'name')

    def __init__(self, base, size, raw=None, owner=None, name=None):
        self.base = base
        self.size = size
        self.cells = {}
        self.raw = raw          # bytes background (None: uninitialised)
        self.owner = owner
        self.alive = True
        self.name = name

    def copy(self, owner):
        o = Obj(self.base, self.size, self.raw, owner, self.name)
        o.cells = dict(self.cells)
        o.alive = self.alive
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'regs', 'dest', 'cont', 'allocas')

    def __init__(self, fn, dest, cont):
        self.fn = fn
        self.blk = fn.entry
        self.idx = 0
        self.regs = {}
        self.dest = dest
        self.cont = cont        # label for invoke
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.dest = self.dest
        f.cont = self.cont
        f.allocas = list(self.allocas)
        return f


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcset = set()
        self.forced = []
        self.fi = 0
        self.done = []          # decisions taken in the current instruction
        self.inputs = []        # (tag, occ, kind, value/atom)
        self.occ = {}
        self.obs = []
        self.reached = set()
        self.nextobj = 16
        self.owner = object()
        self.steps = 0
        self.depth = 0
        self.checks = 0
        self.envs = []
        self.nd = 0             # symbolic decisions so far, and their digest
        self.sig = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.forced = []
        s.fi = 0
        s.done = []
        s.inputs = list(self.inputs)
        s.occ = dict(self.occ)
        s.obs = list(self.obs)
        s.reached = set(self.reached)
        s.nextobj = self.nextobj
        s.owner = object()
        self.owner = object()
        s.steps = self.steps
        s.depth = self.depth + 1
        s.checks = self.checks
        s.envs = self.envs
        s.nd = self.nd
        s.sig = self.sig
        return s

    def note(self, d):
        self.nd += 1
        self.sig = (self.sig * 1000003 + 7 + 2 * int(d)) % 2305843009213693951

    def assume(self, b):
        if b is T.TRUE or b.key in self.pcset:
            return
        if b.kind == 'and':
            self.assume(b.args[0])
            self.assume(b.args[1])
            return
        self.pc.append(b)
        self.pcset.add(b.key)
        if self.envs and not W.is_bv(b):
            self.envs = [e for e in self.envs if W.test(e, b) is True]


def f2bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits2f(i):
    return struct.unpack('<d', struct.pack('<Q', i))[0]


def norm(p):
    """Poly -> python float when it is a constant that is a double."""
    c = p.const()
    if c is not None:
        try:
            f = float(c)
        except OverflowError:
            return p
        if not math.isinf(f) and Fraction(f) == c:
            return f
    return T.short(p)


def P(x):
    """finite float or Poly -> Poly"""
    if isinstance(x, float):
        return T.const(Fraction(x))
    return x


def isspecial(x):
    return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def c_div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or math.isnan(a):
            return float('nan')
        s = math.copysign(1.0, a) * math.copysign(1.0, b)
        return s * float('inf')


def c_pow(x, y):
    try:
        r = math.pow(x, y)
        return r
    except OverflowError:
        if x < 0 and float(y).is_integer() and int(y) % 2:
            return -float('inf')
        return float('inf')
    except ValueError:
        if x == 0 and y < 0:
            if float(y).is_integer() and int(y) % 2:
                return math.copysign(float('inf'), x)
            return float('inf')
        return float('nan')


def c_powi(a, b):
    recip = b < 0
    r = 1.0
    n = abs(b)
    while True:
        if n & 1:
            r *= a
        n >>= 1
        if n == 0:
            break
        a *= a
    return c_div(1.0, r) if recip else r


def c_fma(a, b, c):
    if any(math.isnan(v) or math.isinf(v) for v in (a, b, c)):
        return a * b + c
    r = Fraction(a) * Fraction(b) + Fraction(c)
    if r == 0:
        return a * b + c
    try:
        return float(r)
    except OverflowError:
        return float('inf') if r > 0 else -float('inf')


NAN = float('nan')
INF = float('inf')

PANIC_MARKS = ('9panicking', 'rust_begin_unwind', 'handle_alloc_error', 'raw_vec12handle_error',
               'raw_vec17capacity_overflow', '@abort', 'llvm.trap', 'rust_panic',
               'unwrap_failed', 'expect_failed')


class Config:
    def __init__(self):
        self.feas_timeout = 150
        self.check_timeout = 20000
        self.max_paths = 20000
        self.max_steps = 3000000
        self.deadline = None
        self.concrete = None      # {tag: [values]} => concrete replay
        self.stop_on_violation = True
        self.verbose = False
        self.seed = 1
        self.tags = None          # check tags that count (None: all)
        self.generic = False      # leave out the sides of branches on which a term vanishes exactly
        self.exact = False        # no rounding between concrete doubles either
        self.snap = False         # coefficients that agree to 40 bits are equal (see terms.snap)
        self.shard = None         # (i, n, depth): only paths whose first decisions hash to i
        self.fixed = {}           # choice tag -> value, to split a harness into jobs


class Violation:
    def __init__(self, tag, kind, inputs, model, pc, neg, info=None):
        self.tag = tag
        self.kind = kind
        self.inputs = inputs
        self.model = model
        self.pc = pc
        self.neg = neg
        self.info = info


class Executor:
    def __init__(self, mod, cfg):
        self.mod = mod
        self.cfg = cfg
        self.faddr = {}
        self.fnames = {}
        self.gaddr = {}
        self.gobjs = {}
        self.gnext = 1
        self.work = []
        self.violations = []
        self.inconclusive = []
        self.paths = 0
        self.ended = {}
        self.reached = {}
        self.total_steps = 0
        self.forks = 0
        self.checks = 0
        self.check_tags = {}
        self.complete_states = []
        self.funcs_run = set()
        self.left_out = 0         # branch sides not followed (cfg.generic)
        self.nenv = 4
        self.rng = random.Random(cfg.seed)
        self.exact = cfg.exact and cfg.concrete is None

    # ---------------------------------------------------------- memory
    def new_obj(self, st, size, raw=None, name=None):
        oid = 0x10000 + st.nextobj
        st.nextobj += 1
        base = oid << OBJ_SHIFT
        st.mem[oid] = Obj(base, size, raw, st.owner, name)
        return base

    def func_addr(self, name):
        a = self.faddr.get(name)
        if a is None:
            a = self.faddr[name] = FUNC_BASE + 16 * (len(self.faddr) + 1)
            self.fnames[a] = name
        return a

    def glob_addr(self, name):
        al = self.mod.aliases.get(name)
        if al:
            name = al
        if name in self.mod.funcs or name in self.mod.decls:
            return self.func_addr(name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        oid = self.gnext
        self.gnext += 1
        base = oid << OBJ_SHIFT
        self.gaddr[name] = base
        ty, c = self.mod.parse_global(name)
        o = Obj(base, ty.size, None, None, name)
        self.gobjs[oid] = o
        if c is not None:
            o.raw = bytes(ty.size)
            self.init_cells(o, 0, ty, c)
        return base

    def init_cells(self, o, off, ty, c):
        k = c[0]
        if k == 'zero':
            return
        if k == 'undef':
            return
        if k == 'bytes':
            b = bytearray(o.raw)
            b[off:off + len(c[1])] = c[1]
            o.raw = bytes(b)
            return
        if k == 'agg':
            if ty.k == 'struct':
                for (t, e), f in zip(c[1], ty.offs):
                    self.init_cells(o, off + f, t, e)
            else:
                for i, (t, e) in enumerate(c[1]):
                    self.init_cells(o, off + i * ty.el.size, t, e)
            return
        v = self.constval(c, ty)
        o.cells[off] = (ty.size, v)

    def constval(self, c, ty):
        k = c[0]
        if k == 'i' or k == 'f':
            return c[1]
        if k == 'g':
            return self.glob_addr(c[1])
        if k == 'undef':
            if ty.k in ('struct', 'arr', 'vec'):
                return self.zero(ty, UNDEF)
            return UNDEF
        if k == 'zero':
            return self.zero(ty, None)
        if k == 'agg':
            return [self.constval(e, t) for t, e in c[1]]
        if k == 'bytes':
            return list(c[1])
        if k == 'gepc':
            base = self.constval(c[2], ll.PTR)
            return (base + self.gep_const(c[1], c[3])) & MASK64
        if k == 'cast':
            v = self.constval(c[2], c[3])
            if c[4].k == 'i':
                return v & ((1 << c[4].w) - 1)
            return v
        if k == 'bin':
            a, b = self.constval(c[2], c[4]), self.constval(c[3], c[4])
            m = (1 << c[4].w) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b,
                    'or': a | b, 'shl': a << b}[c[1]] & m
        raise Unsupported('const %r' % (c,))

    def gep_const(self, ty, idx):
        off = 0
        t = ty
        for i, (it, c) in enumerate(idx):
            v = self.constval(c, it)
            v = signed(v, it.w)
            if i == 0:
                off += v * t.size
            elif t.k == 'struct':
                off += t.offs[v]
                t = t.els[v]
            else:
                t = t.el
                off += v * t.size
        return off

    def zero(self, ty, leaf):
        if ty.k == 'struct':
            return [self.zero(t, leaf) for t in ty.els]
        if ty.k in ('arr', 'vec'):
            return [self.zero(ty.el, leaf) for _ in range(ty.n)]
        if leaf is not None:
            return leaf
        if ty.k in ('double', 'float'):
            return 0.0
        return 0

    def obj_of(self, st, addr, size, what):
        oid = addr >> OBJ_SHIFT
        o = st.mem.get(oid)
        if o is None:
            o = self.gobjs.get(oid)
            if o is None:
                raise PathEnd('badmem', '%s of %d bytes at 0x%x' % (what, size, addr))
        off = addr - o.base
        if not o.alive or off + size > o.size:
            raise PathEnd('badmem', '%s of %d bytes at 0x%x (object size %d, alive %s)' %
                          (what, size, addr, o.size, o.alive))
        return o, off, oid

    def wobj(self, st, addr, size, what='store'):
        o, off, oid = self.obj_of(st, addr, size, what)
        if o.owner is not st.owner:
            o = o.copy(st.owner)
            st.mem[oid] = o
        return o, off

    def load(self, st, addr, ty):
        if not isinstance(addr, int):
            raise Unsupported('load through symbolic pointer')
        k = ty.k
        if k in ('struct', 'arr', 'vec'):
            if k == 'struct':
                return [self.load(st, addr + f, t) for f, t in zip(ty.offs, ty.els)]
            s = ty.el.size
            return [self.load(st, addr + i * s, ty.el) for i in range(ty.n)]
        size = ty.size if k != 'i' else (ty.w + 7) // 8
        if size == 0:
            return UNDEF
        o, off, _ = self.obj_of(st, addr, size, 'load')
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], ty, size)
        return self.conv(self.gather(o, off, size), ty, size)

    def conv(self, v, ty, size):
        k = ty.k
        if v is UNDEF:
            return v
        if k == 'double':
            if isinstance(v, (float, T.Poly)):
                return v
            if isinstance(v, DBits):
                return v.p
            if isinstance(v, int):
                return bits2f(v)
            raise Unsupported('load double from %r' % (v,))
        if k == 'i' or k == 'ptr':
            if isinstance(v, int):
                if k == 'i' and ty.w == 1:
                    return v & 1
                return v
            if isinstance(v, float):
                return f2bits(v)
            if isinstance(v, T.Poly):
                return DBits(v)
            if isinstance(v, SInt) and k == 'i' and ty.w == 1:
                return v.b if v.b is not None else T.bz3(z3.Extract(0, 0, v.zz()) == 1)
            return v
        if k == 'float':
            if isinstance(v, int):
                return struct.unpack('<f', struct.pack('<I', v))[0]
            return v
        raise Unsupported('conv %r' % ty)

    def cell_bytes(self, size, v):
        if isinstance(v, int):
            return list((v & ((1 << (8 * size)) - 1)).to_bytes(size, 'little'))
        if isinstance(v, float):
            return list(struct.pack('<d' if size == 8 else '<f', v))
        if v is UNDEF:
            return [None] * size
        return None

    def gather(self, o, off, size):
        """Assemble `size` bytes at off."""
        out = [None] * size
        if o.raw is not None:
            out = list(o.raw[off:off + size])
        for d in range(-15, size):
            c = o.cells.get(off + d)
            if c is None:
                continue
            cs, v = c
            if d + cs <= 0:
                continue
            bs = self.cell_bytes(cs, v)
            if bs is None:
                # symbolic: allow narrowing reads of zero-extended bools / bit-vectors
                if isinstance(v, SInt) and d == 0 and size <= cs:
                    if v.b is not None:
                        return SInt(size * 8, b=v.b)
                    return SInt(size * 8, z3.Extract(size * 8 - 1, 0, v.zz()))
                raise Unsupported('partial read of symbolic cell')
            for i, b in enumerate(bs):
                j = d + i
                if 0 <= j < size:
                    out[j] = b
        if any(b is None for b in out):
            if all(b is None for b in out):
                return UNDEF
            out = [b or 0 for b in out]
        return int.from_bytes(bytes(out), 'little')

    def clear_range(self, o, off, size):
        cells = o.cells
        for d in range(-15, size):
            c = cells.get(off + d)
            if c is None:
                continue
            cs, v = c
            if d + cs <= 0:
                continue
            if d >= 0 and d + cs <= size:
                del cells[off + d]
                continue
            # partial overlap: split into bytes
            bs = self.cell_bytes(cs, v)
            if bs is None:
                raise Unsupported('partial overwrite of symbolic cell')
            del cells[off + d]
            for i, b in enumerate(bs):
                j = d + i
                if j < 0 or j >= size:
                    cells[off + j] = (1, UNDEF if b is None else b)

    def store(self, st, addr, ty, v):
        if not isinstance(addr, int):
            raise Unsupported('store through symbolic pointer')
        k = ty.k
        if k in ('struct', 'arr', 'vec'):
            if k == 'struct':
                for f, t, e in zip(ty.offs, ty.els, v):
                    self.store(st, addr + f, t, e)
            else:
                s = ty.el.size
                for i in range(ty.n):
                    self.store(st, addr + i * s, ty.el, v[i])
            return
        size = ty.size if k != 'i' else (ty.w + 7) // 8
        o, off = self.wobj(st, addr, size)
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear_range(o, off, size)
        if isinstance(v, T.Bool):
            v = SInt(8, b=v)
        o.cells[off] = (size, v)

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        so, soff, _ = self.obj_of(st, src, n, 'memcpy read')
        items = []
        for off, (cs, v) in list(so.cells.items()):
            if off + cs <= soff or off >= soff + n:
                continue
            if off >= soff and off + cs <= soff + n:
                items.append((off - soff, cs, v))
            else:
                bs = self.cell_bytes(cs, v)
                if bs is None:
                    raise Unsupported('memcpy splits symbolic cell')
                for i, b in enumerate(bs):
                    j = off + i
                    if soff <= j < soff + n:
                        items.append((j - soff, 1, UNDEF if b is None else b))
        raw = so.raw[soff:soff + n] if so.raw is not None else None
        do, doff = self.wobj(st, dst, n, 'memcpy write')
        self.clear_range(do, doff, n)
        if raw is not None:
            if do.raw is None:
                covered = set()
                for off, cs, v in items:
                    covered.update(range(off, off + cs))
                i = 0
                while i < n:
                    if i in covered:
                        i += 1
                        continue
                    if i % 8 == 0 and i + 8 <= n and not any((i + j) in covered for j in range(8)):
                        do.cells[doff + i] = (8, int.from_bytes(raw[i:i + 8], 'little'))
                        i += 8
                    else:
                        do.cells[doff + i] = (1, raw[i])
                        i += 1
            else:
                b = bytearray(do.raw)
                b[doff:doff + n] = raw
                do.raw = bytes(b)
        elif do.raw is not None:
            # uninitialised source bytes leave the destination undefined
            covered = set()
            for off, cs, v in items:
                covered.update(range(off, off + cs))
            for i in range(n):
                if i not in covered:
                    do.cells[doff + i] = (1, UNDEF)
        for off, cs, v in items:
            do.cells[doff + off] = (cs, v)

    def memset(self, st, dst, val, n):
        if n == 0:
            return
        o, off = self.wobj(st, dst, n, 'memset')
        self.clear_range(o, off, n)
        i = 0
        while i < n:
            if n - i >= 8 and (off + i) % 8 == 0:
                o.cells[off + i] = (8, int.from_bytes(bytes([val]) * 8, 'little'))
                i += 8
            else:
                o.cells[off + i] = (1, val)
                i += 1

    # ---------------------------------------------------------- decisions
    def decide(self, st, cond):
        """Concrete truth value of cond on this path, forking if both are possible."""
        if cond is T.TRUE:
            return True
        if cond is T.FALSE:
            return False
        if isinstance(cond, int):
            return bool(cond)
        if st.fi < len(st.forced):
            d = st.forced[st.fi]
            st.fi += 1
            st.done.append(d)
            return d
        d = self.decide_new(st, cond)
        st.done.append(d)
        self.noted(st, d)
        return d

    def noted(self, st, d):
        st.note(d)
        sh = self.cfg.shard
        if sh and st.nd == sh[2] and st.sig % sh[1] != sh[0]:
            raise PathEnd('shard')

    def mine(self, st):
        """Is this path counted here (and not in another shard)?"""
        sh = self.cfg.shard
        return not sh or st.nd >= sh[2] or sh[0] == 0

    def decide_new(self, st, cond):
        if self.cfg.deadline and time.time() > self.cfg.deadline:
            self.inconclusive.append(('deadline', None))
            raise PathEnd('deadline')
        if self.cfg.verbose:
            print('decide', st.frames[-1].fn.name[:60], len(st.pc), repr(cond)[:300])
        ncond = T.bnot(cond)
        if cond.key in st.pcset:
            return True
        if ncond.key in st.pcset:
            return False
        if self.cfg.generic and self.cfg.concrete is None:
            for c, nc, r in ((cond, ncond, False), (ncond, cond, True)):
                if vanishing(c):
                    if self.feasible(st, smt.relevant(st.pc, [nc]), nc) is False:
                        break
                    self.left_out += 1
                    st.assume(nc)
                    return r
        wt = wf = False
        if not W.is_bv(cond):
            if 0 < len(st.envs) < 6:
                st.envs = st.envs + W.more(st.envs, st.pc, self.rng)
            for e in st.envs:
                r = W.test(e, cond)
                if r is True:
                    wt = True
                elif r is False:
                    wf = True
        if not (wt and wf) and not W.is_bv(cond):
            for want, have in ((True, wt), (False, wf)):
                if have:
                    continue
                old = set()
                for c in st.pc:
                    old |= smt.full_atoms(c)[1]
                e = W.repair(st.envs, st.pc, cond, want, smt.full_atoms(cond)[1], self.rng, old=old)
                if e is not None:
                    st.envs = st.envs + [e]
                    if want:
                        wt = True
                    else:
                        wf = True
        if not (wt and wf):
            rel = smt.relevant(st.pc, [cond])
            if not wt and self.feasible(st, rel, cond) is False:
                st.assume(ncond)
                return False
            if not wf and self.feasible(st, rel, ncond) is False:
                st.assume(cond)
                return True
        # fork: the clone re-executes this instruction with forced decisions
        c = st.clone()
        c.frames[-1].idx = st.frames[-1].idx
        c.forced = list(st.done) + [False]
        c.assume(ncond)
        c.note(False)
        sh = self.cfg.shard
        if not sh or c.nd != sh[2] or c.sig % sh[1] == sh[0]:
            self.work.append(c)
        self.forks += 1
        st.assume(cond)
        return True

    def feasible(self, st, rel, c):
        """False only if the solver refutes c on this path."""
        r = smt.check(rel + [c], want_model=True, timeout=self.cfg.feas_timeout, nl=False)
        if r.res == 'unsat':
            return False
        if r.res == 'sat' and r.model:
            self.nenv += 1
            e = W.Env(self.nenv, {a: float(v) for a, v in r.model.items()
                                  if a != 'z3' and T.ATOMS[a].kind == 'inp'})
            if W.satisfies(e, st.pc) and W.test(e, c) is True:
                st.envs = st.envs + [e]
        return True

    def split_sign(self, st, p):
        """+1, 0 or -1: sign of p on this path."""
        c = p.const()
        if c is not None:
            return (c > 0) - (c < 0)
        if self.decide(st, T.cmp('eq', p)):
            return 0
        return -1 if self.decide(st, T.cmp('lt', p)) else 1

    # ---------------------------------------------------------- floats
    def fadd(self, st, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa and fb:
            return self.exactly(a + b, a, b, '+') if self.exact else a + b
        if fa and (a != a or a in (INF, -INF)):
            return a
        if fb and (b != b or b in (INF, -INF)):
            return b
        return norm(T.add(P(a), P(b)))

    def fneg(self, a):
        if a is UNDEF:
            return a
        if isinstance(a, float):
            return -a
        return norm(T.neg(a))

    def fsub(self, st, a, b):
        if isinstance(a, float) and isinstance(b, float) and not self.exact:
            return a - b
        return self.fadd(st, a, self.fneg(b))

    def fmul(self, st, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa and fb:
            return self.exactly(a * b, a, b, '*') if self.exact else a * b
        if fb:
            a, b = b, a
            fa = True
        if fa and isspecial(a):
            if a != a:
                return a
            s = self.split_sign(st, b)
            return NAN if s == 0 else a * s
        return norm(T.mul(P(a), P(b)))

    def fdiv(self, st, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa and fb:
            return self.exactly(c_div(a, b), a, b, '/') if self.exact else c_div(a, b)
        if fb:
            if b != b:
                return b
            if b in (INF, -INF):
                return 0.0
            if b == 0.0:
                s = self.split_sign(st, a)
                if s == 0:
                    return NAN
                return s * math.copysign(INF, b)
            return norm(T.div(a, P(b)))
        if fa and a != a:
            return a
        # symbolic denominator
        s = None
        if fa and a in (INF, -INF):
            s = self.split_sign(st, b)
            return a if s == 0 else a * s
        if self.is_zero(st, b):
            sa = self.split_sign(st, P(a))
            if sa == 0:
                return NAN
            return sa * INF
        return norm(T.div(P(a), b))

    @staticmethod
    def exactly(r, a, b, op):
        """The unrounded result of an operation on concrete doubles (cfg.exact)."""
        if isspecial(a) or isspecial(b) or isspecial(r) or (r == 0 and op != '+'):
            return r
        a, b = Fraction(a), Fraction(b)
        x = a + b if op == '+' else a * b if op == '*' else a / b
        return r if Fraction(r) == x else T.const(x)

    def is_zero(self, st, p):
        c = p.const()
        if c is not None:
            return c == 0
        return self.decide(st, T.cmp('eq', p))

    def frem(self, st, a, b):
        if isinstance(a, float) and isinstance(b, float):
            try:
                return math.fmod(a, b)
            except ValueError:
                return NAN
        raise Unsupported('symbolic frem')

    def fabs(self, a):
        if a is UNDEF:
            return a
        if isinstance(a, float):
            return abs(a)
        return norm(T.pabs(a))

    def fsqrt(self, st, a):
        if isinstance(a, float):
            if a != a or a < 0:
                return NAN
            return math.sqrt(a) if a != INF else INF
        if not T.nonneg(a):
            if self.decide(st, T.cmp('lt', a)):
                return NAN
        return norm(T.psqrt(a))

    def fmaxmin(self, a, b, mx):
        if isinstance(a, float) and a != a:
            return b
        if isinstance(b, float) and b != b:
            return a
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa and fb:
            if a == b:
                if a == 0.0:
                    sa, sb = math.copysign(1, a), math.copysign(1, b)
                    return (a if sa >= sb else b) if mx else (a if sa <= sb else b)
                return a
            return max(a, b) if mx else min(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and math.isinf(x):
                return x if (x > 0) == mx else y
        return norm((T.pmax if mx else T.pmin)(P(a), P(b)))

    def fpow(self, st, x, y):
        if isinstance(x, float) and isinstance(y, float):
            return c_pow(x, y)
        if isinstance(y, float) and (y != y):
            return self._pow_nan_y(st, x)
        if isinstance(y, float):
            if isinstance(x, float):
                return c_pow(x, y)
            if y in (INF, -INF):
                raise Unsupported('pow(sym, inf)')
            if y == 0.0:
                return 1.0
            if y == 1.0:
                return x
            if y == 2.0:
                return norm(T.mul(x, x))
            if y.is_integer() and abs(y) <= 8:
                return self.fpowi(st, x, int(y))
            if y < 0 and self.is_zero(st, x):
                return INF
            if not T.nonneg(x) and self.decide(st, T.cmp('lt', x)):
                return NAN
            if y == 0.5:
                return norm(T.psqrt(x))
            if y == 0.25:
                return norm(T.psqrt(T.psqrt(x)))
            return T.ppow(x, T.const(Fraction(y)))
        # symbolic exponent
        if isinstance(x, float):
            if x != x:
                # pow(NaN, y) is 1 for y == 0
                return 1.0 if self.is_zero(st, y) else NAN
            if x == 1.0:
                return 1.0
            if x == INF:
                s = self.split_sign(st, y)
                return INF if s > 0 else (0.0 if s < 0 else 1.0)
            if x == 0.0:
                s = self.split_sign(st, y)
                return 0.0 if s > 0 else (INF if s < 0 else 1.0)
            if x < 0:
                raise Unsupported('pow(neg, sym)')
            return T.ppow(P(x), y)
        s = self.split_sign(st, x)
        if s == 0:
            s2 = self.split_sign(st, y)
            return 0.0 if s2 > 0 else (INF if s2 < 0 else 1.0)
        if s < 0:
            raise Unsupported('pow(neg sym, sym)')
        return T.ppow(x, y)

    def _pow_nan_y(self, st, x):
        if isinstance(x, float):
            return 1.0 if x == 1.0 else NAN
        return 1.0 if self.decide(st, T.eq(x, T.const(1))) else NAN

    def fpowi(self, st, x, n):
        if isinstance(x, float):
            return c_powi(x, n)
        if n == 0:
            return 1.0
        r = x
        for _ in range(abs(n) - 1):
            r = self.fmul(st, r, x)
        if n < 0:
            r = self.fdiv(st, 1.0, r)
        return r

    def fcopysign(self, st, m, s):
        am = self.fabs(m)
        if isinstance(s, float):
            if isinstance(am, float):
                return math.copysign(am, s)
            return am if math.copysign(1.0, s) > 0 else self.fneg(am)
        if isspecial(am):
            return -am if self.decide(st, T.cmp('lt', s)) else am
        return norm(T.pite(T.cmp('lt', s), T.neg(P(am)), P(am)))

    def fcmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('fcmp on undef')
        if isinstance(a, float) and isinstance(b, float):
            un = a != a or b != b
            if pred == 'uno':
                return int(un)
            if pred == 'ord':
                return int(not un)
            if pred == 'true':
                return 1
            if pred == 'false':
                return 0
            if un:
                return int(pred[0] == 'u')
            o = pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b,
                        'ge': a >= b}[o])
        for x in (a, b):
            if isinstance(x, float) and x != x:
                return int(pred[0] == 'u' or pred == 'true') if pred not in ('uno', 'ord') else int(pred == 'uno')
        if pred == 'uno':
            return 0
        if pred == 'ord':
            return 1
        o = pred[1:]
        if isinstance(a, float) and math.isinf(a):
            r = {'eq': False, 'ne': True, 'lt': a < 0, 'le': a < 0, 'gt': a > 0, 'ge': a > 0}[o]
            return int(r)
        if isinstance(b, float) and math.isinf(b):
            r = {'eq': False, 'ne': True, 'lt': b > 0, 'le': b > 0, 'gt': b < 0, 'ge': b < 0}[o]
            return int(r)
        a, b = P(a), P(b)
        r = {'eq': lambda: T.eq(a, b), 'ne': lambda: T.bnot(T.eq(a, b)), 'lt': lambda: T.lt(a, b),
             'le': lambda: T.le(a, b), 'gt': lambda: T.lt(b, a), 'ge': lambda: T.le(b, a)}[o]()
        return self.b2v(r)

    @staticmethod
    def b2v(b):
        if b is T.TRUE:
            return 1
        if b is T.FALSE:
            return 0
        return b

    @staticmethod
    def v2b(v):
        if isinstance(v, T.Bool):
            return v
        if isinstance(v, int):
            return T.TRUE if v & 1 else T.FALSE
        if isinstance(v, SInt):
            return v.b if v.b is not None else T.bz3(z3.Extract(0, 0, v.zz()) == 1)
        raise Unsupported('bool of %r' % (v,))

    # ---------------------------------------------------------- ints
    def tobv(self, v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, SInt) and v.b is None:
            return v.z
        raise Unsupported('bv of %r' % (v,))

    def conc(self, st, v):
        """fork a boolean-valued integer into 0 and 1"""
        if isinstance(v, T.Bool):
            return int(self.decide(st, v))
        if isinstance(v, SInt) and v.b is not None:
            return int(self.decide(st, v.b))
        return v

    def ibin(self, st, op, ty, a, b):
        w = ty.w
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (signed(a, w) >> b) & m
            if op in ('udiv', 'urem'):
                if b == 0:
                    raise PathEnd('panic', 'division by zero')
                return a // b if op == 'udiv' else a % b
            if op in ('sdiv', 'srem'):
                if b == 0:
                    raise PathEnd('panic', 'division by zero')
                x, y = signed(a, w), signed(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & m
            raise Unsupported(op)
        if a is UNDEF or b is UNDEF:
            for x in (a, b):
                if isinstance(x, int) and (op == 'and' and x == 0 or op == 'or' and x == m):
                    return x
            return UNDEF
        if w == 1:
            x, y = self.v2b(a), self.v2b(b)
            if op == 'and':
                return self.b2v(T.band(x, y))
            if op == 'or':
                return self.b2v(T.bor(x, y))
            if op in ('xor', 'add', 'sub'):
                return self.b2v(T.bxor(x, y))
            if op == 'mul':
                return self.b2v(T.band(x, y))
            raise Unsupported('i1 ' + op)
        if isinstance(a, DBits) or isinstance(b, DBits):
            return self.dbits_bin(st, op, a, b)
        # booleans widened to integers stay booleans under and/or/xor
        if isinstance(a, SInt) and a.b is not None and isinstance(b, SInt) and b.b is not None:
            if op == 'and':
                return SInt(w, b=T.band(a.b, b.b))
            if op == 'or':
                return SInt(w, b=T.bor(a.b, b.b))
            if op == 'xor':
                return SInt(w, b=T.bxor(a.b, b.b))
        if isinstance(a, SInt) and a.b is not None and isinstance(b, int):
            if op == 'and':
                return a if b & 1 else 0
            if op == 'xor' and b == 1:
                return SInt(w, b=T.bnot(a.b))
            if op == 'or' and b == 0:
                return a
        a, b = self.conc(st, a), self.conc(st, b)
        if isinstance(a, int) and isinstance(b, int):
            return self.ibin(st, op, ty, a, b)
        x, y = self.tobv(a, w), self.tobv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if self.decide(st, T.bz3(y == 0)):
                raise PathEnd('panic', 'division by zero')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
             'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        return self.mkbv(w, r)

    def mkbv(self, w, r):
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return SInt(w, r)

    def dbits_bin(self, st, op, a, b):
        if isinstance(b, DBits):
            a, b = b, a
        if isinstance(b, int):
            if op == 'and' and b == 0x7fffffffffffffff:
                return DBits(P(self.fabs(a.p)))
            if op == 'xor' and b == 0x8000000000000000:
                return DBits(T.neg(a.p))
            if op == 'and' and b == 0x8000000000000000:
                return 0x8000000000000000 if self.decide(st, T.cmp('lt', a.p)) else 0
            if op == 'or' and b == 0x8000000000000000:
                return DBits(T.neg(P(self.fabs(a.p))))
        raise Unsupported('bit operation %s on a symbolic double' % op)

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 'u':
                return int({'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred])
            w = ty.w if ty.k == 'i' else 64
            a, b = signed(a, w), signed(b, w)
            return int({'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, DBits) or isinstance(b, DBits):
            if isinstance(a, DBits) and isinstance(b, int):
                if pred == 'slt' and b == 0:
                    return self.b2v(T.cmp('lt', a.p))
                if pred == 'sgt' and b == MASK64:
                    return self.b2v(T.bnot(T.cmp('lt', a.p)))
                if pred in ('eq', 'ne'):
                    x = bits2f(b)
                    r = T.FALSE if isspecial(x) else T.eq(a.p, P(x))
                    return self.b2v(r if pred == 'eq' else T.bnot(r))
                # finiteness tests on |x| bits
                if pred in ('ult', 'slt', 'ule', 'sle', 'ugt', 'sgt', 'uge', 'sge') and b in (
                        0x7ff0000000000000, 0x7fefffffffffffff) and T.nonneg(a.p):
                    return int(pred[1] == 'l')
            raise Unsupported('icmp on symbolic double bits')
        w = ty.w if ty.k == 'i' else 64
        if w == 1 or (isinstance(a, SInt) and a.b is not None and isinstance(b, int) and b in (0, 1)
                      and pred in ('eq', 'ne')):
            if w == 1:
                x, y = self.v2b(a), self.v2b(b)
            else:
                x, y = a.b, T.boolc(b)
            if pred == 'eq':
                return self.b2v(T.bnot(T.bxor(x, y)))
            if pred == 'ne':
                return self.b2v(T.bxor(x, y))
            if pred == 'ult':
                return self.b2v(T.band(T.bnot(x), y))
            if pred == 'ugt':
                return self.b2v(T.band(T.bnot(y), x))
            if pred == 'ule':
                return self.b2v(T.bor(T.bnot(x), y))
            if pred == 'uge':
                return self.b2v(T.bor(T.bnot(y), x))
            raise Unsupported('i1 icmp ' + pred)
        a, b = self.conc(st, a), self.conc(st, b)
        if isinstance(a, int) and isinstance(b, int):
            return self.icmp(st, pred, ty, a, b)
        x, y = self.tobv(a, w), self.tobv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y),
             'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y,
             'sge': lambda: x >= y}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return T.bz3(r)

    def select(self, st, ty, c, a, b):
        if isinstance(c, int):
            return a if c else b
        if c is UNDEF:
            return UNDEF
        if isinstance(c, list):
            return [self.select(st, ty.el, ci, x, y) for ci, x, y in zip(c, a, b)]
        if a is b:
            return a
        if ty.k == 'double':
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            if isspecial(a) or isspecial(b):
                return a if self.decide(st, c) else b
            return norm(T.pite(c, P(a), P(b)))
        if ty.k == 'i' and ty.w == 1:
            if a is UNDEF or b is UNDEF:
                return a if self.decide(st, c) else b
            return self.b2v(T.bite(c, self.v2b(a), self.v2b(b)))
        if ty.k == 'i' and ty.w <= 8 and isinstance(a, int) and isinstance(b, int) and {a, b} == {0, 1}:
            return SInt(ty.w, b=c if a == 1 else T.bnot(c))
        if a == b and isinstance(a, int):
            return a
        return a if self.decide(st, c) else b

    def concrete_run(self, fname, vals, budget=30):
        """Interpret the harness on concrete inputs; (how it ended, observations)."""
        keep = (self.cfg, self.violations, self.inconclusive, self.ended, self.reached,
                self.complete_states, self.paths, self.total_steps, self.checks, self.check_tags)
        cfg = Config()
        cfg.concrete = vals
        cfg.tags = self.cfg.tags
        cfg.deadline = time.time() + budget
        self.cfg = cfg
        ex, self.exact = self.exact, False
        self.violations, self.inconclusive, self.ended, self.reached = [], [], {}, {}
        self.complete_states, self.check_tags = [], {}
        try:
            self.run(fname)
            return next(iter(self.ended)), self.last_obs
        finally:
            self.exact = ex
            (self.cfg, self.violations, self.inconclusive, self.ended, self.reached,
             self.complete_states, self.paths, self.total_steps, self.checks, self.check_tags) = keep

    def run(self, fname):
        st = State()
        fn = self.mod.funcs['@' + fname]
        fn.parse()
        st.frames.append(Frame(fn, None, None))
        if self.cfg.concrete is None:
            st.envs = W.pool(24, self.cfg.seed)
        self.funcs_run.add(fn.name)
        self.work = [st]
        while self.work:
            if self.cfg.deadline and time.time() > self.cfg.deadline:
                self.inconclusive.append(('deadline', None))
                break
            st = self.work.pop()
            if self.run_state(st):
                self.paths += 1
            if self.paths >= self.cfg.max_paths:
                self.inconclusive.append(('max_paths', None))
                break
            if len(self.violations) >= 3 and self.cfg.stop_on_violation:
                break
        return self

    def run_state(self, st):
        kind, info = 'end', None
        s0 = st.steps
        try:
            self.loop(st)
        except PathEnd as e:
            kind, info = e.kind, e.info
        if kind == 'shard' or not self.mine(st):
            st.mem = st.frames = None
            return False
        self.total_steps += st.steps - s0
        if kind in ('panic', 'badmem', 'unreachable', 'hang'):
            self.report_abort(st, kind, info)
        self.ended[kind] = self.ended.get(kind, 0) + 1
        for r in st.reached:
            self.reached[r] = self.reached.get(r, 0) + 1
        self.last_obs = st.obs
        if kind in ('end', 'stop'):
            self.complete_states.append(st)
        st.mem = None
        st.frames = None
        return True

    def report_abort(self, st, kind, info):
        self.checks += 1
        if self.cfg.concrete is not None:
            self.violations.append(Violation(kind, kind, st.inputs, None, st.pc, None, info))
            return
        r = smt.check(st.pc, want_model=True, timeout=self.cfg.check_timeout)
        if r.res == 'unsat':
            return
        if r.res == 'unknown':
            self.inconclusive.append((kind, info))
            return
        self.violations.append(Violation(kind, kind, list(st.inputs), r.model, list(st.pc), None, info))

    def do_check(self, st, tag, cond, info=None, zero=None):
        self.checks += 1
        st.checks += 1
        self.check_tags[tag] = self.check_tags.get(tag, 0) + 1
        if cond is T.TRUE:
            smt.check([T.FALSE])
            return
        if self.cfg.concrete is not None:
            self.violations.append(Violation(tag, 'check', st.inputs, None, st.pc, None, info))
            raise PathEnd('violated')
        neg = T.bnot(cond)
        if not W.is_bv(neg):
            e = None
            for x in st.envs:
                if W.test(x, neg) is True:
                    e = x
                    break
            if e is None and st.envs:
                e = W.repair(st.envs, st.pc, neg, True, smt.full_atoms(neg)[1], self.rng, 20)
            if e is not None:
                model = {i[3]: Fraction(e.inp(T.ATOMS[i[3]])) for i in st.inputs if i[2] == 'f'}
                self.violations.append(Violation(tag, 'check', list(st.inputs), model, list(st.pc), neg, info))
                if self.cfg.stop_on_violation:
                    raise PathEnd('violated')
                return
        rel = smt.relevant(st.pc, [neg])
        # weakest assumptions first: unsat without the path condition is unsat with it
        r = smt.check([neg], timeout=min(1500, self.cfg.check_timeout))
        if r.res != 'unsat':
            r = smt.check(rel + [neg], want_model=True, timeout=min(2000, self.cfg.check_timeout))
        if r.res == 'unknown':
            if self.by_splits(rel, neg, zero, [64]):
                return
            r = smt.check(rel + [neg], want_model=True, timeout=self.cfg.check_timeout)
        if r.res == 'unsat':
            return
        if r.res == 'sat':
            # whole path condition for the model
            r2 = smt.check(st.pc + [neg], want_model=True, timeout=self.cfg.check_timeout)
            if r2.res == 'unsat':
                return
            if r2.res == 'sat':
                r = r2
            self.violations.append(Violation(tag, 'check', list(st.inputs), r.model, list(st.pc), neg, info))
            if self.cfg.stop_on_violation:
                raise PathEnd('violated')
            return
        self.inconclusive.append((tag, info))

    # ---------------------------------------------------------- main loop
    def loop(self, st):
        maxs = self.cfg.max_steps
        while True:
            fr = st.frames[-1]
            ins = fr.blk.ins[fr.idx]
            fn = ins.fn
            if fn is None:
                fn = self.compile(ins)
            st.steps += 1
            if not st.steps & 1023 and self.cfg.deadline and time.time() > self.cfg.deadline:
                self.inconclusive.append(('deadline', None))
                raise PathEnd('deadline')
            if st.steps > maxs:
                raise PathEnd('hang')
            fn(st, fr)
            if st.done:
                st.done = []
                st.forced = []
                st.fi = 0

    def goto(self, fr, label):
        prev = fr.blk.name
        nb = fr.fn.blocks[label]
        if nb.phis:
            regs = fr.regs
            vals = []
            for ph in nb.phis:
                g = ph.extra
                if g is None:
                    g = ph.extra = {}
                gg = g.get(prev)
                if gg is None:
                    gg = g[prev] = self.getter(ph.a[0][prev], ph.ty)
                vals.append((ph.dest, gg(regs)))
            for d, v in vals:
                regs[d] = v
        fr.blk = nb
        fr.idx = 0

    def getter(self, v, ty):
        if v[0] == 'l':
            n = v[1]
            return lambda regs: regs[n]
        c = self.constval(v, ty)
        return lambda regs: c

    def compile(self, lazy):
        ins = ll.parse_instr(lazy.text, self.mod)
        fn = self._compile(ins)
        lazy.fn = fn
        lazy.op = ins.op
        return fn

    def vecmap(self, ty, f):
        """lift a scalar binary op over vectors"""
        if ty.k == 'vec':
            return lambda st, a, b: [f(st, x, y) for x, y in zip(a, b)]
        return f

    def _compile(self, ins):
        op = ins.op
        d = ins.dest
        G = self.getter
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and',
                  'or', 'xor'):
            el = ins.ty.el if ins.ty.k == 'vec' else ins.ty
            ga, gb = G(ins.a[0], ins.ty), G(ins.a[1], ins.ty)
            f = self.vecmap(ins.ty, lambda st, a, b: self.ibin(st, op, el, a, b))

            def run(st, fr):
                r = fr.regs
                r[d] = f(st, ga(r), gb(r))
                fr.idx += 1
            return run
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            el = ins.ty.el if ins.ty.k == 'vec' else ins.ty
            if el.k != 'double':
                raise Unsupported('float type %r' % el)
            ga, gb = G(ins.a[0], ins.ty), G(ins.a[1], ins.ty)
            f = self.vecmap(ins.ty, getattr(self, op))

            def run(st, fr):
                r = fr.regs
                r[d] = f(st, ga(r), gb(r))
                fr.idx += 1
            return run
        if op == 'fneg':
            ga = G(ins.a[0], ins.ty)
            vec = ins.ty.k == 'vec'

            def run(st, fr):
                r = fr.regs
                v = ga(r)
                r[d] = [self.fneg(x) for x in v] if vec else self.fneg(v)
                fr.idx += 1
            return run
        if op in ('icmp', 'fcmp'):
            pred = ins.extra
            el = ins.ty.el if ins.ty.k == 'vec' else ins.ty
            ga, gb = G(ins.a[0], ins.ty), G(ins.a[1], ins.ty)
            if op == 'icmp':
                f = self.vecmap(ins.ty, lambda st, a, b: self.icmp(st, pred, el, a, b))
            else:
                f = self.vecmap(ins.ty, lambda st, a, b: self.fcmp(st, pred, a, b))

            def run(st, fr):
                r = fr.regs
                r[d] = f(st, ga(r), gb(r))
                fr.idx += 1
            return run
        if op == 'load':
            ga = G(ins.a[0], ll.PTR)
            ty = ins.ty

            def run(st, fr):
                r = fr.regs
                r[d] = self.load(st, ga(r), ty)
                fr.idx += 1
            return run
        if op == 'store':
            gv, ga = G(ins.a[0], ins.ty), G(ins.a[1], ll.PTR)
            ty = ins.ty

            def run(st, fr):
                r = fr.regs
                self.store(st, ga(r), ty, gv(r))
                fr.idx += 1
            return run
        if op == 'getelementptr':
            gb = G(ins.a[0], ll.PTR)
            t = ins.ty
            coff = 0
            var = []
            for i, (it, v) in enumerate(ins.a[1]):
                if i == 0:
                    s = t.size
                elif t.k == 'struct':
                    k = v[1]
                    coff += t.offs[k]
                    t = t.els[k]
                    continue
                else:
                    t = t.el
                    s = t.size
                if v[0] == 'i':
                    coff += signed(v[1], it.w) * s
                else:
                    var.append((G(v, it), it.w, s))
            if not var:
                def run(st, fr):
                    r = fr.regs
                    b = gb(r)
                    if not isinstance(b, int):
                        raise Unsupported('gep on symbolic pointer')
                    r[d] = (b + coff) & MASK64
                    fr.idx += 1
            else:
                def run(st, fr):
                    r = fr.regs
                    b = gb(r)
                    o = coff
                    for g, w, s in var:
                        x = g(r)
                        if not isinstance(x, int):
                            raise Unsupported('gep with symbolic index')
                        o += signed(x, w) * s
                    if not isinstance(b, int):
                        raise Unsupported('gep on symbolic pointer')
                    r[d] = (b + o) & MASK64
                    fr.idx += 1
            return run
        if op == 'alloca':
            size = ins.ty.size
            cnt = ins.a[0]
            if cnt is not None:
                gc = G(cnt, ll.I64)

            def run(st, fr):
                n = size if cnt is None else size * gc(fr.regs)
                fr.regs[d] = self.new_obj(st, n, None, d)
                fr.allocas.append(fr.regs[d] >> OBJ_SHIFT)
                fr.idx += 1
            return run
        if op == 'jmp':
            lab = ins.a[0]
            return lambda st, fr: self.goto(fr, lab)
        if op == 'br':
            gc = G(ins.a[0], ll.I1)
            la, lb = ins.a[1], ins.a[2]

            def run(st, fr):
                c = gc(fr.regs)
                if isinstance(c, int):
                    self.goto(fr, la if c else lb)
                    return
                if c is UNDEF:
                    raise Unsupported('branch on undef')
                self.goto(fr, la if self.decide(st, c) else lb)
            return run
        if op == 'switch':
            gv = G(ins.a[0], ins.ty)
            dflt, cases = ins.a[1], dict(ins.a[2])
            w = ins.ty.w

            def run(st, fr):
                v = gv(fr.regs)
                if isinstance(v, int):
                    self.goto(fr, cases.get(v, dflt))
                    return
                for k, lab in cases.items():
                    c = self.icmp(st, 'eq', ins.ty, v, k)
                    if self.decide(st, self.v2b(c)):
                        self.goto(fr, lab)
                        return
                self.goto(fr, dflt)
            return run
        if op == 'ret':
            gv = G(ins.a[0], ins.ty) if ins.a[0] is not None else None

            def run(st, fr):
                v = gv(fr.regs) if gv else None
                for oid in fr.allocas:
                    st.mem.pop(oid, None)
                st.frames.pop()
                if not st.frames:
                    raise PathEnd('end')
                up = st.frames[-1]
                if fr.dest is not None:
                    up.regs[fr.dest] = v
                if fr.cont is not None:
                    self.goto(up, fr.cont)
                else:
                    up.idx += 1
            return run
        if op == 'unreachable':
            def run(st, fr):
                raise PathEnd('unreachable', fr.fn.name)
            return run
        if op == 'select':
            gc = G(ins.a[0], ins.extra)
            ga, gb = G(ins.a[1], ins.ty), G(ins.a[2], ins.ty)
            ty = ins.ty

            def run(st, fr):
                r = fr.regs
                r[d] = self.select(st, ty, gc(r), ga(r), gb(r))
                fr.idx += 1
            return run
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp',
                  'fptoui', 'fptosi', 'ptrtoaddr'):
            ga = G(ins.a[0], ins.extra)
            tf, tt = ins.extra, ins.ty
            if tf.k == 'vec' and op != 'bitcast':
                def run(st, fr):
                    r = fr.regs
                    r[d] = [self.cast(st, op, x, tf.el, tt.el) for x in ga(r)]
                    fr.idx += 1
                return run

            def run(st, fr):
                r = fr.regs
                r[d] = self.cast(st, op, ga(r), tf, tt)
                fr.idx += 1
            return run
        if op == 'extractvalue':
            ga = G(ins.a[0], ins.ty)
            idx = ins.extra

            def run(st, fr):
                v = ga(fr.regs)
                for i in idx:
                    v = v[i]
                fr.regs[d] = v
                fr.idx += 1
            return run
        if op == 'insertvalue':
            ga = G(ins.a[0], ins.ty)
            t = ins.ty
            for i in ins.extra:
                t = t.els[i] if t.k == 'struct' else t.el
            ge = G(ins.a[1], t)
            idx = ins.extra

            def put(v, idx, e):
                v = list(v)
                if len(idx) == 1:
                    v[idx[0]] = e
                else:
                    v[idx[0]] = put(v[idx[0]], idx[1:], e)
                return v

            def run(st, fr):
                r = fr.regs
                r[d] = put(ga(r), idx, ge(r))
                fr.idx += 1
            return run
        if op == 'freeze':
            ga = G(ins.a[0], ins.ty)
            ty = ins.ty

            def run(st, fr):
                v = ga(fr.regs)
                if v is UNDEF:
                    v = self.zero(ty, None)
                fr.regs[d] = v
                fr.idx += 1
            return run
        if op == 'extractelement':
            ga, gi = G(ins.a[0], ins.ty), G(ins.a[1], ll.I64)

            def run(st, fr):
                r = fr.regs
                r[d] = ga(r)[gi(r)]
                fr.idx += 1
            return run
        if op == 'insertelement':
            ga, ge, gi = G(ins.a[0], ins.ty), G(ins.a[1], ins.ty.el), G(ins.a[2], ll.I64)

            def run(st, fr):
                r = fr.regs
                v = ga(r)
                v = list(v) if isinstance(v, list) else [UNDEF] * ins.ty.n
                v[gi(r)] = ge(r)
                r[d] = v
                fr.idx += 1
            return run
        if op == 'shufflevector':
            ga, gb = G(ins.a[0], ins.extra), G(ins.a[1], ins.extra)
            m = self.constval(ins.a[2], ins.ty)
            n = ins.extra.n

            def run(st, fr):
                r = fr.regs
                a, b = ga(r), gb(r)
                if not isinstance(a, list):
                    a = [UNDEF] * n
                if not isinstance(b, list):
                    b = [UNDEF] * n
                ab = a + b
                r[d] = [UNDEF if i is UNDEF else ab[i] for i in m]
                fr.idx += 1
            return run
        if op == 'nop':
            def run(st, fr):
                fr.idx += 1
            return run
        if op == 'call':
            return self.compile_call(ins)
        text = ins.text

        def run(st, fr):
            raise Unsupported('instruction %s' % text)
        return run

    def cast(self, st, op, v, tf, tt):
        if v is UNDEF:
            return UNDEF
        if op == 'zext':
            if isinstance(v, int):
                return v
            if isinstance(v, T.Bool):
                return SInt(tt.w, b=v)
            if isinstance(v, SInt):
                if v.b is not None:
                    return SInt(tt.w, b=v.b)
                return SInt(tt.w, z3.ZeroExt(tt.w - v.w, v.zz()))
        if op == 'sext':
            if isinstance(v, int):
                return signed(v, tf.w) & ((1 << tt.w) - 1)
            if isinstance(v, T.Bool):
                return ((1 << tt.w) - 1) if self.decide(st, v) else 0
            return self.mkbv(tt.w, z3.SignExt(tt.w - tf.w, self.tobv(v, tf.w)))
        if op == 'trunc':
            if isinstance(v, int):
                return v & ((1 << tt.w) - 1)
            if isinstance(v, SInt):
                if v.b is not None:
                    return v.b if tt.w == 1 else SInt(tt.w, b=v.b)
                if tt.w == 1:
                    return T.bz3(z3.Extract(0, 0, v.zz()) == 1)
                return self.mkbv(tt.w, z3.Extract(tt.w - 1, 0, v.zz()))
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
            return v
        if op == 'bitcast':
            if tf.k == 'vec' or tt.k == 'vec':
                raise Unsupported('vector bitcast')
            if tt.k == 'double' and tf.k == 'i':
                if isinstance(v, int):
                    return bits2f(v)
                if isinstance(v, DBits):
                    return v.p
            if tf.k == 'double' and tt.k == 'i':
                if isinstance(v, float):
                    return f2bits(v)
                return DBits(v)
            return v
        if op == 'uitofp' and isinstance(v, int):
            return float(v)
        if op == 'sitofp' and isinstance(v, int):
            return float(signed(v, tf.w))
        if op in ('uitofp', 'sitofp') and isinstance(v, T.Bool):
            one = 1.0 if op == 'uitofp' else -1.0
            return norm(T.pite(v, P(one), P(0.0)))
        if op in ('uitofp', 'sitofp') and isinstance(v, SInt) and v.b is not None:
            return norm(T.pite(v.b, P(1.0), P(0.0)))
        if op in ('fptosi', 'fptoui') and isinstance(v, float):
            return int(v) & ((1 << tt.w) - 1)
        raise Unsupported('cast %s of %r' % (op, v))

    # ---------------------------------------------------------- calls
    def compile_call(self, ins):
        callee, args = ins.a
        d = ins.dest
        cont = ins.extra
        gs = [self.getter(v, t) for t, v in args]
        if callee[0] == 'g':
            name = callee[1]
            name = self.mod.aliases.get(name, name)
            h = self.intrinsic(name, ins)
            if h is not None:
                def run(st, fr):
                    r = fr.regs
                    v = h(st, [g(r) for g in gs])
                    if d is not None:
                        r[d] = v
                    if cont is not None:
                        self.goto(fr, cont)
                    else:
                        fr.idx += 1
                return run
            if any(m in name for m in PANIC_MARKS):
                def run(st, fr):
                    raise PathEnd('panic', name)
                return run
            fn = self.mod.funcs.get(name)
            if fn is None:
                def run(st, fr):
                    raise Unsupported('call to external %s' % name)
                return run

            def run(st, fr):
                self.push(st, fn, [g(fr.regs) for g in gs], d, cont)
            return run
        gc = self.getter(callee, ll.PTR)

        def run(st, fr):
            r = fr.regs
            a = gc(r)
            name = self.fnames.get(a)
            if name is None:
                raise PathEnd('badmem', 'indirect call to 0x%x' % a)
            fn = self.mod.funcs.get(name)
            if fn is None:
                raise Unsupported('indirect call to external ' + name)
            if any(m in name for m in PANIC_MARKS):
                raise PathEnd('panic', name)
            self.push(st, fn, [g(r) for g in gs], d, cont)
        return run

    def push(self, st, fn, args, dest, cont):
        if fn.blocks is None:
            fn.parse()
        self.funcs_run.add(fn.name)
        f = Frame(fn, dest, cont)
        for (t, n), v in zip(fn.params, args):
            f.regs[n] = v
        if len(st.frames) > 200:
            raise PathEnd('badmem', 'stack overflow')
        st.frames.append(f)

    def intrinsic(self, name, ins):
        n = name[1:]
        if n.startswith('llvm.'):
            return self.llvm_intrinsic(n, ins)
        if n.startswith('v_'):
            return getattr(self, 'h_' + n[2:], None)
        rty = ins.ty
        if n == 'malloc':
            return lambda st, a: self.alloc(st, a[0], None)
        if n == 'calloc':
            return lambda st, a: self.alloc(st, a[0] * a[1], True)
        if n == 'posix_memalign':
            def pm(st, a):
                self.store(st, a[0], ll.PTR, self.alloc(st, a[2], None))
                return 0
            return pm
        if n == 'aligned_alloc':
            return lambda st, a: self.alloc(st, a[1], None)
        if n == 'free':
            def fr(st, a):
                if a[0] != 0:
                    o, off, oid = self.obj_of(st, a[0], 0, 'free')
                    st.mem.pop(oid, None)
            return fr
        if n == 'realloc':
            def re(st, a):
                old, _, oid = self.obj_of(st, a[0], 0, 'realloc')
                p = self.alloc(st, a[1], None)
                self.memcpy(st, p, a[0], min(old.size, a[1]))
                st.mem.pop(oid, None)
                return p
            return re
        if n in ('memcpy', 'memmove'):
            def mc(st, a):
                self.memcpy(st, a[0], a[1], a[2])
                return a[0]
            return mc
        if n in ('bcmp', 'memcmp'):
            def bc(st, a):
                for i in range(a[2]):
                    x, y = self.load(st, a[0] + i, ll.I8), self.load(st, a[1] + i, ll.I8)
                    if not (isinstance(x, int) and isinstance(y, int)):
                        raise Unsupported('symbolic memcmp')
                    if x != y:
                        return (1 if x > y else -1) & 0xffffffff
                return 0
            return bc
        if n in ('pow', 'sqrt', 'fmax', 'fmin', 'fma', 'fabs', 'exp', 'log', 'exp2', 'log2', 'log10',
                 'sin', 'cos', 'tan', 'cbrt', 'hypot', 'tanh', 'expm1', 'log1p', 'fmod', 'atan',
                 'atan2', 'sinh', 'cosh', 'asin', 'acos', '__powidf2'):
            return self.libm(n)
        if '__rust_no_alloc_shim_is_unstable' in n:
            return lambda st, a: None
        return None

    def alloc(self, st, n, zero):
        if not isinstance(n, int):
            raise Unsupported('symbolic allocation size')
        if n > (1 << 30):
            raise PathEnd('panic', 'allocation of %d bytes' % n)
        return self.new_obj(st, n, bytes(n) if zero else None, 'heap')

    def libm(self, n):
        if n == 'pow':
            return lambda st, a: self.fpow(st, a[0], a[1])
        if n == '__powidf2':
            return lambda st, a: self.fpowi(st, a[0], signed(a[1], 32))
        if n == 'sqrt':
            return lambda st, a: self.fsqrt(st, a[0])
        if n in ('fmax', 'fmin'):
            return lambda st, a: self.fmaxmin(a[0], a[1], n == 'fmax')
        if n == 'fabs':
            return lambda st, a: self.fabs(a[0])
        if n == 'fma':
            return lambda st, a: self.ffma(st, *a)
        if n == 'fmod':
            return lambda st, a: self.frem(st, *a)
        f = getattr(math, n, None)

        def run(st, a):
            if all(isinstance(x, float) for x in a):
                try:
                    return f(*a)
                except OverflowError:
                    return INF
                except ValueError:
                    return NAN
            if any(isinstance(x, float) and x != x for x in a):
                return NAN
            if n == 'hypot':
                s = self.fadd(st, self.fmul(st, a[0], a[0]), self.fmul(st, a[1], a[1]))
                return self.fsqrt(st, s)
            if any(isspecial(x) for x in a):
                raise Unsupported('%s(special, symbolic)' % n)
            return T.uf(n, tuple(P(x) for x in a))
        return run

    def ffma(self, st, a, b, c):
        if all(isinstance(x, float) for x in (a, b, c)):
            return c_fma(a, b, c)
        return self.fadd(st, self.fmul(st, a, b), c)

    def llvm_intrinsic(self, n, ins):
        b = n[5:]
        nop = lambda st, a: None
        if b.startswith(('lifetime.', 'experimental.noalias', 'dbg.', 'invariant.', 'var.annotation',
                         'prefetch', 'donothing', 'assume')):
            if b.startswith('assume'):
                def asm(st, a):
                    # compiler-derived facts; keep them out of the path condition
                    return None
                return asm
            return nop
        if b.startswith('memcpy') or b.startswith('memmove'):
            return lambda st, a: self.memcpy(st, a[0], a[1], a[2])
        if b.startswith('memset'):
            return lambda st, a: self.memset(st, a[0], a[1], a[2])
        t = ins.ty

        def lift1(f):
            if t.k == 'vec':
                return lambda st, a: [f(st, x) for x in a[0]]
            return lambda st, a: f(st, a[0])

        def lift2(f):
            if t.k == 'vec':
                return lambda st, a: [f(st, x, y) for x, y in zip(a[0], a[1])]
            return lambda st, a: f(st, a[0], a[1])
        if b.startswith('fabs'):
            return lift1(lambda st, x: self.fabs(x))
        if b.startswith('sqrt'):
            return lift1(self.fsqrt)
        if b.startswith(('maxnum', 'maximumnum')):
            return lift2(lambda st, x, y: self.fmaxmin(x, y, True))
        if b.startswith(('minnum', 'minimumnum')):
            return lift2(lambda st, x, y: self.fmaxmin(x, y, False))
        if b.startswith(('maximum', 'minimum')):
            def mm(st, x, y):
                for v in (x, y):
                    if isinstance(v, float) and v != v:
                        return v
                return self.fmaxmin(x, y, b.startswith('maximum'))
            return lift2(mm)
        if b.startswith('powi'):
            return lambda st, a: self.fpowi(st, a[0], signed(a[1], 32))
        if b.startswith('pow.'):
            return lift2(self.fpow)
        if b.startswith('copysign'):
            return lift2(self.fcopysign)
        if b.startswith(('fma.', 'fmuladd')):
            if t.k == 'vec':
                return lambda st, a: [self.ffma(st, x, y, z) for x, y, z in zip(*a)]
            return lambda st, a: self.ffma(st, *a)
        for f in ('exp.', 'exp2.', 'log.', 'log2.', 'log10.', 'sin.', 'cos.', 'tan.'):
            if b.startswith(f):
                h = self.libm(f[:-1])
                return h
        if b.startswith('is.fpclass'):
            def cls(st, a):
                x, mask = a
                if isinstance(x, float):
                    if x != x:
                        c = 0x3
                    elif x == INF:
                        c = 0x200
                    elif x == -INF:
                        c = 0x4
                    elif x == 0:
                        c = 0x40 if math.copysign(1, x) > 0 else 0x20
                    elif abs(x) < 2.2250738585072014e-308:
                        c = 0x80 if x > 0 else 0x10
                    else:
                        c = 0x100 if x > 0 else 0x8
                    return int(bool(c & mask))
                pos, neg = mask & 0x180, mask & 0x18
                zer = mask & 0x60
                if pos == 0x180 and neg == 0x18 and zer == 0x60:
                    return 1
                if not pos and not neg and not zer:
                    return 0
                s = self.split_sign(st, x)
                return int(bool((pos if s > 0 else neg if s < 0 else zer)))
            return cls
        if b.startswith(('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint')):
            def rnd(st, x):
                if isinstance(x, float):
                    if isspecial(x):
                        return x
                    if b.startswith('floor'):
                        return float(math.floor(x))
                    if b.startswith('ceil'):
                        return float(math.ceil(x))
                    if b.startswith('trunc'):
                        return float(math.trunc(x))
                raise Unsupported('symbolic ' + b)
            return lift1(rnd)
        parts = b.split('.')
        if 'with.overflow' in b:
            opn = parts[0]
            w = t.els[0].w

            def ov(st, a):
                x, y = self.conc(st, a[0]), self.conc(st, a[1])
                if isinstance(x, int) and isinstance(y, int):
                    if opn[0] == 's':
                        x, y = signed(x, w), signed(y, w)
                    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[opn[1:]]
                    if opn[0] == 's':
                        o = not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
                    else:
                        o = not (0 <= r < (1 << w))
                    return [r & ((1 << w) - 1), int(o)]
                X, Y = self.tobv(x, w), self.tobv(y, w)
                if opn == 'uadd':
                    r = X + Y
                    o = z3.ULT(r, X)
                elif opn == 'usub':
                    r = X - Y
                    o = z3.ULT(X, Y)
                elif opn == 'umul':
                    r = X * Y
                    o = z3.Not(z3.BVMulNoOverflow(X, Y, False))
                elif opn == 'sadd':
                    r = X + Y
                    o = z3.Not(z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)))
                elif opn == 'ssub':
                    r = X - Y
                    o = z3.Not(z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True)))
                else:
                    r = X * Y
                    o = z3.Not(z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y)))
                return [self.mkbv(w, r), self.b2v(T.bz3(z3.simplify(o)))]
            return ov
        if parts[0] in ('umax', 'umin', 'smax', 'smin', 'abs', 'usub', 'uadd', 'ctpop', 'ctlz', 'cttz',
                        'bswap', 'fshl', 'fshr', 'ucmp', 'scmp', 'expect', 'ssub', 'sadd', 'is'):
            p0 = parts[0]
            w = t.w if t.k == 'i' else (t.el.w if t.k == 'vec' else 64)

            def f(st, a):
                a = [self.conc(st, x) for x in a]
                if any(isinstance(x, SInt) for x in a):
                    if p0 == 'expect':
                        return a[0]
                    if p0 in ('umax', 'umin', 'smax', 'smin'):
                        X, Y = self.tobv(a[0], w), self.tobv(a[1], w)
                        c = {'umax': z3.UGE(X, Y), 'umin': z3.ULE(X, Y), 'smax': X >= Y,
                             'smin': X <= Y}[p0]
                        return self.mkbv(w, z3.If(c, X, Y))
                    if p0 == 'usub':
                        X, Y = self.tobv(a[0], w), self.tobv(a[1], w)
                        return self.mkbv(w, z3.If(z3.ULT(X, Y), z3.BitVecVal(0, w), X - Y))
                    raise Unsupported('symbolic ' + b)
                x = a[0]
                m = (1 << w) - 1
                if p0 == 'umax':
                    return max(a[0], a[1])
                if p0 == 'umin':
                    return min(a[0], a[1])
                if p0 in ('smax', 'smin'):
                    k = (max if p0 == 'smax' else min)
                    return k(a[0], a[1], key=lambda v: signed(v, w))
                if p0 == 'abs':
                    return abs(signed(x, w)) & m
                if p0 == 'usub':
                    return max(0, a[0] - a[1])
                if p0 == 'uadd':
                    return min(m, a[0] + a[1])
                if p0 in ('ssub', 'sadd'):
                    r = signed(a[0], w) - signed(a[1], w) if p0 == 'ssub' else signed(a[0], w) + signed(a[1], w)
                    return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, r)) & m
                if p0 == 'ctpop':
                    return bin(x).count('1')
                if p0 == 'ctlz':
                    return w - x.bit_length()
                if p0 == 'cttz':
                    return w if x == 0 else (x & -x).bit_length() - 1
                if p0 == 'bswap':
                    return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
                if p0 == 'fshl':
                    s = a[2] % w
                    return ((a[0] << s) | (a[1] >> (w - s))) & m if s else a[0]
                if p0 == 'fshr':
                    s = a[2] % w
                    return ((a[0] << (w - s)) | (a[1] >> s)) & m if s else a[1]
                if p0 == 'expect':
                    return x
                if p0 in ('ucmp', 'scmp'):
                    aw = ins.a[1][0][0].w
                    x, y = a[0], a[1]
                    if p0 == 'scmp':
                        x, y = signed(x, aw), signed(y, aw)
                    return ((x > y) - (x < y)) & m
                if p0 == 'is':
                    return 0
            return f
        if b.startswith('threadlocal.address'):
            return lambda st, a: a[0]
        if b.startswith('trap'):
            def tr(st, a):
                raise PathEnd('panic', 'trap')
            return tr
        if b.startswith('vector.reduce.fadd'):
            def red(st, a):
                r = a[0]
                for x in a[1]:
                    r = self.fadd(st, r, x)
                return r
            return red

        def un(st, a):
            raise Unsupported('intrinsic ' + n)
        return un

    # ---------------------------------------------------------- harness interface
    def nxt(self, st, tag, kind):
        k = st.occ.get(tag, 0)
        st.occ[tag] = k + 1
        return k

    def h_f64(self, st, a):
        tag, lo, hi = a
        k = self.nxt(st, tag, 'f')
        if self.cfg.concrete is not None:
            vs = self.cfg.concrete.get(('f', tag), [])
            v = vs[k] if k < len(vs) else default_f(lo, hi)
            st.inputs.append((tag, k, 'f', v))
            return v
        p = T.inp('f%d_%d' % (tag, k), Fraction(lo) if lo > -1e300 else None,
                  Fraction(hi) if hi < 1e300 else None)
        at = T.ATOMS[next(iter(p.atoms()))]
        if (at.lo, at.hi) != (Fraction(lo) if lo > -1e300 else None, Fraction(hi) if hi < 1e300 else None):
            # same stream position asked with other bounds on another path: constrain here
            st.assume(T.le(T.const(Fraction(lo)), p))
            st.assume(T.le(p, T.const(Fraction(hi))))
        st.inputs.append((tag, k, 'f', at.id))
        return p

    def h_u64(self, st, a):
        tag, lo, hi = a
        k = self.nxt(st, tag, 'u')
        if self.cfg.concrete is not None:
            vs = self.cfg.concrete.get(('u', tag), [])
            v = vs[k] if k < len(vs) else lo
            st.inputs.append((tag, k, 'u', v))
            return v
        z = z3.BitVec('u%d_%d' % (tag, k), 64)
        st.assume(T.bz3(z3.And(z3.UGE(z, lo), z3.ULE(z, hi))))
        st.inputs.append((tag, k, 'u', z))
        return SInt(64, z)

    def h_choice(self, st, a):
        tag, n = a
        if self.cfg.concrete is not None:
            k = self.nxt(st, tag, 'c')
            vs = self.cfg.concrete.get(('c', tag), [])
            v = vs[k] if k < len(vs) else 0
            st.inputs.append((tag, k, 'c', v))
            return v
        if tag in self.cfg.fixed:
            v = self.cfg.fixed[tag]
            if v >= n:
                raise PathEnd('assume')
        elif st.fi < len(st.forced):
            v = st.forced[st.fi]
            st.fi += 1
            st.done.append(v)
        else:
            for v in range(n - 1, 0, -1):
                c = st.clone()
                c.note(v)
                c.forced = [v]
                self.work.append(c)
                self.forks += 1
            v = 0
            st.note(v)
            st.done.append(v)
        k = self.nxt(st, tag, 'c')
        st.inputs.append((tag, k, 'c', v))
        return v

    def h_assume(self, st, a):
        c = self.v2b(a[0])
        if self.cfg.concrete is not None:
            if c is not T.TRUE:
                raise PathEnd('assume')
            return
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise PathEnd('assume')
        if not any(W.test(e, c) is True for e in st.envs):
            if self.feasible(st, smt.relevant(st.pc, [c]), c) is False:
                raise PathEnd('assume')
        st.assume(c)

    def h_check(self, st, a):
        if self.cfg.tags is not None and a[0] not in self.cfg.tags or not self.mine(st):
            return
        self.do_check(st, a[0], self.v2b(a[1]))

    def h_close(self, st, a):
        tag, x, y, tol, sc = a
        if self.cfg.tags is not None and tag not in self.cfg.tags or not self.mine(st):
            return
        d = self.fsub(st, x, y)
        if self.by_normal_form(st, tag, d, tol, sc):
            return
        zero = (d, tol, sc) if isinstance(d, T.Poly) else None
        d = self.fabs(d)
        b = self.fmul(st, tol, sc)
        c = self.fcmp(st, 'ole', d, b)
        self.do_check(st, tag, self.v2b(c), ('close', x, y), zero)

    def by_normal_form(self, st, tag, d, tol, sc):
        """True when the difference is identically zero on the path, or what is left of it
        after clearing denominators is within tol*scale by interval bounds."""
        if self.cfg.concrete is not None or not isinstance(d, T.Poly) or not d.d:
            return False
        if not any(e < 0 or T.ATOMS[x].kind in ('def', 'sqrt', 'abs', 'max', 'ite') for m in d.d for x, e in m) \
                and not any(c.kind in ('and', 'or') or (c.kind == 'cmp' and c.args[0] == 'eq') for c in st.pc):
            return False
        if isinstance(sc, T.Poly):
            if not T.nonneg(sc):
                return False
        elif not sc >= 0:
            return False
        t0 = time.time()
        r = T.clear(d)
        ok = r is not None and (not r[0].d or self.by_bounds(st.pc, r, tol, sc))
        if not ok:
            r = self.on_path(st.pc, d)
            ok = r is not None and not r[0].d
        if not ok and r is not None:
            ok = self.by_bounds(st.pc, r, tol, sc) or self.by_cases(st.pc, r[0])
        if not ok:
            d2 = T.under(d, self.decided(st.pc), {})
            if d2 is not d:
                r = T.clear(d2)
                ok = r is not None and (not r[0].d or self.by_bounds(st.pc, r, tol, sc))
        dt = time.time() - t0
        smt.STATS.rec('norm', 'unsat' if ok else 'unknown', dt)
        smt.STATS.time += dt
        smt.STATS.n += 1
        if ok:
            self.checks += 1
            st.checks += 1
            self.check_tags[tag] = self.check_tags.get(tag, 0) + 1
        return ok

    def decided(self, cons):
        """Whether a condition is one of cons, or follows from the bounds they state."""
        known = {(c.kind, c.key) for c in cons}
        iv = smt.Intervals(smt.path_bounds(cons))

        def holds(c):
            if c is T.TRUE or c is T.FALSE:
                return c is T.TRUE
            if (c.kind, c.key) in known:
                return True
            if c.kind == 'and':
                return holds(c.args[0]) and holds(c.args[1])
            if c.kind == 'or':
                return holds(c.args[0]) or holds(c.args[1])
            if c.kind != 'cmp':
                return False
            op, p = c.args
            if op == 'le' and ('cmp', T.cmp('lt', p).key) in known:
                return True
            if op == 'eq':
                return False
            lo, hi = iv.poly(p)
            return hi < 0 or op == 'le' and hi <= 0
        return holds

    def by_bounds(self, cons, r, tol, sc):
        """|N / den| <= tol * sc by interval bounds of the terms."""
        if isinstance(tol, T.Poly):
            return False
        iv = smt.Intervals(smt.path_bounds(cons))
        n, den = r
        bound = Fraction(tol) * (iv.poly(sc)[0] if isinstance(sc, T.Poly) else Fraction(sc))
        for a, k in den.items():
            if T.ATOMS[a].kind == 'def':
                lo, hi = iv.atom(a)
                if lo <= 0 <= hi:
                    return False
                bound *= min(abs(lo), abs(hi)) ** k
            else:
                n = T.times_mono(n, ((a, -k),))
        lo, hi = iv.poly(n)
        return -bound <= lo and hi <= bound

    def on_path(self, cons, d):
        """d without denominators and definitions, simplified by the equations among cons."""
        r = T.clear(d)
        if r is not None and r[0].d:
            eqs, more = smt.path_equalities(cons, smt.divided([d]))
            if eqs:
                r = T.clear(d, eqs)
            for q in more:
                if r is None or not r[0].d:
                    break
                q = T.clear(q, eqs, 5000)
                if q is not None and q[0].d:
                    n = T.reduce(r[0], q[0])
                    if n is not None:
                        r = (n, r[1])
        return r

    def by_cases(self, cons, p, eqs=None, left=None):
        """p = 0 in every feasible case of the max, abs and if-then-else terms in it and
        in the equations of the path."""
        if left is None:
            left = [48]
            eqs = [f for c in cons for f in equations(c)]
        p = T.clear(p)
        if p is None:
            return False
        p = p[0]
        if not p.d:
            return True
        at = {a for q in [p] + [f[1] for f in eqs if f[0] == 'eq'] for a in q.atoms_now() if T.ATOMS[a].kind in CASES}
        if not at:
            return self.settled(cons, p, eqs)
        if left[0] <= 0 or len(p.d) > 2000:
            return False
        at = T.ATOMS[max(at)]
        if at.kind == 'max':
            x, y = at.args
            c = T.le(y, x)
        elif at.kind == 'abs':
            x, y = at.args[0], T.neg(at.args[0])
            c = T.le(T.const(0), x)
        else:
            c, x, y = at.args
        for cond, val in ((c, x), (T.bnot(c), y)):
            if cond is T.FALSE:
                continue
            left[0] -= 1
            q = T.subst(p, at.id, val, 60000)
            if q is None:
                return False
            if not q.d:
                continue
            if cond is not T.TRUE and smt.check(smt.relevant(cons, [cond]) + [cond], timeout=300, nl=False).res == 'unsat':
                continue
            fs = []
            for f in eqs + equations(cond):
                g = []
                for x in f[1:]:
                    x = T.subst(x, at.id, val, 5000)
                    x = T.clear(x, None, 5000) if x is not None else None
                    g.append(x[0] if x is not None else None)
                if None not in g and any(x.d for x in g):
                    fs.append((f[0],) + tuple(g))
            if not self.by_cases(cons + [cond], q, fs, left):
                return False
        return True

    def by_splits(self, cons, neg, zero, left):
        """Whether cons excludes neg in every feasible case of the max, abs and if-then-else terms neg
        is about. zero = (d, tol, scale) when neg says that d is not within tol*scale of zero."""
        at = splittable(neg)
        if not at:
            return smt.check(smt.relevant(cons, [neg]) + [neg], timeout=2000).res == 'unsat'
        # arguments come before what they are arguments of
        at = T.ATOMS[min(at)]
        if at.kind == 'max':
            c = T.le(at.args[1], at.args[0])
        elif at.kind == 'abs':
            c = T.le(T.const(0), at.args[0])
        else:
            c = at.args[0]
        for cond in (c, T.bnot(c)):
            if cond is T.FALSE:
                continue
            if left[0] <= 0 or self.cfg.deadline and time.time() > self.cfg.deadline:
                return False
            left[0] -= 1
            if cond is not T.TRUE and smt.check(smt.relevant(cons, [cond]) + [cond], timeout=300, nl=False).res == 'unsat':
                continue
            both = cons + [cond]
            holds, memo = self.decided(both), {}
            sub = T.under_bool(neg, holds, memo)
            if sub is T.FALSE:
                continue
            d = None
            if zero is not None:
                d = T.under(zero[0], holds, memo)
                sc = T.under(zero[2], holds, memo) if isinstance(zero[2], T.Poly) else zero[2]
                r = T.clear(d)
                if r is not None and (not r[0].d or T.nonneg(P(sc)) and self.by_bounds(both, r, zero[1], sc)):
                    continue
                d = (d, zero[1], sc)
            if at.id in splittable(sub):
                return False
            both = [T.under_bool(x, holds, memo) if x is not cond else x for x in both]
            if T.FALSE in both:
                continue
            if not self.by_splits(both, sub, d, left):
                return False
        return True

    def settled(self, cons, p, eqs):
        """p = 0 given the path and the equations of a case."""
        cons = list(cons)
        for f in eqs:
            if f[0] == 'eq':
                cons.append(T.eq(f[1], T.const(0)))
            elif f[0] == 'ne':
                cons.append(T.bnot(T.eq(f[1], T.const(0))))
        for f in eqs:
            # |x| <= |y| with y = 0
            if f[0] == 'le':
                r = self.on_path(cons, f[2]) if f[2].d else (f[2],)
                if r is not None and not r[0].d:
                    cons.append(T.eq(f[1], T.const(0)))
        r = self.on_path(cons, p)
        return r is not None and not r[0].d

    def h_obs(self, st, a):
        st.obs.append((a[0], 'f', a[1]))

    def h_obsi(self, st, a):
        st.obs.append((a[0], 'i', a[1]))

    def h_reach(self, st, a):
        st.reached.add(a[0])

    def h_stop(self, st, a):
        raise PathEnd('stop')

    def h_dbg(self, st, a):
        print('DBG', a)


CASES = ('max', 'abs', 'ite')


def splittable(b):
    """The max, abs and if-then-else terms in b, but for those under a power."""
    out = []
    todo = T.bool_atoms(b, set())
    seen = set(todo)
    while todo:
        at = T.ATOMS[todo.pop()]
        if at.kind in CASES:
            out.append(at.id)
        if at.kind == 'pow':
            continue
        for x in at.args:
            new = (x.atoms_now() if isinstance(x, T.Poly) else T.bool_atoms(x, set()) if isinstance(x, T.Bool) else set()) - seen
            seen |= new
            todo |= new
    return out


def equations(c):
    """What c states about max, abs and if-then-else terms: ('eq', p) and ('ne', p) compare p with
    zero, ('le', p, q) means |p| <= |q|."""
    kind = 'eq'
    while c.kind == 'not':
        c, kind = c.args[0], 'ne' if kind == 'eq' else 'eq'
    if c.kind != 'cmp':
        return []
    if c.args[0] == 'eq':
        q = T.clear(c.args[1], None, 5000)
        if q is not None and any(T.ATOMS[a].kind in CASES for a in q[0].atoms_now()):
            return [(kind, q[0])]
        return []
    d = c.args[1].d
    if kind == 'eq' and len(d) == 2 and sorted(d.values()) == [-1, 1]:
        side = {}
        for m, k in d.items():
            if len(m) != 1 or m[0][1] != 1 or T.ATOMS[m[0][0]].kind != 'abs':
                return []
            side[k] = T.clear(T.ATOMS[m[0][0]].args[0], None, 5000)
        if None not in side.values():
            # denominators do not matter for being zero
            return [('le', side[1][0], side[-1][0])]
    return []


def vanishing(b):
    """An equation between terms, or a combination of them."""
    if b.kind == 'cmp':
        return b.args[0] == 'eq'
    return b.kind in ('and', 'or') and all(vanishing(x) for x in b.args)


def default_f(lo, hi):
    if lo <= 0.5 <= hi:
        return 0.5
    if lo > -1e300 and hi < 1e300:
        return (lo + hi) / 2
    return lo if lo > -1e300 else hi
