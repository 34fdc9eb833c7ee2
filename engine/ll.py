"""Parser for the textual LLVM IR that rustc emits (opaque pointers).

Functions are located up front and parsed lazily, so a whole-program (fat LTO)
module is cheap to load.
"""
import re
import struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hex>f?0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<spec>[+-](?:inf|s?q?nan)(?:\(0x[0-9A-Fa-f]+\))?)
 | (?P<num>[+-]?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)
 | (?P<word>[a-zA-Z_$][-\w.$]*)
 | (?P<ell>\.\.\.)
 | (?P<punct>[=,()\[\]{}<>*|:])
''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        ch = s[i]
        if ch in ' \t\n':
            i += 1
            continue
        if ch == ';':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j
            continue
        if s.startswith('/*', i):
            i = s.index('*/', i) + 2
            continue
        r = m(s, i)
        if not r:
            raise Unsupported('tokenize: %r' % s[i:i + 40])
        out.append((r.lastgroup, r.group()))
        i = r.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'packed', '_size', '_align', '_offs')

    def __init__(self, k, w=0, n=0, el=None, els=None, packed=False):
        self.k = k
        self.w = w
        self.n = n
        self.el = el
        self.els = els
        self.packed = packed
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec':
            return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.els))
        return self.k

    @property
    def align(self):
        if self._align is None:
            k = self.k
            if k == 'i':
                b = max(1, (self.w + 7) // 8)
                a = 1
                while a < b:
                    a *= 2
                self._align = min(a, 16)
            elif k in ('double', 'ptr'):
                self._align = 8
            elif k == 'float':
                self._align = 4
            elif k == 'arr':
                self._align = self.el.align
            elif k == 'vec':
                s = self.size
                a = 1
                while a < s:
                    a *= 2
                self._align = a
            elif k == 'struct':
                self._align = 1 if self.packed else max([e.align for e in self.els] or [1])
            else:
                self._align = 1
        return self._align

    @property
    def size(self):
        if self._size is None:
            k = self.k
            if k == 'i':
                b = (self.w + 7) // 8
                a = self.align
                self._size = (b + a - 1) // a * a
            elif k in ('double', 'ptr'):
                self._size = 8
            elif k == 'float':
                self._size = 4
            elif k == 'arr':
                self._size = self.n * self.el.size
            elif k == 'vec':
                self._size = self.n * self.el.size
            elif k == 'struct':
                self.offs
            else:
                self._size = 0
        return self._size

    @property
    def offs(self):
        if self._offs is None:
            o = 0
            offs = []
            for e in self.els:
                if not self.packed:
                    a = e.align
                    o = (o + a - 1) // a * a
                offs.append(o)
                o += e.size
            if not self.packed:
                a = self.align
                o = (o + a - 1) // a * a
            self._offs = offs
            self._size = o
        return self._offs


_ints = {}


def ity(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty('i', w=w)
    return t


DOUBLE = Ty('double')
FLOAT = Ty('float')
PTR = Ty('ptr')
VOID = Ty('void')
META = Ty('metadata')
LABEL = Ty('label')
I1 = ity(1)
I8 = ity(8)
I32 = ity(32)
I64 = ity(64)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)


def parse_fp_hex(txt, ty):
    h = txt
    if h.startswith('f0x'):
        h = h[3:]
    else:
        h = h[2:]
    v = int(h, 16)
    if ty.k == 'float' and txt.startswith('f0x') and len(h) <= 8:
        return struct.unpack('<f', struct.pack('<I', v))[0]
    return struct.unpack('<d', struct.pack('<Q', v))[0]


# Constants are represented as:
#   ('i', int) ('f', float) ('g', name) ('null',) ('undef',) ('zero',)
#   ('agg', [ (ty, const) ... ]) ('bytes', b) ('gep', base, byteoff) ('cast', op, const, from, to)
class P:
    """Token-stream parser."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def peekv(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported('expected %r got %r' % (v, self.t[self.i:self.i + 6]))

    def eof(self):
        return self.i >= len(self.t)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        k, v = self.next()
        t = None
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.peekv() == 'addrspace':
                    self.next()
                    self.skip_parens()
            elif v == 'double':
                t = DOUBLE
            elif v == 'float':
                t = FLOAT
            elif v == 'void':
                t = VOID
            elif v == 'metadata':
                t = META
            elif v == 'label':
                t = LABEL
            elif v[0] == 'i' and v[1:].isdigit():
                t = ity(int(v[1:]))
            elif v in ('half', 'fp128', 'x86_fp80', 'token', 'bfloat', 'ppc_fp128', 'opaque'):
                t = Ty(v)
        elif k == 'loc':
            t = self.mod.named_type(v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = Ty('arr', n=n, el=el)
        elif v == '{':
            t = self.struct(False)
        elif v == '<':
            if self.peekv() == '{':
                self.next()
                t = self.struct(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = Ty('vec', n=n, el=el)
        if t is None:
            raise Unsupported('type %r' % (v,))
        # function type (only appears for varargs call syntax): ty (args...)
        return t

    def struct(self, packed):
        els = []
        if self.accept('}'):
            return Ty('struct', els=els, packed=packed)
        while True:
            els.append(self.type())
            if self.accept('}'):
                break
            self.expect(',')
        return Ty('struct', els=els, packed=packed)

    def const(self, ty):
        k, v = self.next()
        if k == 'num':
            if ty.k in ('double', 'float'):
                return ('f', float(v))
            return ('i', int(v) & ((1 << ty.w) - 1))
        if k == 'hex':
            if ty.k in ('double', 'float'):
                return ('f', parse_fp_hex(v, ty))
            raise Unsupported('hex const')
        if k == 'spec':
            if 'nan' in v:
                return ('f', float('nan'))
            return ('f', float(v))
        if k == 'glob':
            return ('g', v)
        if k == 'str':
            assert v[0] == 'c'
            return ('bytes', unescape(v[2:-1]))
        if k == 'word':
            if v == 'true':
                return ('i', 1)
            if v == 'false':
                return ('i', 0)
            if v == 'null':
                return ('i', 0)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'splat':
                self.expect('(')
                t = self.type()
                c = self.const(t)
                self.expect(')')
                return ('agg', [(t, c)] * ty.n)
            if v == 'getelementptr':
                while self.peekv() != '(':
                    self.next()
                    if self.peekv() == '(' and self.peekv(-1) == 'inrange':
                        self.skip_parens()
                self.expect('(')
                t = self.type()
                self.expect(',')
                bt = self.type()
                base = self.const(bt)
                idx = []
                while self.accept(','):
                    it = self.type()
                    idx.append((it, self.const(it)))
                self.expect(')')
                return ('gepc', t, base, idx)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'ptrtoaddr'):
                self.expect('(')
                t = self.type()
                c = self.const(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, c, t, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peekv() != '(':
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.const(t)
                self.expect(',')
                t2 = self.type()
                b = self.const(t2)
                self.expect(')')
                return ('bin', v, a, b, t)
        if v == '[' or v == '{':
            end = ']' if v == '[' else '}'
            els = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    els.append((t, self.const(t)))
                    if self.accept(end):
                        break
                    self.expect(',')
            return ('agg', els)
        if v == '<':
            if self.accept('{'):
                els = []
                if not self.accept('}'):
                    while True:
                        t = self.type()
                        els.append((t, self.const(t)))
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                return ('agg', els)
            els = []
            while True:
                t = self.type()
                els.append((t, self.const(t)))
                if self.accept('>'):
                    break
                self.expect(',')
            return ('agg', els)
        raise Unsupported('const %r of %r' % (v, ty))

    def value(self, ty):
        k, v = self.peek()
        if k == 'loc':
            self.i += 1
            return ('l', v)
        return self.const(ty)

    def skip_attrs(self):
        """Skip parameter attributes before a value."""
        while True:
            k, v = self.peek()
            if k == 'word' and v not in ('true', 'false', 'null', 'undef', 'poison',
                                         'zeroinitializer', 'splat', 'getelementptr', 'inttoptr',
                                         'ptrtoint', 'bitcast', 'trunc', 'add', 'sub', 'mul', 'xor',
                                         'ptrtoaddr'):
                self.i += 1
                if v == 'align' and self.peek()[0] == 'num':
                    self.i += 1
                elif self.peekv() == '(':
                    self.skip_parens()
                continue
            if k == 'attr':
                self.i += 1
                continue
            if k == 'str':
                # string attribute
                if v[0] == '"':
                    self.i += 1
                    if self.accept('='):
                        self.i += 1
                    continue
            return


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'extra', 'fn', 'text')

    def __init__(self, op, dest=None, ty=None, a=None, extra=None, text=None):
        self.op = op
        self.dest = dest
        self.ty = ty
        self.a = a
        self.extra = extra
        self.text = text
        self.fn = None


class Block:
    __slots__ = ('name', 'phis', 'ins')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []


class Func:
    def __init__(self, name, header, body_lines, mod):
        self.name = name
        self.header = header
        self.body_lines = body_lines
        self.mod = mod
        self.params = None
        self.blocks = None
        self.entry = None
        self.calls = 0

    def parse(self):
        if self.blocks is not None:
            return
        h = self.header
        toks = tokenize(h)
        p = P(toks, self.mod)
        while p.peek() != ('glob', self.name):
            p.next()
        p.next()
        p.expect('(')
        params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                t = p.type()
                # attributes then name
                while p.peek()[0] != 'loc' and p.peekv() not in (',', ')'):
                    k, v = p.next()
                    if p.peekv() == '(':
                        p.skip_parens()
                if p.peek()[0] == 'loc':
                    params.append((t, p.next()[1]))
                else:
                    params.append((t, '%%%d' % len(params)))
                if p.accept(')'):
                    break
                p.expect(',')
        self.params = params
        self.blocks = {}
        cur = None
        lines = self.body_lines
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln.isspace():
                continue
            if ln[0] not in ' \t':
                if ln[0] == ';':
                    continue
                # label
                if ln[0] == '"':
                    j = ln.index('"', 1)
                    nm = '%"' + ln[1:j] + '"'
                else:
                    j = ln.index(':')
                    nm = '%' + ln[:j]
                cur = Block(nm)
                self.blocks[nm] = cur
                if self.entry is None:
                    self.entry = cur
                continue
            s = ln.strip()
            if s[0] == ';' or s.startswith('#dbg'):
                continue
            if cur is None:
                # numbered after the unnamed parameters
                cur = Block('%%%d' % sum(nm[1:].isdigit() for _, nm in params))
                self.blocks[cur.name] = cur
                self.entry = cur
            if s.startswith('switch'):
                while ']' not in lines[i - 1]:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif ' invoke ' in ln or s.startswith('invoke'):
                while ' unwind label ' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif 'landingpad' in s:
                while i < n and lines[i].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    s += ' ' + lines[i].strip()
                    i += 1
            ins = Instr('lazy', text=s)
            cur.ins.append(ins)
        for b in self.blocks.values():
            k = 0
            while k < len(b.ins) and re.match(r'%\S+ = phi ', b.ins[k].text):
                b.phis.append(parse_instr(b.ins[k].text, self.mod))
                k += 1
            b.ins = b.ins[k:]


def strip_meta(s):
    # drop trailing ", !dbg !1, !noalias !2" metadata attachments
    m = re.search(r', ![a-zA-Z]', s)
    if m:
        # make sure it is not inside a string/call args: metadata args look like "(metadata !12)"
        return s[:m.start()]
    return s


FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nusw', 'disjoint', 'nneg', 'samesign', 'fast', 'nnan',
         'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'tail', 'musttail',
         'notail', 'atomic'}
# nnan, ninf and nsz only record what the optimiser proved about operands
FAST = {'fast', 'arcp', 'contract', 'afn', 'reassoc'}


def parse_instr(s, mod):
    text = s
    s = strip_meta(s)
    toks = tokenize(s)
    p = P(toks, mod)
    dest = None
    if p.peek()[0] == 'loc' and p.peekv(1) == '=':
        dest = p.next()[1]
        p.next()
    k, op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    flags = set()

    def eatflags():
        while p.peek()[0] == 'word' and p.peekv() in FLAGS:
            flags.add(p.next()[1])
            if p.peekv() == '(' and 'inrange' in flags:
                p.skip_parens()

    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and',
              'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        eatflags()
        if flags & FAST:
            raise Unsupported('fast-math flags: ' + text)
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, dest, t, (a, b), flags, text)
    if op == 'fneg':
        eatflags()
        t = p.type()
        return Instr(op, dest, t, (p.value(t),), None, text)
    if op in ('icmp', 'fcmp'):
        eatflags()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, dest, t, (a, b), pred, text)
    if op == 'load':
        eatflags()
        t = p.type()
        p.expect(',')
        pt = p.type()
        return Instr(op, dest, t, (p.value(pt),), None, text)
    if op == 'store':
        eatflags()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        return Instr(op, None, t, (v, p.value(pt)), None, text)
    if op == 'getelementptr':
        eatflags()
        t = p.type()
        p.expect(',')
        bt = p.type()
        base = p.value(bt)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return Instr(op, dest, t, (base, idx), None, text)
    if op == 'alloca':
        t = p.type()
        cnt = None
        if p.accept(','):
            if p.peekv() != 'align':
                ct = p.type()
                cnt = p.value(ct)
        return Instr(op, dest, t, (cnt,), None, text)
    if op == 'br':
        if p.accept('label'):
            return Instr('jmp', None, None, (p.next()[1],), None, text)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1]
        p.expect(',')
        p.expect('label')
        b = p.next()[1]
        return Instr('br', None, None, (c, a, b), None, text)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            c = p.const(ct)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1]))
        return Instr('switch', None, t, (v, d, cases), None, text)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return Instr('ret', None, t, (None,), None, text)
        return Instr('ret', None, t, (p.value(t),), None, text)
    if op == 'unreachable':
        return Instr(op, text=text)
    if op == 'phi':
        eatflags()
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = p.next()[1]
            p.expect(']')
            inc[lab] = v
            if not p.accept(','):
                break
        return Instr('phi', dest, t, (inc,), None, text)
    if op == 'select':
        eatflags()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return Instr('select', dest, t, (c, a, b), ct, text)
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp',
              'fptoui', 'fptosi', 'fpext', 'fptrunc', 'ptrtoaddr'):
        eatflags()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Instr(op, dest, t2, (v,), t, text)
    if op in ('call', 'invoke'):
        # [fast flags] [cc] [ret attrs] type [(fnty)] callee(args) ...
        while True:
            k, v = p.peek()
            if k == 'word' and v not in ('void', 'ptr', 'double', 'float', 'metadata') and \
                    not (v[0] == 'i' and v[1:].isdigit()):
                p.next()
                if v == 'align' and p.peek()[0] == 'num':
                    p.next()
                elif p.peekv() == '(':
                    p.skip_parens()
                continue
            break
        t = p.type()
        if p.peekv() == '(':
            p.skip_parens()
        if p.peekv() == 'asm':
            return Instr('asm', dest, t, (), None, text)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                if at.k == 'metadata':
                    d = 0
                    while True:
                        v = p.peekv()
                        if d == 0 and v in (',', ')'):
                            break
                        if v == '(':
                            d += 1
                        if v == ')':
                            d -= 1
                        p.next()
                    args.append((at, ('undef',)))
                else:
                    p.skip_attrs()
                    args.append((at, p.value(at)))
                if p.accept(')'):
                    break
                p.expect(',')
        extra = None
        if op == 'invoke':
            while p.peekv() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            extra = p.next()[1]
        return Instr('call', dest, t, (callee, args), extra, text)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr(op, dest, t, (v,), idx, text)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr(op, dest, t, (v, e), idx, text)
    if op == 'freeze':
        t = p.type()
        return Instr(op, dest, t, (p.value(t),), None, text)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        it = p.type()
        return Instr(op, dest, t, (v, p.value(it)), None, text)
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        p.expect(',')
        it = p.type()
        return Instr(op, dest, t, (v, e, p.value(it)), None, text)
    if op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        p.expect(',')
        t3 = p.type()
        m = p.const(t3)
        return Instr(op, dest, t3, (a, b, m), t, text)
    if op == 'fence':
        return Instr('nop', text=text)
    if op in ('atomicrmw', 'cmpxchg', 'landingpad', 'resume'):
        return Instr('unsupported', dest, None, (), op, text)
    raise Unsupported('instruction: ' + text)


class Module:
    def __init__(self, path):
        self.funcs = {}
        self.globals = {}
        self.decls = set()
        self.types = {}
        self._tcache = {}
        self.aliases = {}
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = '@' + m.group(1)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[nm] = Func(nm, ln, lines[i + 1:j], self)
                i = j
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = ', ln)
                self.globals['@' + m.group(1)] = ln
                if ' alias ' in ln:
                    t = ln.split(',')[-1]
                    m2 = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                    self.aliases['@' + m.group(1)] = '@' + m2[1]
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls.add('@' + m.group(1))
            elif ln.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            i += 1

    def named_type(self, nm):
        t = self._tcache.get(nm)
        if t is None:
            txt = self.types[nm]
            t = self._tcache[nm] = P(tokenize(txt), self).type()
        return t

    def parse_global(self, nm):
        """Return (type, const or None)."""
        ln = strip_meta(self.globals[nm])
        # "@x = private unnamed_addr constant TYPE INIT, align 8"
        m = re.match(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+) = ', ln)
        toks = tokenize(ln[m.end():])
        p = P(toks, self)
        while p.peekv() not in ('global', 'constant'):
            p.next()
            if p.peekv() == '(':
                p.skip_parens()
        ext = any(v in ('external', 'extern_weak') for _, v in toks[:p.i])
        p.next()
        t = p.type()
        if ext:
            return t, None
        return t, p.const(t)
