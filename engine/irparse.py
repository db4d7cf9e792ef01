"""Lazy parser for LLVM-18 textual IR (opaque pointers).

Only the subset of IR that clang emits for C++ at -O1/-O2 without
vectorisation is accepted; anything else raises ParseError loudly.
"""
import re
import struct
from fractions import Fraction


class ParseError(Exception):
    pass


TOK = re.compile(r'''
   (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
 | (?P<qstr>"(?:[^"\\]|\\.)*")
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        if s[pos] == ';':
            break
        mo = m(s, pos)
        if not mo:
            raise ParseError('tok: %r in %r' % (s[pos:pos + 40], s[:200]))
        k = mo.lastgroup
        pos = mo.end()
        if k == 'ws':
            continue
        t = mo.group()
        if k == 'id' and t.endswith(':') is False:
            out.append(t)
        else:
            out.append(t)
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'size', 'align', 'offs')

    def __init__(self, k, a=None):
        self.k = k      # int double float ptr void arr struct vec label fn fp80
        self.a = a
        self.size = None
        self.align = None
        self.offs = None

    def __repr__(self):
        return 'Ty(%s,%s)' % (self.k, self.a)


VOID = Ty('void')
PTR = Ty('ptr')
PTR.size = PTR.align = 8
DBL = Ty('double')
DBL.size = DBL.align = 8
FLT = Ty('float')
FLT.size = FLT.align = 4
F80 = Ty('fp80')
F80.size = F80.align = 16
LABEL = Ty('label')
META = Ty('metadata')
_ints = {}


def IntTy(w):
    t = _ints.get(w)
    if t is None:
        t = Ty('int', w)
        b = max(1, (w + 7) // 8)
        p = 1
        while p < b:
            p *= 2
        t.size = p if w <= 64 else b
        t.align = min(p, 16)
        _ints[w] = t
    return t


def layout(t):
    """computes size/align (and offsets for struct)"""
    if t.size is not None:
        return t.size
    if t.k == 'arr':
        n, e = t.a
        layout(e)
        t.size = n * e.size
        t.align = e.align
    elif t.k == 'vec':
        n, e = t.a
        layout(e)
        t.size = n * e.size
        t.align = t.size
    elif t.k == 'struct':
        elems, packed = t.a
        off = 0
        al = 1
        offs = []
        for e in elems:
            layout(e)
            a = 1 if packed else e.align
            off = (off + a - 1) // a * a
            offs.append(off)
            off += e.size
            al = max(al, a)
        t.offs = offs
        t.size = (off + al - 1) // al * al
        t.align = al
    elif t.k == 'named':
        raise ParseError('opaque type layout')
    else:
        raise ParseError('layout %r' % t)
    return t.size


# constants ------------------------------------------------------------
class Const:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'C(%r)' % (self.v,)


class GlobRef:          # address of global + offset, resolved by engine
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name
        self.off = off


class Undef:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class Zero:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class Agg:
    __slots__ = ('ty', 'elems')

    def __init__(self, ty, elems):
        self.ty = ty
        self.elems = elems   # list of constants (any of the above / Const)


class Bytes:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class CExpr:
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = args


PARAM_ATTRS = {
    'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly',
    'noalias', 'zeroext', 'signext', 'immarg', 'returned', 'inreg', 'nofree',
    'nest', 'swiftself', 'allocptr', 'allocalign', 'inrange', 'writable',
    'dead_on_unwind', 'inalloca',
}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null',
                 'sret', 'byval', 'elementtype', 'byref', 'memory',
                 'allocsize', 'nofpclass', 'range'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak',
        'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr',
        'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected',
        'default', 'dllimport', 'dllexport', 'unnamed_addr',
        'local_unnamed_addr', 'externally_initialized', 'thread_local',
        'fastcc', 'ccc', 'coldcc'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if self.i >= len(self.t) or self.t[self.i] != x:
            raise ParseError('expected %r got %r at %d in %s' %
                             (x, self.peek(), self.i, ' '.join(self.t)[:400]))
        self.i += 1

    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.i += 4
        elif t[0] == 'i' and t[1:].isdigit():
            r = IntTy(int(t[1:]))
        elif t == 'double':
            r = DBL
        elif t == 'float':
            r = FLT
        elif t == 'x86_fp80':
            r = F80
        elif t == 'void':
            r = VOID
        elif t == 'label':
            r = LABEL
        elif t == 'metadata':
            r = META
        elif t == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            r = Ty('arr', (n, e))
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = Ty('struct', (self.typelist('}'), True))
                self.exp('>')
            else:
                n = int(self.next())
                self.exp('x')
                e = self.type()
                self.exp('>')
                r = Ty('vec', (n, e))
        elif t == '{':
            r = Ty('struct', (self.typelist('}'), False))
        elif t[0] == '%':
            r = self.m.named_type(t)
        else:
            raise ParseError('type? %r in %s' % (t, ' '.join(self.t)[:300]))
        # function type
        while self.peek() == '(' :
            self.next()
            args = []
            va = False
            while not self.eat(')'):
                if self.eat('...'):
                    va = True
                else:
                    args.append(self.type())
                self.eat(',')
            r = Ty('fn', (r, args, va))
        return r

    def typelist(self, end):
        out = []
        while not self.eat(end):
            out.append(self.type())
            self.eat(',')
        return out

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.i += 1
            elif t in PARAM_ATTRS_P:
                self.i += 1
                if self.peek() == '(':
                    self.skip_paren()
                elif t == 'align':
                    self.i += 1
            elif t is not None and t[0] == '"':
                self.i += 1
                if self.eat('='):
                    self.i += 1
            else:
                return

    def skip_paren(self):
        self.exp('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    # ---- values: returns str for register or const object
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return t
        if c == '@':
            return GlobRef(t)
        if t == 'true':
            return Const(1)
        if t == 'false':
            return Const(0)
        if t == 'null' or t == 'none':
            return Const(0)
        if t in ('undef', 'poison'):
            return Undef(ty)
        if t == 'zeroinitializer':
            return Zero(ty)
        if t.startswith('0x'):
            if t[2] in 'KLMHR':
                return Const(fp80(t))
            return Const(dbl(int(t, 16)))
        if c == '-' or c.isdigit():
            if ty.k in ('double', 'float'):
                return Const(recon(float(t)))
            return Const(int(t) & ((1 << ty.a) - 1))
        if c == 'c' and t[1:2] == '"':
            return Bytes(unesc(t[2:-1]))
        if t == '{' or (t == '<' and self.peek() == '{'):
            pk = t == '<'
            if pk:
                self.next()
            el = []
            tys = []
            while not self.eat('}'):
                et = self.type()
                tys.append(et)
                el.append(self.value(et))
                self.eat(',')
            if pk:
                self.exp('>')
            return Agg(ty, el)
        if t == '[' or t == '<':
            end = ']' if t == '[' else '>'
            el = []
            while not self.eat(end):
                et = self.type()
                el.append(self.value(et))
                self.eat(',')
            return Agg(ty, el)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            if self.peek() == 'inrange':
                self.i += 1
                self.skip_paren()
            self.exp('(')
            bt = self.type()
            self.exp(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.eat(','):
                self.eat('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.exp(')')
            return CExpr('gep', (bt, base, idx))
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext',
                 'addrspacecast'):
            self.exp('(')
            ft = self.type()
            v = self.value(ft)
            self.exp('to')
            tt = self.type()
            self.exp(')')
            return CExpr(t, (ft, v, tt))
        if t in ('sub', 'add', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or',
                 'xor'):
            while self.peek() in ('nsw', 'nuw', 'exact'):
                self.i += 1
            self.exp('(')
            t1 = self.type()
            a = self.value(t1)
            self.exp(',')
            t2 = self.type()
            b = self.value(t2)
            self.exp(')')
            return CExpr(t, (t1, a, b))
        if t == 'icmp':
            pred = self.next()
            self.exp('(')
            t1 = self.type()
            a = self.value(t1)
            self.exp(',')
            t2 = self.type()
            b = self.value(t2)
            self.exp(')')
            return CExpr('icmp', (pred, t1, a, b))
        if t == 'asm':
            raise ParseError('inline asm')
        raise ParseError('value? %r in %s' % (t, ' '.join(self.t)[:300]))

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ------------------------------------------------- exact-real constants
PI = Fraction(
    31415926535897932384626433832795028841971693993751, 10 ** 49)
_rc = {}


def recon(d):
    """Value of a double literal under exact-real semantics.

    A double within one ulp of a small rational, of a short decimal or of a
    rational multiple of pi (or 1/pi) stands for that number; everything else
    stands for itself.  Non-finite values are kept as Python floats.
    """
    r = _rc.get(d)
    if r is not None:
        return r
    r = _recon(d)
    _rc[d] = r
    return r


def _recon(d):
    import math
    if math.isnan(d) or math.isinf(d):
        return d
    if d == 0:
        return Fraction(0)
    f = Fraction(d)
    if f.denominator <= 4096:
        return f
    ulp = Fraction(math.ulp(d)) * Fraction(11, 10)
    # short decimal literal
    s = repr(d)
    mant = s.split('e')[0].replace('.', '').replace('-', '').strip('0')
    dec = Fraction(s)
    if len(mant) <= 13:
        return dec
    # constant-folded arithmetic: a few ulp off a very short decimal
    g = Fraction('%.5g' % d)
    if abs(g - f) <= abs(f) * Fraction(2, 10 ** 15):
        return g
    g = f.limit_denominator(5040)
    if abs(g - f) <= ulp and g != 0 and abs(f) > Fraction(1, 1000):
        return g
    g = (f / PI).limit_denominator(1440)
    if g != 0 and abs(g * PI - f) <= ulp:
        return g * PI
    g = (f * PI).limit_denominator(1440)
    if g != 0 and abs(g / PI - f) <= ulp:
        return g / PI
    # reciprocal of a short decimal
    inv = 1 / d
    s = repr(inv)
    mant = s.split('e')[0].replace('.', '').replace('-', '').strip('0')
    if len(mant) <= 9 and abs(1 / Fraction(s) - f) <= ulp:
        return 1 / Fraction(s)
    return dec


def dbl(bits):
    return recon(struct.unpack('<d', struct.pack('<Q', bits))[0])


def fp80(t):
    h = int(t[3:], 16)
    se = h >> 64
    m = h & ((1 << 64) - 1)
    sign = -1 if se & 0x8000 else 1
    e = se & 0x7fff
    if m == 0:
        return Fraction(0)
    if e == 0x7fff:
        return float('inf') * sign
    return sign * Fraction(m) * Fraction(2) ** (e - 16383 - 63)


# ---------------------------------------------------------------- module
class Func:
    def __init__(self, name):
        self.name = name
        self.ret = None
        self.params = []      # (ty, name, byvalsize)
        self.vararg = False
        self.blocks = None    # label -> list of Inst
        self.entry = None
        self.lines = None
        self.decl = True


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'b', 'c', 'x', 'fn')

    def __init__(self, op, dst=None, ty=None, a=None, b=None, c=None, x=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.b = b
        self.c = c
        self.x = x
        self.fn = None

    def __repr__(self):
        return 'Inst(%s %s %s %s %s %s)' % (self.op, self.dst, self.a, self.b,
                                            self.c, self.x)


class Module:
    def __init__(self, text):
        self.types_src = {}
        self.types = {}
        self.globals_src = {}
        self.aliases = {}
        self.funcs = {}
        self.ctors = []
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == '%':
                k = l.index(' = type ')
                self.types_src[l[:k]] = l[k + 8:]
            elif c == '@':
                name = l[:self._gname_end(l)]
                rest = l[len(name) + 3:]
                if ' alias ' in rest[:120] and re.match(
                        r'((?:\w+ )*)alias ', rest):
                    m = re.search(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)'
                                  r'\s*$', rest.split(', partition')[0])
                    self.aliases[name] = m.group().strip()
                else:
                    self.globals_src[name] = rest
            elif l.startswith('define ') or l.startswith('declare '):
                isdef = c == 'd' and l.startswith('define ')
                m = re.search(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                name = m.group()[:-1]
                f = Func(name)
                f.sig = l
                if isdef:
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    f.lines = lines[i + 1:j]
                    f.decl = False
                    i = j
                self.funcs[name] = f
            i += 1

    @staticmethod
    def _gname_end(l):
        if l[1] == '"':
            return l.index('"', 2) + 1
        return l.index(' ')

    def named_type(self, name):
        t = self.types.get(name)
        if t is not None:
            return t
        src = self.types_src.get(name)
        t = Ty('named', name)
        self.types[name] = t
        if src is None or src.strip() == 'opaque':
            return t
        r = P(self, tokenize(src)).type()
        t.k = r.k
        t.a = r.a
        return t

    def parse_global(self, name):
        """returns (ty, init or None, is_const)"""
        src = self.globals_src[name]
        src = re.sub(r', comdat(\(\$[^)]*\))?', '', src)
        p = P(self, tokenize(src))
        ext = False
        while True:
            t = p.peek()
            if t in LINK:
                if t in ('external', 'extern_weak'):
                    ext = True
                p.i += 1
                if t == 'thread_local' and p.peek() == '(':
                    p.skip_paren()
            elif t == 'addrspace':
                p.i += 1
                p.skip_paren()
            else:
                break
        const = p.next() == 'constant'
        ty = p.type()
        init = None
        if not ext:
            init = p.value(ty)
        return ty, init, const

    def parse_func(self, f):
        if f.blocks is not None:
            return
        p = P(self, tokenize(self._clean_sig(f.sig)))
        p.next()
        while True:
            t = p.peek()
            if t in LINK:
                p.i += 1
            else:
                break
        p.skip_attrs()
        f.ret = p.type() if p.peek(1) != '(' or p.peek()[0] != '@' else None
        # p.type() would have swallowed '(...)' only for fn-pointer types
        assert p.next() == f.name
        p.exp('(')
        nparam = 0
        while not p.eat(')'):
            if p.eat('...'):
                f.vararg = True
                continue
            ty = p.type()
            byval = None
            # look for byval
            j = p.i
            p.skip_attrs()
            seg = p.t[j:p.i]
            if 'byval' in seg:
                q = P(self, seg)
                q.i = seg.index('byval') + 2
                byval = q.type()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%' + str(nparam)
            nparam += 1
            f.params.append((ty, nm, byval))
            p.eat(',')
        if f.decl:
            f.blocks = {}
            return
        blocks = {}
        cur = []
        label = None
        # implicit entry label = next unnamed number
        first = True
        unnamed = sum(1 for (_, nm, _) in f.params if nm[1:].isdigit())
        joined = []
        for l in f.lines:
            if l.startswith('    ') or l.startswith('  ]'):
                joined[-1] += ' ' + l.split('  ;')[0].strip()
            else:
                joined.append(l)
        for l in joined:
            if not l:
                continue
            if l[0] != ' ':
                s = l.split(';')[0].rstrip()
                if s.endswith(':'):
                    lab = s[:-1]
                    lab = '%' + lab
                    if not first:
                        pass
                    if label is None and not cur:
                        label = lab
                    else:
                        if label is None:
                            label = '%' + str(unnamed)
                        blocks[label] = cur
                        if first:
                            f.entry = label
                            first = False
                        cur = []
                        label = lab
                continue
            s = l.strip()
            ins = self.parse_inst(s)
            if ins is not None:
                cur.append(ins)
        if label is None:
            label = '%' + str(unnamed)
        blocks[label] = cur
        if first:
            f.entry = label
        f.blocks = blocks
        f.lines = None

    @staticmethod
    def _clean_sig(s):
        return s.rstrip('{ ')

    def parse_inst(self, s):
        # drop trailing metadata
        k = s.find(', !')
        if k >= 0 and '!"' not in s and not s.startswith('call void @llvm.'):
            s = s[:k]
        p = P(self, tokenize(s))
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        return getattr(self, 'i_' + op, self.i_bin)(p, dst, op)

    # --- instruction parsers
    def i_bin(self, p, dst, op):
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl',
                  'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul',
                  'fdiv', 'frem'):
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or \
                    p.peek() in FMF:
                p.i += 1
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return Inst(op, dst, ty, a, b)
        if op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp',
                  'sitofp', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr',
                  'bitcast', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.i += 1
            ty = p.type()
            a = p.value(ty)
            p.exp('to')
            t2 = p.type()
            return Inst(op, dst, t2, a, ty)
        raise ParseError('inst %s: %s' % (op, ' '.join(p.t)[:300]))

    def i_fneg(self, p, dst, op):
        while p.peek() in FMF:
            p.i += 1
        ty = p.type()
        return Inst('fneg', dst, ty, p.value(ty))

    def i_freeze(self, p, dst, op):
        ty = p.type()
        return Inst('freeze', dst, ty, p.value(ty))

    def i_icmp(self, p, dst, op):
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.exp(',')
        b = p.value(ty)
        return Inst('icmp', dst, ty, a, b, pred)

    def i_fcmp(self, p, dst, op):
        while p.peek() in FMF:
            p.i += 1
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.exp(',')
        b = p.value(ty)
        return Inst('fcmp', dst, ty, a, b, pred)

    def i_alloca(self, p, dst, op):
        p.eat('inalloca')
        ty = p.type()
        cnt = Const(1)
        if p.eat(','):
            if p.peek() != 'align':
                t, cnt = p.tv()
        return Inst('alloca', dst, ty, cnt)

    def i_load(self, p, dst, op):
        at = False
        if p.eat('atomic'):
            at = True
        p.eat('volatile')
        ty = p.type()
        p.exp(',')
        _, a = p.tv()
        return Inst('load', dst, ty, a, x=at)

    def i_store(self, p, dst, op):
        at = p.eat('atomic')
        p.eat('volatile')
        ty, v = p.tv()
        p.exp(',')
        _, a = p.tv()
        return Inst('store', None, ty, v, a, x=at)

    def i_fence(self, p, dst, op):
        return None

    def i_cmpxchg(self, p, dst, op):
        p.eat('weak')
        p.eat('volatile')
        _, a = p.tv()
        p.exp(',')
        ty, b = p.tv()
        p.exp(',')
        _, c = p.tv()
        return Inst('cmpxchg', dst, ty, a, b, c)

    def i_atomicrmw(self, p, dst, op):
        p.eat('volatile')
        o = p.next()
        _, a = p.tv()
        p.exp(',')
        ty, b = p.tv()
        return Inst('atomicrmw', dst, ty, a, b, x=o)

    def i_getelementptr(self, p, dst, op):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.i += 1
        bt = p.type()
        p.exp(',')
        pt, base = p.tv()
        idx = []
        while p.eat(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return Inst('gep', dst, bt, base, idx)

    def i_phi(self, p, dst, op):
        while p.peek() in FMF:
            p.i += 1
        ty = p.type()
        inc = {}
        while True:
            p.exp('[')
            v = p.value(ty)
            p.exp(',')
            lab = p.next()
            p.exp(']')
            inc[lab] = v
            if not p.eat(','):
                break
        return Inst('phi', dst, ty, inc)

    def i_select(self, p, dst, op):
        while p.peek() in FMF:
            p.i += 1
        tc, c = p.tv()
        p.exp(',')
        ty, a = p.tv()
        p.exp(',')
        _, b = p.tv()
        return Inst('select', dst, ty, a, b, c, x=tc)

    def i_br(self, p, dst, op):
        if p.eat('label'):
            return Inst('jmp', a=p.next())
        ty, c = p.tv()
        p.exp(',')
        p.exp('label')
        t = p.next()
        p.exp(',')
        p.exp('label')
        f = p.next()
        return Inst('br', a=c, b=t, c=f)

    def i_switch(self, p, dst, op):
        ty, v = p.tv()
        p.exp(',')
        p.exp('label')
        d = p.next()
        p.exp('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.exp(',')
            p.exp('label')
            cases.append((cv.v, p.next()))
        return Inst('switch', ty=ty, a=v, b=d, c=cases)

    def i_ret(self, p, dst, op):
        ty = p.type()
        if ty.k == 'void':
            return Inst('ret', ty=ty)
        return Inst('ret', ty=ty, a=p.value(ty))

    def i_unreachable(self, p, dst, op):
        return Inst('unreachable')

    def i_resume(self, p, dst, op):
        ty = p.type()
        return Inst('resume', ty=ty, a=p.value(ty))

    def i_extractvalue(self, p, dst, op):
        ty = p.type()
        a = p.value(ty)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Inst('extractvalue', dst, ty, a, idx)

    def i_insertvalue(self, p, dst, op):
        ty = p.type()
        a = p.value(ty)
        p.exp(',')
        t2 = p.type()
        b = p.value(t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Inst('insertvalue', dst, ty, a, b, idx)

    def i_extractelement(self, p, dst, op):
        ty, a = p.tv()
        p.exp(',')
        _, i = p.tv()
        return Inst('extractelement', dst, ty, a, i)

    def i_insertelement(self, p, dst, op):
        ty, a = p.tv()
        p.exp(',')
        _, b = p.tv()
        p.exp(',')
        _, i = p.tv()
        return Inst('insertelement', dst, ty, a, b, i)

    def i_shufflevector(self, p, dst, op):
        ty, a = p.tv()
        p.exp(',')
        _, b = p.tv()
        p.exp(',')
        mt, m = p.tv()
        return Inst('shufflevector', dst, ty, a, b, m, x=mt)

    def i_landingpad(self, p, dst, op):
        ty = p.type()
        clauses = []
        cleanup = False
        while p.peek() is not None:
            t = p.next()
            if t == 'cleanup':
                cleanup = True
            elif t == 'catch':
                clauses.append(('catch', p.tv()[1]))
            elif t == 'filter':
                p.type()
                p.value(Ty('arr', (0, PTR)))
                clauses.append(('filter', None))
            else:
                raise ParseError('landingpad ' + t)
        return Inst('landingpad', dst, ty, clauses, cleanup)

    def _call(self, p, dst, op):
        while p.peek() in LINK or p.peek() in FMF:
            p.i += 1
        p.skip_attrs()
        # return type or fn type
        rt = p.type()
        va = None
        if rt.k == 'fn':
            va = rt
            rt = rt.a[0]
        if p.peek() == 'asm':
            # inline asm: treated as a compiler barrier with no effect
            return Inst('nop', dst, rt)
        callee = p.next()
        if callee[0] == '@':
            callee = GlobRef(callee)
        elif callee[0] != '%':
            raise ParseError('callee %r' % callee)
        p.exp('(')
        args = []
        while not p.eat(')'):
            ty = p.type()
            if ty.k == 'metadata':
                d = 0
                while True:
                    t = p.peek()
                    if d == 0 and t in (',', ')'):
                        break
                    if t in ('(', '{', '['):
                        d += 1
                    if t in (')', '}', ']'):
                        d -= 1
                    p.i += 1
                args.append((ty, Const(0)))
            else:
                p.skip_attrs()
                args.append((ty, p.value(ty)))
            p.eat(',')
        return Inst('call', dst, rt, callee, args)

    def i_call(self, p, dst, op):
        return self._call(p, dst, op)

    def i_tail(self, p, dst, op):
        p.next()
        return self._call(p, dst, op)

    i_musttail = i_tail
    i_notail = i_tail

    def i_invoke(self, p, dst, op):
        ins = self._call(p, dst, op)
        while p.peek() != 'to':
            p.i += 1
        p.next()
        p.exp('label')
        ok = p.next()
        p.exp('unwind')
        p.exp('label')
        uw = p.next()
        ins.x = (ok, uw)
        return ins
