"""Symbolic executor for LLVM IR (the compiler's own output for /repo).

* integers are bit-vectors, pointers are concrete 64-bit addresses
  (region id << 32 | offset), doubles are exact reals (see terms.py);
* control flow on symbolic conditions forks after a feasibility query;
* every memory access is bounds / lifetime checked against its object.
"""
import math
import sys
import time
from fractions import Fraction

import z3
import irparse
from irparse import (Const, GlobRef, Undef, Zero, Agg, Bytes, CExpr, Inst,
                     layout, recon, dbl, PI, ParseError)
from terms import Terms, rv, tz, recon0, trim

sys.setrecursionlimit(100000)


class Uninit:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Uninit()


class FBits:
    """bits of a double whose value is an exact real (or the high/low half)"""
    __slots__ = ('v', 'lo', 'n')

    def __init__(self, v, lo=0, n=8):
        self.v = v
        self.lo = lo
        self.n = n


class RInt:
    """integer floor(x)+c or trunc(x)+c of a real x, not yet concretised"""
    __slots__ = ('x', 'mode', 'c')

    def __init__(self, x, mode, c):
        self.x = x
        self.mode = mode
        self.c = c

    def ge(self, m):
        """z3 Bool: value >= m"""
        m -= self.c
        if self.mode == 'floor' or m > 0:
            return self.x >= m
        return self.x > m - 1

    def cmp(self, pred, m):
        if pred == 'ge':
            return self.ge(m)
        if pred == 'gt':
            return self.ge(m + 1)
        if pred == 'lt':
            return z3.Not(self.ge(m))
        if pred == 'le':
            return z3.Not(self.ge(m + 1))
        e = z3.And(self.ge(m), z3.Not(self.ge(m + 1)))
        return e if pred == 'eq' else z3.Not(e)


class EngineError(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, why, kind='end', cond=None):
        Exception.__init__(self, why)
        self.why = why
        self.kind = kind
        self.cond = cond


class Bug(Exception):
    """definite misbehaviour on the current path"""

    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg


class Refork(Exception):
    pass


def is_sym(x):
    return isinstance(x, z3.ExprRef)


class Obj:
    __slots__ = ('rid', 'size', 'cells', 'kind', 'freed', 'owner', 'name',
                 'const')

    def __init__(self, rid, size, kind, owner, name=''):
        self.rid = rid
        self.size = size
        self.cells = {}
        self.kind = kind
        self.freed = False
        self.owner = owner
        self.name = name
        self.const = False

    def copy(self, owner):
        o = Obj(self.rid, self.size, self.kind, owner, self.name)
        o.cells = dict(self.cells)
        o.freed = self.freed
        o.const = self.const
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'prev', 'allocas', 'call',
                 'va', 'code', 'onret')

    def __init__(self, fn):
        self.fn = fn
        self.blk = None
        self.ip = 0
        self.regs = {}
        self.prev = None
        self.allocas = []
        self.call = None
        self.va = None
        self.code = None
        self.onret = None

    def copy(self):
        f = Frame(self.fn)
        f.blk = self.blk
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.allocas = list(self.allocas)
        f.call = self.call
        f.va = self.va
        f.code = self.code
        f.onret = self.onret
        return f


class Thread:
    def __init__(self, tid):
        self.tid = tid
        self.frames = []
        self.exc = []         # stack of in-flight/caught exceptions
        self.status = 'run'   # run / blocked / done
        self.wait = None

    def copy(self):
        t = Thread(self.tid)
        t.frames = [f.copy() for f in self.frames]
        t.exc = list(self.exc)
        t.status = self.status
        t.wait = self.wait
        return t


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.id = State._n
        self.mem = {}
        self.threads = []
        self.cur = 0
        self.pc = []
        self.known = {}
        self.inputs = []       # (name, kind, term, lo, hi)
        self.names = {}
        self.model = None
        self.nsteps = 0
        self.next_rid = None
        self.flags = {'domain': 1}
        self.user = {}
        self.asserts = 0
        self.obs = []
        self.log = []

    @property
    def frames(self):
        return self.threads[self.cur].frames

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.threads = [t.copy() for t in self.threads]
        s.cur = self.cur
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.model = self.model
        s.nsteps = self.nsteps
        s.next_rid = self.next_rid
        s.flags = dict(self.flags)
        s.user = {k: (v.copy() if hasattr(v, 'copy') else v)
                  for k, v in self.user.items()}
        s.asserts = self.asserts
        s.obs = list(self.obs)
        s.log = list(self.log)
        # ownership of objects moves to neither
        State._n += 1
        self.id = State._n
        return s


class Obligation:
    __slots__ = ('oid', 'pc', 'neg', 'inputs', 'where', 'kind', 'loose',
                 'status', 'model', 'path')

    def __init__(self, oid, pc, neg, inputs, where, kind, loose=None):
        self.oid = oid
        self.pc = pc
        self.neg = neg
        self.inputs = inputs
        self.where = where
        self.kind = kind
        self.loose = loose
        self.status = None
        self.model = None
        self.path = 0


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = dict(max_paths=400, max_steps=40_000_000, feas_ms=2000,
                      time=600, max_conc=64, div0='assume', unwind=10_000_000)
        if opts:
            self.o.update(opts)
        self.T = Terms()
        self.regions = {}       # rid -> template object (global) / function
        self.gaddr = {}
        self.faddr = {}
        self.rid_fn = {}
        self.next_rid = 0x1000
        self.gmem = {}          # lazily initialised globals: rid -> Obj
        self.stubs = {}
        self.stub_prefix = []
        self.obls = []
        self.stats = dict(paths=0, steps=0, forks=0, feas=0, feas_t=0.0,
                          feas_unknown=0, nf_proved=0, const_true=0,
                          assumed_domain=0, asserts=0)
        self.work = []
        self.covers = {}
        self.executed = set()
        self.assumed = set()
        self.ends = []
        self.solver = z3.Solver()
        self.decl_cache = {}
        self.reach_cache = {}
        self.t0 = time.time()
        self.lincache = {}
        self.cur_state = None
        self.domcount = {}
        self.ops = {k[3:]: getattr(self, k) for k in dir(self)
                    if k.startswith('op_')}
        import stubs
        stubs.install(self)

    # ------------------------------------------------------------ globals
    def addr_of(self, name):
        name = self.m.aliases.get(name, name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        rid = self.next_rid
        self.next_rid += 1
        if name in self.m.funcs:
            self.rid_fn[rid] = name
            a = rid << 32
            self.gaddr[name] = a
            return a
        a = rid << 32
        self.gaddr[name] = a
        if name not in self.m.globals_src:
            raise EngineError('unknown global ' + name)
        ty, init, const = self.m.parse_global(name)
        ext = init is None
        try:
            size = layout(ty)
        except ParseError:
            size = 0
        if ext:
            size = max(size, 512)
        o = Obj(rid, size, 'global', 0, name)
        self.gmem[rid] = o
        if init is not None:
            self.init_obj(o, 0, ty, init)
            o.const = const
        else:
            v = self.external_global(name)
            for off in range(0, size, 8):
                o.cells[off] = (8, v)
            if name in ('@_ZSt4cout', '@_ZSt4cerr', '@_ZSt4clog',
                        '@_ZSt3cin'):
                self.fake_stream(o)
        return a

    def fake_stream(self, o):
        # enough of an ostream for the inlined std::endl to run
        rid = self.next_rid
        self.next_rid += 2
        vt = Obj(rid, 512, 'global', 0, 'fake vtable')
        ct = Obj(rid + 1, 1024, 'global', 0, 'fake ctype')
        for x in (vt, ct):
            for off in range(0, x.size, 8):
                x.cells[off] = (8, 0)
            self.gmem[x.rid] = x
        for b in range(8):
            ct.cells[56 + b] = (1, 1 if b == 0 else 0)
        o.cells[0] = (8, (rid << 32) + 64)
        o.cells[240] = (8, (rid + 1) << 32)

    def external_global(self, name):
        if name == '@__libc_single_threaded':
            return 0x0101010101010101
        return 0

    def init_obj(self, o, off, ty, c):
        if isinstance(c, Bytes):
            b = c.b
            i = 0
            n = len(b)
            for i in range(n):
                o.cells[off + i] = (1, b[i])
            return
        if isinstance(c, Zero):
            n = layout(ty)
            i = 0
            while i < n:
                s = 8 if n - i >= 8 and (off + i) % 8 == 0 else (
                    4 if n - i >= 4 and (off + i) % 4 == 0 else 1)
                o.cells[off + i] = (s, 0)
                i += s
            return
        if isinstance(c, Undef):
            return
        if isinstance(c, Agg):
            layout(ty)
            if ty.k in ('arr', 'vec'):
                e = ty.a[1]
                layout(e)
                for i, x in enumerate(c.elems):
                    self.init_obj(o, off + i * e.size, e, x)
            else:
                for i, x in enumerate(c.elems):
                    self.init_obj(o, off + ty.offs[i], ty.a[0][i], x)
            return
        v = self.cval(c, ty)
        o.cells[off] = (layout(ty), v)

    def cval(self, c, ty=None):
        """runtime value of constant"""
        if isinstance(c, Const):
            return c.v
        if isinstance(c, GlobRef):
            return self.addr_of(c.name) + c.off
        if isinstance(c, Undef):
            return self.undef_of(c.ty)
        if isinstance(c, Zero):
            return self.zero_of(c.ty)
        if isinstance(c, Agg):
            if c.ty.k in ('arr', 'vec'):
                return [self.cval(e) for e in c.elems]
            return [self.cval(e) for e in c.elems]
        if isinstance(c, CExpr):
            op = c.op
            if op == 'gep':
                bt, base, idx = c.args
                return self.gep_const(bt, self.cval(base),
                                      [(t, self.cval(v)) for t, v in idx])
            if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.cval(c.args[1])
            if op in ('trunc', 'zext'):
                return self.cval(c.args[1]) & ((1 << c.args[2].a) - 1)
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                t, a, b = c.args
                a = self.cval(a)
                b = self.cval(b)
                m = (1 << t.a) - 1
                return {'add': a + b, 'sub': a - b, 'mul': a * b,
                        'and': a & b, 'or': a | b, 'xor': a ^ b}[op] & m
            if op == 'icmp':
                pred, t, a, b = c.args
                return int(self.icmp_c(pred, self.cval(a), self.cval(b), 64))
        raise EngineError('const %r' % (c,))

    def zero_of(self, ty):
        if ty.k == 'int' or ty.k == 'ptr':
            return 0
        if ty.k in ('double', 'float', 'fp80'):
            return Fraction(0)
        if ty.k == 'struct':
            return [self.zero_of(e) for e in ty.a[0]]
        if ty.k in ('arr', 'vec'):
            return [self.zero_of(ty.a[1]) for _ in range(ty.a[0])]
        raise EngineError('zero_of %r' % ty)

    def undef_of(self, ty):
        if ty.k == 'struct':
            return [self.undef_of(e) for e in ty.a[0]]
        if ty.k in ('arr', 'vec'):
            return [self.undef_of(ty.a[1]) for _ in range(ty.a[0])]
        return UNDEF

    def gep_const(self, bt, base, idx):
        off = 0
        ty = bt
        for n, (it, v) in enumerate(idx):
            if it.k == 'int' and v >= 1 << (it.a - 1):
                v -= 1 << it.a
            if n == 0:
                layout(ty)
                off += v * ty.size
            elif ty.k == 'struct':
                layout(ty)
                off += ty.offs[v]
                ty = ty.a[0][v]
            else:
                ty = ty.a[1]
                layout(ty)
                off += v * ty.size
        return (base + off) & 0xffffffffffffffff

    # ------------------------------------------------------------ function load
    def load_fn(self, f):
        self.m.parse_func(f)
        if f.entry is None:
            return
        if getattr(f, 'ready', False):
            return
        for lab, blk in f.blocks.items():
            for ins in blk:
                self.resolve_inst(ins)
                ins.fn = self.ops.get(ins.op)
                if ins.fn is None:
                    raise EngineError('no handler for ' + ins.op)
        f.ready = True
        self.executed.add(f.name)

    def rz(self, v, ty=None):
        if v.__class__ is str or v.__class__ is Const:
            return v
        try:
            return Const(self.cval(v, ty))
        except EngineError as e:
            # a constant we cannot model: fail only if it is used
            return Const(UNDEF)

    def resolve_inst(self, ins):
        op = ins.op
        if op == 'phi':
            ins.a = {k: self.rz(v) for k, v in ins.a.items()}
            return
        if op == 'call':
            if isinstance(ins.a, GlobRef):
                nm = self.m.aliases.get(ins.a.name, ins.a.name)
                ins.a = GlobRef(nm)
            ins.b = [(t, self.rz(v)) for t, v in ins.b]
            return
        if op == 'landingpad':
            ins.a = [(k, None if v is None else self.rz(v))
                     for k, v in ins.a]
            return
        if op == 'gep':
            bt = ins.ty
            ins.a = self.rz(ins.a)
            # precompute steps: (const offset, [(value, scale, width)])
            off = 0
            steps = []
            ty = bt
            for n, (it, v) in enumerate(ins.b):
                v = self.rz(v)
                if n == 0:
                    scale = layout(ty)
                elif ty.k == 'struct':
                    layout(ty)
                    off += ty.offs[v.v]
                    ty = ty.a[0][v.v]
                    continue
                else:
                    ty = ty.a[1]
                    scale = layout(ty)
                if v.__class__ is Const and v.v is not UNDEF:
                    x = v.v
                    if x >= 1 << (it.a - 1):
                        x -= 1 << it.a
                    off += x * scale
                else:
                    steps.append((v, scale, it.a))
            ins.b = off
            ins.c = steps
            return
        if op in ('jmp', 'unreachable', 'nop'):
            return
        if op == 'br':
            ins.a = self.rz(ins.a)
            return
        if op == 'switch':
            ins.a = self.rz(ins.a)
            return
        if op in ('extractvalue',):
            ins.a = self.rz(ins.a)
            return
        if op == 'insertvalue':
            ins.a = self.rz(ins.a)
            ins.b = self.rz(ins.b)
            return
        for s in ('a', 'b', 'c'):
            v = getattr(ins, s)
            if v is not None and not isinstance(
                    v, (str, Const, list, tuple, dict, irparse.Ty, int)):
                setattr(ins, s, self.rz(v))

    # ------------------------------------------------------------ memory
    def getobj(self, st, addr, why='access'):
        rid = addr >> 32
        o = st.mem.get(rid)
        if o is None:
            o = self.gmem.get(rid)
            if o is None:
                raise Bug('memory', '%s through invalid pointer 0x%x'
                          % (why, addr))
        if o.freed:
            raise Bug('memory', '%s of freed %s object (%s)'
                      % (why, o.kind, o.name))
        return o

    def wobj(self, st, addr):
        o = self.getobj(st, addr, 'write')
        if o.owner != st.id or o.kind == 'global' and o.rid not in st.mem:
            o = o.copy(st.id)
            st.mem[o.rid] = o
        return o

    def alloc(self, st, size, kind, name=''):
        rid = st.next_rid
        st.next_rid += 1
        o = Obj(rid, size, kind, st.id, name)
        st.mem[rid] = o
        return rid << 32

    def free(self, st, addr, why='free'):
        if addr == 0:
            return
        o = self.getobj(st, addr, why)
        if addr & 0xffffffff:
            raise Bug('memory', why + ' of interior pointer')
        if o.kind != 'heap':
            raise Bug('memory', why + ' of non-heap object ' + o.name)
        o = self.wobj(st, addr)
        o.freed = True
        o.cells = {}

    def load(self, st, addr, ty):
        k = ty.k
        if k in ('struct', 'arr', 'vec'):
            layout(ty)
            if k == 'struct':
                return [self.load(st, addr + ty.offs[i], e)
                        for i, e in enumerate(ty.a[0])]
            n, e = ty.a
            layout(e)
            return [self.load(st, addr + i * e.size, e) for i in range(n)]
        size = ty.size
        o = st.mem.get(addr >> 32)
        off = addr & 0xffffffff
        if o is None or o.freed:
            o = self.getobj(st, addr, 'read')
        if off + size > o.size:
            raise Bug('memory', 'read of %d bytes at offset %d of %d-byte %s '
                      'object %s' % (size, off if off < 1 << 31 else
                                     off - (1 << 32), o.size, o.kind, o.name))
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
        else:
            v = self.load_slow(o, off, size)
        return self.retype(v, ty)

    def retype(self, v, ty):
        k = ty.k
        if k == 'double':
            if v.__class__ is Fraction or v.__class__ is float:
                return v
            if v.__class__ is int:
                return dbl(v)
            if v.__class__ is FBits:
                return v.v
            if v is UNDEF:
                return v
            if isinstance(v, z3.ArithRef):
                return v
            raise EngineError('load double from symbolic bits %r' % v)
        if k == 'int':
            if v.__class__ is int:
                return v & ((1 << ty.a) - 1)
            if v is UNDEF or v.__class__ is FBits or v.__class__ is RInt:
                return v
            if v.__class__ is Fraction or v.__class__ is float:
                return FBits(v)
            if isinstance(v, z3.ArithRef):
                return FBits(v)
            if ty.a == 1:
                if isinstance(v, z3.BoolRef):
                    return v
                return z3.Extract(0, 0, v) == 1
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal(1, ty.a), z3.BitVecVal(0, ty.a))
            if v.size() != ty.a:
                v = z3.Extract(ty.a - 1, 0, v)
            return v
        if k == 'ptr':
            return v
        if k == 'float':
            if v.__class__ is int:
                import struct
                return recon(struct.unpack('<f', struct.pack('<I', v))[0])
            return v
        if k == 'fp80':
            return v
        raise EngineError('retype %r' % ty)

    def load_slow(self, o, off, size):
        cells = o.cells
        # inside one larger cell?
        for back in range(0, 16):
            c = cells.get(off - back)
            if c is not None:
                if back + size <= c[0]:
                    return self.slice(c[1], c[0], back, size)
                break
        # gather bytes
        parts = []
        p = off
        end = off + size
        while p < end:
            c = cells.get(p)
            if c is None:
                # maybe inside a cell starting earlier
                hit = None
                for back in range(1, 16):
                    c2 = cells.get(p - back)
                    if c2 is not None:
                        if back < c2[0]:
                            hit = (c2, back)
                        break
                if hit is None:
                    return UNDEF
                c2, back = hit
                n = min(c2[0] - back, end - p)
                parts.append((self.slice(c2[1], c2[0], back, n), n))
                p += n
            else:
                n = min(c[0], end - p)
                parts.append((self.slice(c[1], c[0], 0, n), n))
                p += n
        if all(v.__class__ is int for v, _ in parts):
            r = 0
            sh = 0
            for v, n in parts:
                r |= v << sh
                sh += 8 * n
            return r
        if any(v is UNDEF for v, _ in parts):
            return UNDEF
        if any(v.__class__ is FBits for v, _ in parts):
            # halves of one double reassembled
            f = parts[0][0]
            if f.__class__ is FBits and f.lo == 0:
                pos = 0
                for v, n in parts:
                    if v.__class__ is not FBits or v.v is not f.v or \
                            v.lo != pos:
                        raise EngineError('mixed double bits')
                    pos += n
                return FBits(f.v) if pos == 8 else FBits(f.v, 0, pos)
            raise EngineError('mixed double bits')
        out = None
        for v, n in reversed(parts):
            if v.__class__ is int:
                v = z3.BitVecVal(v, 8 * n)
            elif isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
            elif not isinstance(v, z3.BitVecRef):
                raise EngineError('gather %r' % v)
            out = v if out is None else z3.Concat(out, v)
        return out

    def slice(self, v, cs, off, n):
        if off == 0 and n == cs:
            return v
        if v.__class__ is RInt:
            raise EngineError('part of a symbolic integer')
        if v is UNDEF:
            return v
        if v.__class__ is int:
            return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
        if v.__class__ is Fraction or v.__class__ is float or \
                isinstance(v, z3.ArithRef):
            return FBits(v, off, n)
        if v.__class__ is FBits:
            return FBits(v.v, v.lo + off, n)
        if isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.BitVecVal(1, 8 * cs), z3.BitVecVal(0, 8 * cs))
        if v.size() < 8 * cs:
            v = z3.ZeroExt(8 * cs - v.size(), v)
        return z3.Extract(8 * (off + n) - 1, 8 * off, v)

    def store(self, st, addr, ty, v):
        k = ty.k
        if k in ('struct', 'arr', 'vec'):
            layout(ty)
            if k == 'struct':
                for i, e in enumerate(ty.a[0]):
                    self.store(st, addr + ty.offs[i], e, v[i])
            else:
                n, e = ty.a
                layout(e)
                for i in range(n):
                    self.store(st, addr + i * e.size, e, v[i])
            return
        self.store_raw(st, addr, ty.size, v)

    def store_raw(self, st, addr, size, v):
        o = st.mem.get(addr >> 32)
        if o is None or o.freed or o.owner != st.id:
            o = self.wobj(st, addr)
        off = addr & 0xffffffff
        if off + size > o.size:
            raise Bug('memory', 'write of %d bytes at offset %d of %d-byte %s '
                      'object %s' % (size, off if off < 1 << 31 else
                                     off - (1 << 32), o.size, o.kind, o.name))
        if o.const:
            raise Bug('memory', 'write to constant ' + o.name)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.clear(o, off, size)
        if v is not UNDEF:
            cells[off] = (size, v)

    def clear(self, o, off, size):
        cells = o.cells
        # cell beginning before off and overlapping
        for back in range(1, 16):
            p = off - back
            c = cells.get(p)
            if c is not None:
                if c[0] > back:
                    del cells[p]
                    cells[p] = (back, self.slice(c[1], c[0], 0, back))
                    if c[0] > back + size:
                        rest = c[0] - back - size
                        cells[off + size] = (rest, self.slice(
                            c[1], c[0], back + size, rest))
                break
        if size > 2 * len(cells) + 64:
            for p in [p for p in cells if off <= p < off + size]:
                c = cells.pop(p)
                if p + c[0] > off + size:
                    keep = p + c[0] - (off + size)
                    cells[off + size] = (keep, self.slice(
                        c[1], c[0], c[0] - keep, keep))
            return
        p = off
        end = off + size
        while p < end:
            c = cells.get(p)
            if c is not None:
                del cells[p]
                if p + c[0] > end:
                    keep = p + c[0] - end
                    cells[end] = (keep, self.slice(c[1], c[0],
                                                   c[0] - keep, keep))
            p += 1

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        so = self.getobj(st, src, 'memcpy read')
        soff = src & 0xffffffff
        if soff + n > so.size:
            raise Bug('memory', 'memcpy read of %d bytes at offset %d of '
                      '%d-byte %s object %s' % (n, soff, so.size, so.kind,
                                                so.name))
        items = []
        if n <= 4 * len(so.cells) + 64:
            p = soff
            end = soff + n
            # partial leading cell
            if p not in so.cells:
                for back in range(1, 16):
                    c = so.cells.get(p - back)
                    if c is not None:
                        if c[0] > back:
                            m = min(c[0] - back, n)
                            items.append((0, m, self.slice(c[1], c[0], back,
                                                           m)))
                        break
            while p < end:
                c = so.cells.get(p)
                if c is None:
                    p += 1
                    continue
                m = min(c[0], end - p)
                items.append((p - soff, m, self.slice(c[1], c[0], 0, m)))
                p += m
        else:
            for p, c in so.cells.items():
                if p >= soff and p + c[0] <= soff + n:
                    items.append((p - soff, c[0], c[1]))
                elif p < soff + n and p + c[0] > soff:
                    raise EngineError('partial memcpy')
        do = self.wobj(st, dst)
        doff = dst & 0xffffffff
        if doff + n > do.size:
            raise Bug('memory', 'memcpy write of %d bytes at offset %d of '
                      '%d-byte %s object %s' % (n, doff, do.size, do.kind,
                                                do.name))
        self.clear(do, doff, n)
        for p, m, v in items:
            if v is not UNDEF:
                do.cells[doff + p] = (m, v)

    def memset(self, st, dst, val, n):
        if n == 0:
            return
        o = self.wobj(st, dst)
        off = dst & 0xffffffff
        if off + n > o.size:
            raise Bug('memory', 'memset of %d bytes at offset %d of %d-byte %s'
                      % (n, off, o.size, o.kind))
        self.clear(o, off, n)
        if val.__class__ is not int:
            raise EngineError('symbolic memset')
        p = 0
        while p < n:
            s = 8 if n - p >= 8 and (off + p) % 8 == 0 else (
                4 if n - p >= 4 and (off + p) % 4 == 0 else 1)
            o.cells[off + p] = (s, int.from_bytes(bytes([val & 255]) * s,
                                                  'little'))
            p += s

    def cstr(self, st, addr):
        out = bytearray()
        while True:
            b = self.load(st, addr, irparse.IntTy(8))
            if b.__class__ is not int:
                return None
            if b == 0:
                return out.decode('latin1')
            out.append(b)
            addr += 1

    # ------------------------------------------------------------ solver
    def vars_of(self, t):
        """names of uninterpreted constants in t (memoised by term id)"""
        i = t.get_id()
        r = self.decl_cache.get(i)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        stack = [t]
        while stack:
            u = stack.pop()
            ui = u.get_id()
            if ui in seen:
                continue
            seen.add(ui)
            if z3.is_const(u):
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(u.decl().name())
            else:
                stack.extend(u.children())
        self.decl_cache[i] = (t, out)
        return out

    def axioms_for(self, cs):
        need = set()
        work = []
        for c in cs:
            work.extend(self.vars_of(c))
        out = []
        seenax = set()
        while work:
            n = work.pop()
            if n in need:
                continue
            need.add(n)
            for ax in self.T.axioms.get(n, ()):
                if ax.get_id() in seenax:
                    continue
                seenax.add(ax.get_id())
                out.append(ax)
                work.extend(self.vars_of(ax))
        return out

    def slice_pc(self, pc, cs):
        """constraints of pc sharing variables (transitively) with cs"""
        vs = set()
        for c in cs:
            vs |= self.vars_of(c)
        for ax in self.axioms_for(cs):
            vs |= self.vars_of(ax)
        rest = [(c, self.reach_of(c)) for c in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c, v in rest:
                if not v or not v.isdisjoint(vs):
                    out.append(c)
                    if not v <= vs:
                        vs |= v
                        ch = True
                else:
                    nr.append((c, v))
            rest = nr
        return out

    def near_pc(self, pc, cs):
        """constraints of pc that speak only of the variables of cs"""
        vs = set()
        for c in cs:
            vs |= self.vars_of(c)
        for ax in self.axioms_for(cs):
            vs |= self.vars_of(ax)
        return [c for c in pc if self.vars_of(c) <= vs]

    def reach_of(self, c):
        """variables of c and of the axioms of its function applications"""
        base = self.vars_of(c)
        if not any('!' in n for n in base):
            return base
        i = c.get_id()
        key = (len(self.T.axioms), self.T.axver)
        r = self.reach_cache.get(i)
        if r is not None and r[1] == key:
            return r[2]
        vs = set(base)
        for ax in self.axioms_for([c]):
            vs |= self.vars_of(ax)
        self.reach_cache[i] = (c, key, vs)
        return vs

    def feasible(self, st, extra, ms=None):
        """(sat?, model or None); unknown counts as feasible"""
        self.stats['feas'] += 1
        t0 = time.time()
        cs = self.slice_pc(st.pc, [extra]) + [extra]
        near = self.near_pc(st.pc, [extra]) + [extra]
        if len(near) < len(cs):
            s = z3.Solver()
            s.set('timeout', 300)
            for c in near:
                s.add(c)
            for a in self.axioms_for(near):
                s.add(a)
            if s.check() == z3.unsat:
                self.stats['feas_t'] += time.time() - t0
                return False, None
        s = z3.Solver()
        s.set('timeout', ms or self.o['feas_ms'])
        for c in cs:
            s.add(c)
        for a in self.axioms_for(cs):
            s.add(a)
        r = s.check()
        self.stats['feas_t'] += time.time() - t0
        if r == z3.unsat:
            return False, None
        if r == z3.unknown:
            self.stats['feas_unknown'] += 1
            return True, None
        return True, None

    def decide(self, st, cond):
        """truth of z3 Bool `cond` on this path; forks when both possible"""
        if cond is True or cond is False:
            return cond
        if cond.__class__ is int:
            return bool(cond)
        i = cond.get_id()
        k = st.known.get(i)
        if k is not None:
            return k[0]
        sc = z3.simplify(cond)
        if z3.is_true(sc):
            return True
        if z3.is_false(sc):
            return False
        nt = self.nf_decide(sc)
        if nt is None:
            nt = self.nf_bound(st, sc)
        if nt is not None:
            st.known[i] = (nt, cond)
            return nt
        j = sc.get_id()
        k = st.known.get(j)
        if k is not None:
            return k[0]
        ft, _ = self.feasible(st, sc)
        if ft:
            ff, _ = self.feasible(st, z3.Not(sc))
        else:
            ff = True
        if ft and ff:
            self.stats['forks'] += 1
            other = st.copy()
            f = other.frames[-1]
            f.ip -= 1
            nc = z3.Not(sc)
            other.pc.append(nc)
            other.known[i] = (False, cond)
            other.known[j] = (False, sc)
            self.work.append(other)
            st.pc.append(sc)
            st.known[i] = (True, cond)
            st.known[j] = (True, sc)
            return True
        st.known[i] = (ft, cond)
        st.known[j] = (ft, sc)
        return ft

    def implied(self, st, cond):
        """truth of `cond` when the path condition settles it, else None"""
        if cond.__class__ in (bool, int):
            return bool(cond)
        i = cond.get_id()
        k = st.known.get(i)
        if k is not None:
            return k[0]
        sc = z3.simplify(cond)
        if z3.is_true(sc):
            return True
        if z3.is_false(sc):
            return False
        nt = self.nf_decide(sc)
        if nt is None:
            nt = self.nf_bound(st, sc)
        if nt is None:
            if not self.feasible(st, sc, 250)[0]:
                nt = False
            elif not self.feasible(st, z3.Not(sc), 250)[0]:
                nt = True
            else:
                return None
        st.known[i] = (nt, cond)
        return nt

    def lin_key(self, c):
        """c as (key, sign, lo, strict): sign*(key + const) >= 0"""
        i = c.get_id()
        r = self.lincache.get(i)
        if r is not None:
            return r[0]
        r = None
        k = c.decl().kind()
        neg = False
        a = c
        while k == z3.Z3_OP_NOT:
            a = a.arg(0)
            k = a.decl().kind()
            neg = not neg
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and \
                a.arg(0).sort() == z3.RealSort():
            try:
                p, d = self.T.norm(a.arg(0) - a.arg(1))
            except Exception:
                p = d = None
            if p and not d:
                ge = k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
                strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
                if neg:
                    ge = not ge
                    strict = not strict
                c0 = p.get((), Fraction(0))
                q = {m: v for m, v in p.items() if m}
                if q:
                    lead = q[max(q)]
                    q = {m: v / lead for m, v in q.items()}
                    c0 = c0 / lead
                    if lead < 0:
                        ge = not ge
                    r = (frozenset(q.items()), ge, c0, strict)
        self.lincache[i] = (r, c)
        return r

    def nf_bound(self, st, c):
        """decide an inequality from one literal of the path condition on the
        same polynomial"""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.nf_bound(st, c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            short = k == z3.Z3_OP_OR
            rs = [self.nf_bound(st, c.arg(n)) for n in range(c.num_args())]
            if short in rs:
                return short
            return None if None in rs else not short
        t = self.lin_key(c)
        if t is None:
            return self.nf_decide(c)
        key, ge, c0, strict = t
        pcs = []
        for l in st.pc:
            if z3.is_and(l):
                pcs.extend(l.children())
            else:
                pcs.append(l)
        for l in pcs:
            u = self.lin_key(l)
            if u is None or u[0] != key:
                continue
            _, ge2, d0, strict2 = u
            # literal: key >= -d0 (ge2) or key <= -d0; query: key >= -c0 ...
            if ge2 == ge:
                if ge and (-d0 > -c0 or d0 == c0 and (strict2 or not strict)):
                    return True
                if not ge and (-d0 < -c0 or
                               d0 == c0 and (strict2 or not strict)):
                    return True
            else:
                # query true excludes literal?
                if ge and (-d0 < -c0 or d0 == c0 and (strict or strict2)):
                    return False
                if not ge and (-d0 > -c0 or d0 == c0 and (strict or strict2)):
                    return False
        return None

    def nf_decide(self, c):
        """decide (in)equalities whose two sides normalise to constants"""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.nf_decide(c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                 z3.Z3_OP_EQ) and z3.is_arith(c.arg(0)) and \
                c.arg(0).sort() == z3.RealSort():
            try:
                d = self.T.simp(c.arg(0) - c.arg(1))
            except Exception:
                return None
            if d.__class__ is Fraction:
                return {z3.Z3_OP_LE: d <= 0, z3.Z3_OP_GE: d >= 0,
                        z3.Z3_OP_LT: d < 0, z3.Z3_OP_GT: d > 0,
                        z3.Z3_OP_EQ: d == 0}[k]
        return None

    def assume(self, st, cond):
        if cond is True or cond.__class__ is int and cond:
            return
        if cond is False or cond.__class__ is int:
            raise PathEnd('assumption false', 'infeasible')
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd('assumption false', 'infeasible')
        ok, _ = self.feasible(st, c)
        if not ok:
            raise PathEnd('assumption infeasible', 'infeasible')
        st.pc.append(c)

    def domain(self, st, cond, what):
        """side condition of a real operation (x>=0 for sqrt, y!=0 for /)"""
        c = z3.simplify(cond)
        if z3.is_true(c) or self.nf_decide(c) is True:
            return
        if c.get_id() in st.known:
            return
        if st.flags['domain'] == 2:
            # assumed without a query: witnesses show it is satisfiable
            self.stats['assumed_domain'] += 1
            self.assumed.add(what)
            st.known[c.get_id()] = (True, c)
            st.pc.append(c)
            return
        bad, _ = self.feasible(st, z3.Not(c))
        if not bad:
            st.known[c.get_id()] = (True, c)
            return
        if st.flags['domain'] == 1:
            key = (what, tuple(self.where(st)))
            n = self.domcount.get(key, 0)
            self.domcount[key] = n + 1
            if n < 4:
                self.add_obl(st, 'domain:' + what, z3.Not(c), 'domain')
        self.stats['assumed_domain'] += 1
        self.assumed.add(what)
        ok, _ = self.feasible(st, c)
        if not ok:
            raise PathEnd('domain violated: ' + what, 'domain')
        st.known[c.get_id()] = (True, c)
        st.pc.append(c)

    def concretize(self, st, v, what='index', width=64):
        if v.__class__ is int:
            return v
        if v is UNDEF:
            raise Bug('memory', 'use of uninitialised value as ' + what)
        if v.__class__ is RInt:
            return self.conc_rint(st, v, width)
        n = 0
        while True:
            n += 1
            if n > self.o['max_conc']:
                raise EngineError('too many values for ' + what)
            cs = self.slice_pc(st.pc, [v == v + 1])
            s = z3.Solver()
            s.set('timeout', 5000)
            for c in cs:
                s.add(c)
            for a in self.axioms_for(cs):
                s.add(a)
            w = z3.BitVec('conc!', v.size())
            s.add(w == v)
            if s.check() != z3.sat:
                raise EngineError('concretize: no model for ' + what)
            m = s.model()[w].as_long()
            if self.decide(st, v == z3.BitVecVal(m, v.size())):
                return m

    def real_to_int(self, st, x, signed, width, what='fptoint'):
        """C truncation of a real to an integer (concretised by forking)"""
        if x is UNDEF:
            x = self.fresh_real(st, 'uninit')
        if x.__class__ is float:
            if st.flags['domain'] == 1:
                raise Bug('ub', 'conversion of %r to integer' % x)
            return self.fresh_int(st, width)
        if x.__class__ is Fraction:
            v = int(x)   # truncation toward zero
            lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed \
                else (0, (1 << width) - 1)
            if not lo <= v <= hi:
                raise Bug('ub', 'real %s out of range in conversion to '
                          'integer' % float(x))
            return v & ((1 << width) - 1)
        x2 = self.T.simp(x)
        if x2.__class__ is Fraction:
            return self.real_to_int(st, x2, signed, width)
        y, mode = x2, 'trunc'
        if x2.decl().kind() == z3.Z3_OP_TO_REAL:
            f = self.T.intdef.get(x2.arg(0).get_id())
            if f is not None and f[0] == 'floor':
                y, mode = f[1], 'floor'
        r = RInt(y, mode, 0)
        big = Fraction(1 << (width - 1 if signed else width))
        lowest = -(1 << (width - 1)) if signed else 0
        for bad, c in (('too large', y >= rv(big)),
                       ('negative' if not signed else 'too small',
                        z3.Not(r.ge(lowest)))):
            if c.get_id() in st.known:
                continue
            ok, _ = self.feasible(st, c)
            if ok:
                self.add_obl(st, 'domain:%s real converted to integer' % bad,
                             c, 'domain')
                ok, _ = self.feasible(st, z3.Not(c))
                if not ok:
                    raise PathEnd('conversion out of range', 'domain')
                st.pc.append(z3.Not(c))
            st.known[c.get_id()] = (False, c)
        return r

    def conc_rint(self, st, r, width=64):
        """concrete value of an RInt (forks)"""
        n = 0
        x = r.x
        ax = self.axioms_for([x == 0])
        while True:
            n += 1
            if n > self.o['max_conc']:
                raise EngineError('too many values for real->int conversion')
            cs = self.slice_pc(st.pc, [x == 0])
            k = None
            for s in (z3.Solver(), z3.Then('simplify', 'purify-arith',
                                           'elim-term-ite', 'solve-eqs',
                                           'qfnra-nlsat').solver()):
                s.set('timeout', 8000)
                for c in cs:
                    s.add(c)
                w = z3.Real('conc!r')
                for c in self.axioms_for(cs + [x == 0]):
                    s.add(c)
                s.add(w == x)
                try:
                    q = s.check()
                except z3.Z3Exception:
                    continue
                if q == z3.unsat:
                    raise PathEnd('infeasible path', 'infeasible')
                if q == z3.sat:
                    mv = s.model().eval(w, model_completion=True)
                    if z3.is_algebraic_value(mv):
                        mv = mv.approx(20)
                    f = Fraction(mv.numerator_as_long(),
                                 mv.denominator_as_long())
                    k = math.floor(f) if r.mode == 'floor' else int(f)
                    break
            if k is None:
                # undecided: search outward over the small values
                for kk in range(0, 40):
                    c = r.cmp('eq', kk + r.c)
                    if c.get_id() not in st.known:
                        k = kk
                        break
                else:
                    raise EngineError('real->int: no model')
            k += r.c
            if self.decide(st, r.cmp('eq', k)):
                return k & ((1 << width) - 1)

    def fresh_real(self, st, base):
        return self.T.fresh(base)

    def fresh_int(self, st, w):
        if w == 1:
            return self.T.fresh('ubool', z3.BoolSort())
        return self.T.fresh('uint', z3.BitVecSort(w))

    # ------------------------------------------------------------ obligations
    def where(self, st):
        out = []
        for f in reversed(st.frames[-6:]):
            out.append(f.fn.name[1:])
        return out

    def add_obl(self, st, oid, neg, kind, loose=None):
        """neg: z3 Bool describing the violation"""
        self.stats['asserts'] += 1
        ob = Obligation(oid, list(st.pc), neg, list(st.inputs),
                        self.where(st), kind, loose)
        ob.path = self.stats['paths']
        self.obls.append(ob)

    def check_assert(self, st, cond, oid):
        self.covers[oid] = self.covers.get(oid, 0) + 1
        if cond.__class__ is int:
            if cond:
                self.stats['const_true'] += 1
                self.stats['asserts'] += 1
                return
            self.add_obl(st, oid, z3.BoolVal(True), 'assert')
            return
        if cond is UNDEF:
            cond = self.fresh_int(st, 1)
        c = z3.simplify(cond)
        if z3.is_true(c) or self.nf_decide(c) is True or \
                self.nf_bound(st, c) is True:
            self.stats['nf_proved'] += 1
            self.stats['asserts'] += 1
            return
        self.add_obl(st, oid, z3.Not(self.short(c)), 'assert')

    def short(self, c):
        """inequalities without avoidable divisions"""
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            return c.decl()(*[self.short(x) for x in c.children()])
        u = self.lin_key(c)
        if u is not None and len(u[0]) <= 3:
            key, ge, c0, strict = u
            p = tz(self.T.polyterm(dict(key)))
            b = rv(-c0)
            return (p > b if strict else p >= b) if ge else \
                (p < b if strict else p <= b)
        return c

    # ------------------------------------------------------------ run
    def run_entry(self, fname, args=()):
        st = State()
        st.next_rid = 1 << 24
        st.threads = [Thread(0)]
        f = self.m.funcs['@' + fname]
        self.init_state(st)
        self.push_call(st, f, list(args), None)
        self.work.append(st)
        self.loop()

    def init_state(self, st):
        if getattr(self, 'base_mem', None) is None:
            self.run_ctors(st)
        else:
            st.mem = dict(self.base_mem)
            st.next_rid = self.base_rid

    def run_ctors(self, st):
        g = self.m.globals_src.get('@llvm.global_ctors')
        if g:
            ty, init, _ = self.m.parse_global('@llvm.global_ctors')
            ents = []
            if isinstance(init, Agg):
                for e in init.elems:
                    ents.append((e.elems[0].v, e.elems[1].name))
            for _, nm in sorted(ents, key=lambda x: x[0]):
                f = self.m.funcs[nm]
                self.push_call(st, f, [], None)
                try:
                    self.run_state(st)
                except PathEnd as e:
                    if e.kind != 'end':
                        raise EngineError('ctor %s: %s' % (nm, e.why))
                st.threads = [Thread(0)]
        self.base_mem = dict(st.mem)
        self.base_rid = st.next_rid
        State._n += 1
        st.id = State._n

    def loop(self):
        while self.work:
            if self.stats['paths'] >= self.o['max_paths']:
                raise EngineError('path bound %d exceeded' %
                                  self.o['max_paths'])
            if time.time() - self.t0 > self.o['time']:
                raise EngineError('exploration time bound exceeded')
            st = self.work.pop()
            State._n += 1
            st.id = State._n
            self.cur_state = st
            try:
                self.run_state(st)
                raise PathEnd('returned')
            except PathEnd as e:
                if e.kind in ('end',):
                    self.stats['paths'] += 1
                    self.ends.append(('end', list(st.pc), list(st.inputs),
                                      list(st.obs)))
                elif e.kind == 'domain':
                    self.stats['paths'] += 1
                    self.ends.append(('domain', None, None, None))
                elif e.kind == 'infeasible':
                    pass
                else:
                    self.stats['paths'] += 1
            except Bug as b:
                self.stats['paths'] += 1
                self.add_obl(st, b.kind + ':' + b.msg, z3.BoolVal(True),
                             'bug')
                if b.kind == 'memory':
                    pass

    def run_state(self, st):
        steps = 0
        maxs = self.o['max_steps']
        threads = st.threads
        n0 = st.nsteps
        try:
            while True:
                frames = threads[st.cur].frames
                if not frames:
                    return
                fr = frames[-1]
                ins = fr.code[fr.ip]
                fr.ip += 1
                steps += 1
                ins.fn(st, fr, ins)
                if steps > maxs:
                    raise EngineError('step bound exceeded')
        finally:
            self.stats['steps'] += steps

    def push_call(self, st, f, args, call, onret=None):
        self.load_fn(f)
        fr = Frame(f)
        for (ty, nm, byval), a in zip(f.params, args):
            if byval is not None:
                n = layout(byval)
                p = self.alloc(st, n, 'stack', 'byval')
                self.memcpy(st, p, a, n)
                fr.allocas.append(p)
                a = p
            fr.regs[nm] = a
        if f.vararg:
            fr.va = args[len(f.params):]
        fr.blk = f.entry
        fr.code = f.blocks[f.entry]
        fr.call = call
        fr.onret = onret
        st.threads[st.cur].frames.append(fr)
        if len(st.threads[st.cur].frames) > 300:
            raise Bug('stack', 'unbounded recursion in ' + f.name)

    def goto(self, st, fr, label):
        fr.prev = fr.blk
        fr.blk = label
        code = fr.fn.blocks[label]
        fr.code = code
        ip = 0
        if code[0].op == 'phi':
            prev = fr.prev
            regs = fr.regs
            new = []
            for ins in code:
                if ins.op != 'phi':
                    break
                v = ins.a[prev]
                new.append((ins.dst, regs[v] if v.__class__ is str else v.v))
                ip += 1
            for d, v in new:
                regs[d] = v
        fr.ip = ip

    def ret_value(self, st, fr, v):
        """deliver the value of call instruction in frame fr"""
        call = fr.call
        st.frames.pop()
        for a in fr.allocas:
            o = st.mem.get(a >> 32)
            if o is not None:
                o = self.wobj(st, a)
                o.freed = True
                o.cells = {}
        if not st.frames:
            return
        if fr.onret is not None:
            fr.onret(st, v)
            return
        caller = st.frames[-1]
        if call is not None:
            self.finish_call(st, caller, call, v)

    def finish_call(self, st, fr, ins, v):
        if ins.dst is not None:
            fr.regs[ins.dst] = v
        if ins.x is not None and ins.op == 'call':
            self.goto(st, fr, ins.x[0])

    # ------------------------------------------------------------ unwinding
    def throw(self, st, obj, tinfo):
        th = st.threads[st.cur]
        frames = th.frames
        while frames:
            fr = frames[-1]
            if fr.onret is not None and fr is not frames[0]:
                # stop at engine-inserted boundary frames
                pass
            # instruction just executed in this frame
            ins = fr.code[fr.ip - 1] if fr.ip > 0 else None
            if ins is not None and ins.op == 'call' and ins.x is not None:
                lp = fr.fn.blocks[ins.x[1]]
                pad = None
                for i in lp:
                    if i.op == 'landingpad':
                        pad = i
                        break
                sel = self.match_pad(st, pad, tinfo)
                if sel is not None or pad.b:
                    self.goto(st, fr, ins.x[1])
                    th.exc.append((obj, tinfo))
                    st.user['pad'] = (obj, 0 if sel is None else sel)
                    return
            frames.pop()
            for a in fr.allocas:
                o = st.mem.get(a >> 32)
                if o is not None:
                    o = self.wobj(st, a)
                    o.freed = True
        nm = self.sym_of(tinfo)
        # frames are gone; report as a bug of this path
        th.frames = []
        raise Bug('exception', 'uncaught exception ' + nm)

    def sym_of(self, addr):
        for n, a in self.gaddr.items():
            if a == addr:
                return n
        return hex(addr)

    def match_pad(self, st, pad, tinfo):
        for k, v in pad.a:
            if k != 'catch':
                continue
            if v.v == 0:
                return self.typeid(0)
            if self.isbase(st, v.v, tinfo):
                return self.typeid(v.v)
        return None

    def typeid(self, addr):
        d = self.__dict__.setdefault('_tids', {})
        return d.setdefault(addr, len(d) + 1)

    STD_BASE = {
        '_ZTISt16invalid_argument': '_ZTISt11logic_error',
        '_ZTISt12out_of_range': '_ZTISt11logic_error',
        '_ZTISt12length_error': '_ZTISt11logic_error',
        '_ZTISt12domain_error': '_ZTISt11logic_error',
        '_ZTISt11logic_error': '_ZTISt9exception',
        '_ZTISt13runtime_error': '_ZTISt9exception',
        '_ZTISt11range_error': '_ZTISt13runtime_error',
        '_ZTISt9bad_alloc': '_ZTISt9exception',
        '_ZTISt8bad_cast': '_ZTISt9exception',
    }

    def isbase(self, st, base, derived):
        if base == derived:
            return True
        n = self.sym_of(derived)[1:]
        b = self.STD_BASE.get(n)
        if b is not None:
            return self.isbase(st, base, self.addr_of('@' + b)) \
                if '@' + b in self.m.globals_src else False
        for d, _ in self.ti_bases(st, derived):
            if self.isbase(st, base, d):
                return True
        return False

    def ti_bases(self, st, ti):
        """[(base typeinfo, offset)]"""
        o = self.gmem.get(ti >> 32)
        if o is None or o.name not in self.m.globals_src:
            return []
        ty, init, _ = self.m.parse_global(o.name)
        if init is None or not isinstance(init, Agg):
            return []
        n = len(init.elems)
        if n == 2:
            return []
        if n == 3:
            return [(self.cval(init.elems[2]), 0)]
        cnt = self.cval(init.elems[3])
        out = []
        for i in range(cnt):
            b = self.cval(init.elems[4 + 2 * i])
            fl = self.cval(init.elems[5 + 2 * i])
            if fl >= 1 << 63:
                fl -= 1 << 64
            out.append((b, (fl >> 8) if not (fl & 1) else None))
        return out

    # ------------------------------------------------------------ ops
    def op_nop(self, st, fr, ins):
        if ins.dst:
            fr.regs[ins.dst] = 0

    def op_landingpad(self, st, fr, ins):
        obj, sel = st.user['pad']
        fr.regs[ins.dst] = [obj, sel]

    def op_resume(self, st, fr, ins):
        v = self.V(fr, ins.a)
        th = st.threads[st.cur]
        obj, ti = th.exc.pop()
        # continue unwinding above this frame
        f = th.frames.pop()
        for a in f.allocas:
            o = st.mem.get(a >> 32)
            if o is not None:
                o = self.wobj(st, a)
                o.freed = True
        self.throw(st, obj, ti)

    def op_unreachable(self, st, fr, ins):
        raise Bug('ub', 'unreachable code reached in ' + fr.fn.name)

    def op_jmp(self, st, fr, ins):
        self.goto(st, fr, ins.a)

    def V(self, fr, x):
        return fr.regs[x] if x.__class__ is str else x.v

    def op_br(self, st, fr, ins):
        a = ins.a
        c = fr.regs[a] if a.__class__ is str else a.v
        if c.__class__ is not int:
            if c is UNDEF:
                c = self.fresh_int(st, 1)
                # fork both ways: reading an uninitialised value
                fr.regs[a] = c
            c = self.decide(st, c)
        self.goto(st, fr, ins.b if c else ins.c)

    def op_switch(self, st, fr, ins):
        v = self.V(fr, ins.a)
        if v.__class__ is not int:
            if v is UNDEF:
                raise Bug('memory', 'switch on uninitialised value')
            if v.__class__ is RInt:
                v = self.conc_rint(st, v, ins.ty.a)
                for cv, lab in ins.c:
                    if cv == v:
                        self.goto(st, fr, lab)
                        return
                self.goto(st, fr, ins.b)
                return
            for cv, lab in ins.c:
                if self.decide(st, v == z3.BitVecVal(cv, v.size())):
                    self.goto(st, fr, lab)
                    return
            self.goto(st, fr, ins.b)
            return
        for cv, lab in ins.c:
            if cv == v:
                self.goto(st, fr, lab)
                return
        self.goto(st, fr, ins.b)

    def op_ret(self, st, fr, ins):
        v = None
        if ins.a is not None:
            v = self.V(fr, ins.a)
        self.ret_value(st, fr, v)

    def op_phi(self, st, fr, ins):
        raise EngineError('phi')

    def op_alloca(self, st, fr, ins):
        n = self.V(fr, ins.a)
        if n.__class__ is not int:
            raise EngineError('symbolic alloca')
        a = self.alloc(st, layout(ins.ty) * n, 'stack', fr.fn.name)
        fr.allocas.append(a)
        fr.regs[ins.dst] = a

    def op_load(self, st, fr, ins):
        a = ins.a
        p = fr.regs[a] if a.__class__ is str else a.v
        if p.__class__ is not int:
            p = self.ptr(st, p)
        fr.regs[ins.dst] = self.load(st, p, ins.ty)

    def ptr(self, st, p):
        if p is UNDEF:
            raise Bug('memory', 'dereference of uninitialised pointer')
        if p.__class__ is FBits:
            raise Bug('memory', 'double used as pointer')
        return self.concretize(st, p, 'pointer')

    def ptr2(self, st, p):
        return p if p.__class__ is int else self.ptr(st, p)

    def op_store(self, st, fr, ins):
        p = self.V(fr, ins.b)
        if p.__class__ is not int:
            p = self.ptr(st, p)
        self.store(st, p, ins.ty, self.V(fr, ins.a))

    def op_gep(self, st, fr, ins):
        a = ins.a
        p = fr.regs[a] if a.__class__ is str else a.v
        off = ins.b
        if p.__class__ is not int:
            if p is UNDEF:
                fr.regs[ins.dst] = UNDEF
                return
            p = self.ptr(st, p)
        for v, scale, w in ins.c:
            x = fr.regs[v] if v.__class__ is str else v.v
            if x.__class__ is not int:
                if x is UNDEF:
                    raise Bug('memory', 'uninitialised value as index')
                x = self.concretize(st, x)
            if x >> (w - 1):
                x -= 1 << w
            off += x * scale
        fr.regs[ins.dst] = (p + off) & 0xffffffffffffffff

    def op_select(self, st, fr, ins):
        c = self.V(fr, ins.c)
        a = self.V(fr, ins.a)
        b = self.V(fr, ins.b)
        if c.__class__ is int:
            fr.regs[ins.dst] = a if c else b
            return
        if c.__class__ is list:
            raise EngineError('vector select')
        if c is UNDEF:
            c = self.fresh_int(st, 1)
        k = st.known.get(c.get_id())
        if k is not None:
            fr.regs[ins.dst] = a if k[0] else b
            return
        fr.regs[ins.dst] = self.sel(st, c, a, b, ins.ty)

    def sel(self, st, c, a, b, ty):
        if a is b:
            return a
        k = ty.k
        if k in ('double', 'float'):
            if a is UNDEF:
                a = self.fresh_real(st, 'uninit')
            if b is UNDEF:
                b = self.fresh_real(st, 'uninit')
            if a.__class__ is float or b.__class__ is float:
                return a if self.decide(st, c) else b
            if self.T.same(a, b):
                return a
            if self.o.get('forksel'):
                return a if self.decide(st, c) else b
            k = self.implied(st, c)
            if k is not None:
                return a if k else b
            return self.T.ite(c, a, b)
        if k == 'ptr' or k in ('struct', 'arr', 'vec'):
            if a.__class__ is int and a == b:
                return a
            return a if self.decide(st, c) else b
        if a.__class__ is int and b.__class__ is int and a == b:
            return a
        if a.__class__ in (FBits, RInt) or b.__class__ in (FBits, RInt):
            return a if self.decide(st, c) else b
        if ty.a == 1:
            return z3.If(c, self.tob(st, a), self.tob(st, b))
        # small integers used as indices: prefer forking to keep them concrete
        if a.__class__ is int and b.__class__ is int:
            return a if self.decide(st, c) else b
        return z3.If(c, self.tobv(st, a, ty.a), self.tobv(st, b, ty.a))

    def tob(self, st, a):
        if a.__class__ is int:
            return z3.BoolVal(bool(a))
        if a is UNDEF:
            return self.fresh_int(st, 1)
        return a

    def tobv(self, st, a, w):
        if a.__class__ is int:
            return z3.BitVecVal(a, w)
        if a is UNDEF:
            return self.fresh_int(st, w)
        if a.__class__ is FBits:
            raise EngineError('arithmetic on bits of a double')
        if a.__class__ is RInt:
            return z3.BitVecVal(self.conc_rint(st, a, w), w)
        return a

    def op_freeze(self, st, fr, ins):
        v = self.V(fr, ins.a)
        if v is UNDEF:
            if ins.ty.k == 'int':
                v = self.fresh_int(st, ins.ty.a)
            elif ins.ty.k == 'double':
                v = self.fresh_real(st, 'uninit')
        fr.regs[ins.dst] = v

    # integer arithmetic
    def binop(name, cf, sf, bf=None):
        def op(self, st, fr, ins):
            a = ins.a
            b = ins.b
            a = fr.regs[a] if a.__class__ is str else a.v
            b = fr.regs[b] if b.__class__ is str else b.v
            if a.__class__ is int and b.__class__ is int:
                fr.regs[ins.dst] = cf(a, b, ins.ty.a) & ((1 << ins.ty.a) - 1)
                return
            w = ins.ty
            if w.k == 'vec':
                w2 = w.a[1].a
                fr.regs[ins.dst] = [
                    (cf(x, y, w2) & ((1 << w2) - 1))
                    if x.__class__ is int and y.__class__ is int
                    else sf(self.tobv(st, x, w2), self.tobv(st, y, w2))
                    for x, y in zip(a, b)]
                return
            w = w.a
            if a.__class__ is RInt or b.__class__ is RInt:
                r = self.rint_op(st, name, a, b, w)
                if r is None:
                    a = self.concretize(st, a, 'int', w) \
                        if a.__class__ is RInt else a
                    b = self.concretize(st, b, 'int', w) \
                        if b.__class__ is RInt else b
                    if a.__class__ is int and b.__class__ is int:
                        r = cf(a, b, w) & ((1 << w) - 1)
                    else:
                        r = sf(self.tobv(st, a, w), self.tobv(st, b, w))
                fr.regs[ins.dst] = r
                return
            if w == 1 and bf is not None:
                fr.regs[ins.dst] = bf(self.tob(st, a), self.tob(st, b))
                return
            if a.__class__ is FBits or b.__class__ is FBits:
                fr.regs[ins.dst] = self.fbits_op(st, ins.op, a, b)
                return
            fr.regs[ins.dst] = sf(self.tobv(st, a, w), self.tobv(st, b, w))
        return op

    def rint_op(self, st, name, a, b, w):
        if name == 'add' and b.__class__ is int:
            return RInt(a.x, a.mode, a.c + self.sgn2(b, w))
        if name == 'add' and a.__class__ is int:
            return RInt(b.x, b.mode, b.c + self.sgn2(a, w))
        if name == 'sub' and b.__class__ is int:
            return RInt(a.x, a.mode, a.c - self.sgn2(b, w))
        return None

    def rint_cmp(self, st, pred, a, b, w):
        """icmp with an RInt operand"""
        if a.__class__ is not RInt:
            pred = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(
                pred[1:], None) and pred[0] + {
                    'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[pred[1:]] \
                or pred
            a, b = b, a
        if b.__class__ is RInt:
            b = self.conc_rint(st, b, w)
        if b.__class__ is not int:
            a = self.conc_rint(st, a, w)
            return self.icmp_s(pred, self.tobv(st, a, w),
                               self.tobv(st, b, w))
        if pred in ('eq', 'ne'):
            return a.cmp(pred, self.sgn2(b, w))
        if pred[0] == 's':
            return a.cmp(pred[1:], self.sgn2(b, w))
        # unsigned: negative values are huge
        if self.decide(st, a.ge(0)):
            if b >> (w - 1):
                return int(pred[1] == 'l')
            return a.cmp(pred[1:], b)
        a = self.conc_rint(st, a, w)
        return int(self.icmp_c(pred, a, b, w))

    def fbits_op(self, st, op, a, b):
        # sign-bit manipulation of a double
        if a.__class__ is FBits and b.__class__ is int and a.n == 8:
            if op == 'and' and b == 0x7fffffffffffffff:
                return FBits(self.T.fabs(a.v))
            if op == 'xor' and b == 1 << 63:
                return FBits(self.T.neg(a.v))
            if op == 'and' and b == 1 << 63 or op == 'lshr' and b == 63:
                raise EngineError('sign bit of symbolic double')
        raise EngineError('bit operation %s on double' % op)

    def sgn(x, w):
        return x - (1 << w) if x >> (w - 1) else x

    op_add = binop('add', lambda a, b, w: a + b, lambda a, b: a + b,
                   lambda a, b: z3.Xor(a, b))
    op_sub = binop('sub', lambda a, b, w: a - b, lambda a, b: a - b,
                   lambda a, b: z3.Xor(a, b))
    op_mul = binop('mul', lambda a, b, w: a * b, lambda a, b: a * b,
                   lambda a, b: z3.And(a, b))
    op_and = binop('and', lambda a, b, w: a & b, lambda a, b: a & b,
                   lambda a, b: z3.And(a, b))
    op_or = binop('or', lambda a, b, w: a | b, lambda a, b: a | b,
                  lambda a, b: z3.Or(a, b))
    op_xor = binop('xor', lambda a, b, w: a ^ b, lambda a, b: a ^ b,
                   lambda a, b: z3.Xor(a, b))
    op_shl = binop('shl', lambda a, b, w: a << b if b < w else 0,
                   lambda a, b: a << b)
    op_lshr = binop('lshr', lambda a, b, w: a >> b if b < w else 0,
                    lambda a, b: z3.LShR(a, b))
    op_ashr = binop('ashr', lambda a, b, w: Engine.sgn(a, w) >> min(b, w - 1),
                    lambda a, b: a >> b)

    def divop(signed, rem):
        def op(self, st, fr, ins):
            a = self.V(fr, ins.a)
            b = self.V(fr, ins.b)
            w = ins.ty.a
            if a.__class__ is RInt:
                a = self.conc_rint(st, a, w)
            if b.__class__ is RInt:
                b = self.conc_rint(st, b, w)
            if b.__class__ is int and b == 0:
                raise Bug('ub', 'integer division by zero')
            if a.__class__ is int and b.__class__ is int:
                if signed:
                    x = Engine.sgn(a, w)
                    y = Engine.sgn(b, w)
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    r = x - q * y
                    v = r if rem else q
                else:
                    v = a % b if rem else a // b
                fr.regs[ins.dst] = v & ((1 << w) - 1)
                return
            a = self.tobv(st, a, w)
            if b.__class__ is not int:
                b = self.tobv(st, b, w)
                if not self.decide(st, b != z3.BitVecVal(0, w)):
                    raise Bug('ub', 'integer division by zero')
            else:
                b = z3.BitVecVal(b, w)
            if signed:
                v = z3.SRem(a, b) if rem else a / b
            else:
                v = z3.URem(a, b) if rem else z3.UDiv(a, b)
            fr.regs[ins.dst] = v
        return op

    op_udiv = divop(False, False)
    op_sdiv = divop(True, False)
    op_urem = divop(False, True)
    op_srem = divop(True, True)

    @staticmethod
    def icmp_c(pred, a, b, w):
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred[0] == 's':
            a = Engine.sgn(a, w)
            b = Engine.sgn(b, w)
        p = pred[1:]
        if p == 'lt':
            return a < b
        if p == 'le':
            return a <= b
        if p == 'gt':
            return a > b
        return a >= b

    def op_icmp(self, st, fr, ins):
        a = ins.a
        b = ins.b
        a = fr.regs[a] if a.__class__ is str else a.v
        b = fr.regs[b] if b.__class__ is str else b.v
        if a.__class__ is int and b.__class__ is int:
            w = ins.ty.a if ins.ty.k == 'int' else 64
            fr.regs[ins.dst] = 1 if self.icmp_c(ins.c, a, b, w) else 0
            return
        if a.__class__ is RInt or b.__class__ is RInt:
            fr.regs[ins.dst] = self.rint_cmp(st, ins.c, a, b, ins.ty.a)
            return
        if ins.ty.k == 'int' and ins.ty.a == 1:
            a = self.tob(st, a)
            b = self.tob(st, b)
            if ins.c == 'eq':
                fr.regs[ins.dst] = a == b
            elif ins.c == 'ne':
                fr.regs[ins.dst] = z3.Xor(a, b)
            else:
                raise EngineError('i1 icmp')
            return
        if ins.ty.k == 'ptr':
            w = 64
            if a is UNDEF or b is UNDEF:
                raise Bug('memory', 'comparison of uninitialised pointer')
        else:
            w = ins.ty.a
        if a.__class__ is FBits or b.__class__ is FBits:
            # equality of double bits with zero etc.
            fr.regs[ins.dst] = self.fbits_cmp(st, ins.c, a, b)
            return
        a = self.tobv(st, a, w)
        b = self.tobv(st, b, w)
        fr.regs[ins.dst] = self.icmp_s(ins.c, a, b)

    def fbits_cmp(self, st, pred, a, b):
        if b.__class__ is int and b == 0 and pred in ('eq', 'ne') and \
                a.__class__ is FBits and a.n == 8:
            v = a.v
            if v.__class__ is Fraction or v.__class__ is float:
                r = v == 0
            else:
                r = v == 0
                return r if pred == 'eq' else z3.Not(r)
            return int(r if pred == 'eq' else not r)
        if pred == 'slt' and a.__class__ is FBits and b == 0 and \
                a.lo + a.n == 8:
            v = a.v
            if v.__class__ in (Fraction, float):
                return int(v < 0)
            return v < 0
        if pred == 'sgt' and a.__class__ is FBits and \
                a.lo + a.n == 8 and b == (1 << (8 * a.n)) - 1:
            v = a.v
            if v.__class__ in (Fraction, float):
                return int(v >= 0)
            return v >= 0
        raise EngineError('compare bits of double %s %r' % (pred, b))

    @staticmethod
    def icmp_s(pred, a, b):
        return {
            'eq': lambda: a == b, 'ne': lambda: a != b,
            'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
            'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
            'slt': lambda: a < b, 'sle': lambda: a <= b,
            'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()

    def op_trunc(self, st, fr, ins):
        a = self.V(fr, ins.a)
        w = ins.ty.a
        if a.__class__ is int:
            r = a & ((1 << w) - 1)
        elif a is UNDEF:
            r = UNDEF
        elif a.__class__ is FBits:
            r = FBits(a.v, a.lo, w // 8)
        elif a.__class__ is RInt:
            r = self.conc_rint(st, a, w)
        elif w == 1:
            r = z3.Extract(0, 0, a) == 1
        else:
            r = z3.Extract(w - 1, 0, a)
        fr.regs[ins.dst] = r

    def op_zext(self, st, fr, ins):
        a = self.V(fr, ins.a)
        w = ins.ty.a
        if a.__class__ is int or a is UNDEF:
            r = a
        elif a.__class__ is RInt:
            r = a if self.decide(st, a.ge(0)) else \
                self.conc_rint(st, a, ins.b.a)
        elif isinstance(a, z3.BoolRef):
            r = z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        else:
            r = z3.ZeroExt(w - a.size(), a)
        fr.regs[ins.dst] = r

    def op_sext(self, st, fr, ins):
        a = self.V(fr, ins.a)
        w = ins.ty.a
        w0 = ins.b.a
        if a.__class__ is int:
            r = self.sgn2(a, w0) & ((1 << w) - 1)
        elif a is UNDEF or a.__class__ is RInt:
            r = a
        elif isinstance(a, z3.BoolRef):
            r = z3.If(a, z3.BitVecVal((1 << w) - 1, w), z3.BitVecVal(0, w))
        else:
            r = z3.SignExt(w - a.size(), a)
        fr.regs[ins.dst] = r

    @staticmethod
    def sgn2(x, w):
        return x - (1 << w) if x >> (w - 1) else x

    def op_ptrtoint(self, st, fr, ins):
        a = self.V(fr, ins.a)
        if a.__class__ is int:
            a &= (1 << ins.ty.a) - 1
        fr.regs[ins.dst] = a

    def op_inttoptr(self, st, fr, ins):
        fr.regs[ins.dst] = self.V(fr, ins.a)

    def op_bitcast(self, st, fr, ins):
        v = self.V(fr, ins.a)
        if ins.ty.k == 'double' and ins.b.k == 'int':
            v = self.retype(v, irparse.DBL)
        elif ins.ty.k == 'int' and ins.b.k == 'double':
            v = self.retype(v, ins.ty)
        elif ins.ty.k == 'vec' or ins.b.k == 'vec':
            if ins.ty.k == ins.b.k and layout(ins.ty.a[1]) == \
                    layout(ins.b.a[1]):
                v = [self.retype(x, ins.ty.a[1]) for x in v]
            else:
                raise EngineError('vector bitcast')
        fr.regs[ins.dst] = v

    op_addrspacecast = op_bitcast

    # floating point
    def fv(self, st, v):
        if v is UNDEF:
            return self.fresh_real(st, 'uninit')
        return v

    def fbin(f):
        def op(self, st, fr, ins):
            a = ins.a
            b = ins.b
            a = fr.regs[a] if a.__class__ is str else a.v
            b = fr.regs[b] if b.__class__ is str else b.v
            if a.__class__ is list:
                fr.regs[ins.dst] = [f(self, st, self.fv(st, x),
                                      self.fv(st, y))
                                    for x, y in zip(a, b)]
                return
            if a is UNDEF:
                a = self.fresh_real(st, 'uninit')
            if b is UNDEF:
                b = self.fresh_real(st, 'uninit')
            fr.regs[ins.dst] = f(self, st, a, b)
        return op

    op_fadd = fbin(lambda self, st, a, b: self.T.add(a, b))
    op_fsub = fbin(lambda self, st, a, b: self.T.sub(a, b))
    op_fmul = fbin(lambda self, st, a, b: self.T.mul(a, b))

    def fdiv(self, st, a, b):
        if b.__class__ is Fraction:
            if b == 0:
                if a.__class__ is Fraction or a.__class__ is float:
                    if a == 0 or a != a:
                        return float('nan')
                    return math.copysign(math.inf, a)
                if st.flags['domain'] == 1:
                    self.add_obl(st, 'domain:division by zero',
                                 z3.BoolVal(True), 'domain')
                if self.decide(st, a == 0):
                    return float('nan')
                return math.inf if self.decide(st, a > 0) else -math.inf
            if a.__class__ is Fraction:
                return trim(a / b)
            if a.__class__ is float:
                return a if b > 0 else -a
            return self.T.mul(a, 1 / b)
        if b.__class__ is float:
            if b != b or a.__class__ is float:
                return float('nan')
            return Fraction(0)
        if a.__class__ is float:
            if a != a:
                return a
            return a if self.decide(st, b >= 0) else -a
        s = self.T.simp(b)
        if s.__class__ is Fraction:
            return self.fdiv(st, a, s)
        if self.o['div0'] == 'fork':
            if self.decide(st, b == 0):
                return self.fdiv0(st, a)
        else:
            self.domain(st, b != 0, 'division by zero')
        if a.__class__ is Fraction and not a:
            return a
        if self.T.same(a, b):
            return Fraction(1)
        return tz(a) / b

    def fdiv0(self, st, a):
        if a.__class__ is Fraction:
            return self.fdiv(st, a, Fraction(0)) if not a else \
                math.copysign(math.inf, a)
        if self.decide(st, a == 0):
            return float('nan')
        return math.inf if self.decide(st, a > 0) else -math.inf

    op_fdiv = fbin(lambda self, st, a, b: self.fdiv(st, a, b))

    def frem_(self, st, a, b):
        if a.__class__ is float or b.__class__ is float:
            return math.fmod(float(a), float(b))
        if a.__class__ is Fraction and b.__class__ is Fraction:
            q = a / b
            return a - b * int(q)
        self.domain(st, tz(b) != 0, 'fmod by zero')
        a = tz(a)
        b = tz(b)
        q = a / b
        lst = self.T.apps.setdefault('fmod', [])
        for (a0, b0, v) in lst:
            if self.T.same(a0, a) and self.T.same(b0, b):
                return v
        k = self.T.fresh('fmod', z3.IntSort())
        kn = k.decl().name()
        lst.append((a, b, a - b * z3.ToReal(k)))
        kr = z3.ToReal(k)
        self.T.axioms[kn] = [z3.If(q >= 0, z3.And(kr <= q, q < kr + 1),
                                   z3.And(kr >= q, q > kr - 1))]
        return a - b * kr

    op_frem = fbin(lambda self, st, a, b: self.frem_(st, a, b))

    def op_fneg(self, st, fr, ins):
        a = self.V(fr, ins.a)
        if a.__class__ is list:
            fr.regs[ins.dst] = [self.T.neg(self.fv(st, x)) for x in a]
            return
        fr.regs[ins.dst] = self.T.neg(self.fv(st, a))

    def op_fcmp(self, st, fr, ins):
        a = self.fv(st, self.V(fr, ins.a))
        b = self.fv(st, self.V(fr, ins.b))
        fr.regs[ins.dst] = self.fcmp(st, ins.c, a, b)

    def fcmp(self, st, pred, a, b):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        an = a.__class__
        bn = b.__class__
        if (an is Fraction or an is float) and (bn is Fraction or bn is float):
            nan = (a != a) or (b != b)
            if pred == 'ord':
                return int(not nan)
            if pred == 'uno':
                return int(nan)
            if nan:
                return int(pred[0] == 'u')
            p = pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b,
                        'gt': a > b, 'ge': a >= b}[p])
        if an is float or bn is float:
            f = a if an is float else b
            if f != f:
                return int(pred[0] == 'u' or pred == 'uno')
            if pred == 'ord':
                return 1
            if pred == 'uno':
                return 0
            # finite symbolic vs infinity
            x, y = (f, 0) if an is float else (0, f)
            p = pred[1:]
            return int({'eq': False, 'ne': True, 'lt': x < y, 'le': x <= y,
                        'gt': x > y, 'ge': x >= y}[p])
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        p = pred[1:]
        if an is not Fraction and bn is not Fraction and \
                a.get_id() == b.get_id():
            return int(p in ('eq', 'le', 'ge'))
        a = tz(a)
        b = tz(b)
        return {'eq': lambda: a == b, 'ne': lambda: a != b,
                'lt': lambda: a < b, 'le': lambda: a <= b,
                'gt': lambda: a > b, 'ge': lambda: a >= b}[p]()

    def op_fptosi(self, st, fr, ins):
        fr.regs[ins.dst] = self.real_to_int(st, self.V(fr, ins.a), True,
                                            ins.ty.a)

    def op_fptoui(self, st, fr, ins):
        fr.regs[ins.dst] = self.real_to_int(st, self.V(fr, ins.a), False,
                                            ins.ty.a)

    def op_sitofp(self, st, fr, ins):
        a = self.V(fr, ins.a)
        if a.__class__ is not int:
            if a is UNDEF:
                fr.regs[ins.dst] = UNDEF
                return
            if isinstance(a, z3.BoolRef):
                fr.regs[ins.dst] = z3.If(a, rv(Fraction(-1)), rv(Fraction(0)))
                return
            fr.regs[ins.dst] = self.bv2real(st, a, True)
            return
        fr.regs[ins.dst] = Fraction(self.sgn2(a, ins.b.a))

    def bv2real(self, st, a, signed):
        if a.__class__ is RInt:
            if not signed and not self.decide(st, a.ge(0)):
                return Fraction(self.conc_rint(st, a))
            r = self.rounder(st, a.x, a.mode)
            return self.T.add(r, Fraction(a.c))
        m = st.user.get('bvreal', {}).get(a.get_id())
        if m is not None:
            return m
        a = self.concretize(st, a, 'int->real')
        return Fraction(a)

    def op_uitofp(self, st, fr, ins):
        a = self.V(fr, ins.a)
        if a.__class__ is not int:
            if a is UNDEF:
                fr.regs[ins.dst] = UNDEF
                return
            if isinstance(a, z3.BoolRef):
                fr.regs[ins.dst] = z3.If(a, rv(Fraction(1)), rv(Fraction(0)))
                return
            fr.regs[ins.dst] = self.bv2real(st, a, False)
            return
        fr.regs[ins.dst] = Fraction(a)

    def op_fptrunc(self, st, fr, ins):
        fr.regs[ins.dst] = self.V(fr, ins.a)

    op_fpext = op_fptrunc

    def op_extractvalue(self, st, fr, ins):
        v = self.V(fr, ins.a)
        for i in ins.b:
            v = v[i] if v is not UNDEF else UNDEF
        fr.regs[ins.dst] = v

    def op_insertvalue(self, st, fr, ins):
        v = self.V(fr, ins.a)
        x = self.V(fr, ins.b)
        fr.regs[ins.dst] = self.ins(v, ins.c, x, ins.ty)

    def ins(self, v, idx, x, ty):
        if v is UNDEF:
            v = self.undef_of(ty)
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            sub = ty.a[0][idx[0]] if ty.k == 'struct' else ty.a[1]
            v[idx[0]] = self.ins(v[idx[0]], idx[1:], x, sub)
        return v

    def op_extractelement(self, st, fr, ins):
        v = self.V(fr, ins.a)
        fr.regs[ins.dst] = v[self.V(fr, ins.b)]

    def op_insertelement(self, st, fr, ins):
        v = self.V(fr, ins.a)
        if v is UNDEF:
            v = self.undef_of(ins.ty)
        v = list(v)
        v[self.V(fr, ins.c)] = self.V(fr, ins.b)
        fr.regs[ins.dst] = v

    def op_shufflevector(self, st, fr, ins):
        a = self.V(fr, ins.a)
        b = self.V(fr, ins.b)
        n = ins.ty.a[0]
        if a is UNDEF:
            a = [UNDEF] * n
        if b is UNDEF:
            b = [UNDEF] * n
        m = self.V(fr, ins.c)
        if m is UNDEF:
            m = [UNDEF] * ins.x.a[0]
        ab = list(a) + list(b)
        fr.regs[ins.dst] = [UNDEF if i is UNDEF else ab[i] for i in m]

    def op_atomicrmw(self, st, fr, ins):
        p = self.V(fr, ins.a)
        b = self.V(fr, ins.b)
        old = self.load(st, p, ins.ty)
        w = ins.ty.a
        o = ins.x
        if old.__class__ is int and b.__class__ is int:
            new = {'add': old + b, 'sub': old - b, 'xchg': b, 'and': old & b,
                   'or': old | b, 'xor': old ^ b}[o] & ((1 << w) - 1)
        else:
            x = self.tobv(st, old, w)
            y = self.tobv(st, b, w)
            new = {'add': lambda: x + y, 'sub': lambda: x - y,
                   'xchg': lambda: y}[o]()
        self.store(st, p, ins.ty, new)
        fr.regs[ins.dst] = old

    def op_cmpxchg(self, st, fr, ins):
        p = self.V(fr, ins.a)
        exp = self.V(fr, ins.b)
        new = self.V(fr, ins.c)
        old = self.load(st, p, ins.ty)
        if old.__class__ is int and exp.__class__ is int:
            ok = old == exp
        else:
            ok = self.decide(st, self.tobv(st, old, ins.ty.a) ==
                             self.tobv(st, exp, ins.ty.a))
        if ok:
            self.store(st, p, ins.ty, new)
        fr.regs[ins.dst] = [old, int(ok)]

    # calls
    def op_call(self, st, fr, ins):
        c = ins.a
        if c.__class__ is str:
            p = fr.regs[c]
            if p.__class__ is not int:
                p = self.ptr(st, p)
            name = self.rid_fn.get(p >> 32)
            if name is None or p & 0xffffffff:
                raise Bug('memory', 'call through invalid function pointer')
        else:
            name = c.name
        regs = fr.regs
        args = [regs[v] if v.__class__ is str else v.v for _, v in ins.b]
        self.call(st, fr, ins, name, args)

    def call(self, st, fr, ins, name, args):
        stub = self.stubs.get(name)
        if stub is None:
            f = self.m.funcs.get(name)
            if f is not None and not f.decl:
                if not getattr(f, 'pfx', False):
                    stub = self.prefix_stub(name)
                    f.pfx = True
                    if stub is not None:
                        self.stubs[name] = stub
                if stub is None:
                    self.push_call(st, f, args, ins)
                    return
            else:
                stub = self.prefix_stub(name)
                if stub is None:
                    raise EngineError('no model for external ' + name)
                self.stubs[name] = stub
        r = stub(self, st, fr, ins, args)
        if r is not NORET:
            self.finish_call(st, fr, ins, r)

    def prefix_stub(self, name):
        for p, s in self.stub_prefix:
            if name.startswith(p):
                return s
        return None


NORET = object()
