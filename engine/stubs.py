"""Models of everything the checked code calls outside its own IR:
allocator, string/memory intrinsics, libm over exact reals, the C++ runtime
(exceptions, guards, dynamic_cast), streams (ignored), locks, and the vp_ API.
"""
import math
import os
import re
from fractions import Fraction

import z3
import irparse
from irparse import IntTy, PI, DBL, recon
from terms import rv, tz, recon0, trim

I8 = IntTy(8)
I32 = IntTy(32)
I64 = IntTy(64)
M64 = (1 << 64) - 1


def s64(x):
    return x - (1 << 64) if x >> 63 else x


def install(eng):
    import symex
    from symex import (Bug, PathEnd, EngineError, UNDEF, NORET, FBits,
                       Obligation)
    S = eng.stubs
    P = eng.stub_prefix

    def stub(*names):
        def d(f):
            for n in names:
                S['@' + n] = f
            return f
        return d

    def prefix(*names):
        def d(f):
            for n in names:
                P.append(('@' + n, f))
            return f
        return d

    def cint(E, st, v, what='size'):
        return v if v.__class__ is int else E.concretize(st, v, what)

    # ------------------------------------------------------------ memory
    @stub('_Znwm', '_Znam', '_ZnwmSt11align_val_t', 'malloc',
          '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
    def f_new(E, st, fr, ins, a):
        n = cint(E, st, a[0])
        if n > (1 << 28):
            raise Bug('memory', 'allocation of %d bytes' % n)
        return E.alloc(st, n, 'heap', fr.fn.name)

    @stub('calloc')
    def f_calloc(E, st, fr, ins, a):
        n = cint(E, st, a[0]) * cint(E, st, a[1])
        p = E.alloc(st, n, 'heap', fr.fn.name)
        E.memset(st, p, 0, n)
        return p

    @stub('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free',
          '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
    def f_del(E, st, fr, ins, a):
        if a[0] is UNDEF:
            raise Bug('memory', 'free of uninitialised pointer')
        E.free(st, a[0])

    @prefix('llvm.memcpy.', 'llvm.memmove.')
    def f_memcpy(E, st, fr, ins, a):
        n = cint(E, st, a[2])
        if n:
            E.memcpy(st, E.ptr2(st, a[0]), E.ptr2(st, a[1]), n)

    @stub('memcpy', 'memmove')
    def f_memcpy2(E, st, fr, ins, a):
        f_memcpy(E, st, fr, ins, a)
        return a[0]

    @prefix('llvm.memset.')
    def f_memset(E, st, fr, ins, a):
        E.memset(st, E.ptr2(st, a[0]), a[1], cint(E, st, a[2]))

    @stub('memset')
    def f_memset2(E, st, fr, ins, a):
        E.memset(st, a[0], a[1], cint(E, st, a[2]))
        return a[0]

    @stub('memcmp', 'bcmp', 'strncmp')
    def f_memcmp(E, st, fr, ins, a):
        n = cint(E, st, a[2])
        for i in range(n):
            x = E.load(st, a[0] + i, I8)
            y = E.load(st, a[1] + i, I8)
            x = E.concretize(st, x) if x.__class__ is not int else x
            y = E.concretize(st, y) if y.__class__ is not int else y
            if x != y:
                return 1 if x > y else 0xffffffff
        return 0

    @stub('strcmp')
    def f_strcmp(E, st, fr, ins, a):
        x = E.cstr(st, a[0])
        y = E.cstr(st, a[1])
        return 0 if x == y else (1 if x > y else 0xffffffff)

    @stub('strlen')
    def f_strlen(E, st, fr, ins, a):
        return len(E.cstr(st, a[0]))

    @stub('memchr')
    def f_memchr(E, st, fr, ins, a):
        for i in range(cint(E, st, a[2])):
            if E.load(st, a[0] + i, I8) == (a[1] & 255):
                return a[0] + i
        return 0

    # ------------------------------------------------------------ llvm.*
    @prefix('llvm.lifetime.', 'llvm.experimental.noalias', 'llvm.dbg.',
            'llvm.invariant.', 'llvm.stackrestore', 'llvm.va_',
            'llvm.prefetch', 'llvm.donothing', 'llvm.assume')
    def f_nop(E, st, fr, ins, a):
        return 0

    @stub('llvm.stacksave', 'llvm.stacksave.p0')
    def f_ss(E, st, fr, ins, a):
        return 0

    @stub('llvm.trap', 'abort', '_ZSt9terminatev', 'llvm.ubsantrap',
          '__clang_call_terminate')
    def f_trap(E, st, fr, ins, a):
        raise Bug('abort', 'program aborts in ' + fr.fn.name)

    @stub('exit', '_exit')
    def f_exit(E, st, fr, ins, a):
        raise Bug('abort', 'program exits')

    @prefix('llvm.expect.')
    def f_expect(E, st, fr, ins, a):
        return a[0]

    @prefix('llvm.is.constant.')
    def f_isconst(E, st, fr, ins, a):
        return 0

    @prefix('llvm.objectsize.')
    def f_objsize(E, st, fr, ins, a):
        return M64

    @prefix('llvm.eh.typeid.for')
    def f_tid(E, st, fr, ins, a):
        return E.typeid(a[0])

    def mm(name, cf, sf, signed):
        @prefix('llvm.%s.' % name)
        def f(E, st, fr, ins, a):
            x, y = a
            w = ins.ty.a
            if x.__class__ is symex.RInt or y.__class__ is symex.RInt:
                pred = {'umax': 'uge', 'umin': 'ule', 'smax': 'sge',
                        'smin': 'sle'}[name]
                c = E.rint_cmp(st, pred, x, y, w)
                if c.__class__ is not int:
                    c = E.decide(st, c)
                return x if c else y
            if x.__class__ is int and y.__class__ is int:
                if signed:
                    return cf(E.sgn2(x, w), E.sgn2(y, w)) & ((1 << w) - 1)
                return cf(x, y)
            x = E.tobv(st, x, w)
            y = E.tobv(st, y, w)
            return z3.If(sf(x, y), x, y)
    mm('umax', max, lambda x, y: z3.UGE(x, y), False)
    mm('umin', min, lambda x, y: z3.ULE(x, y), False)
    mm('smax', max, lambda x, y: x >= y, True)
    mm('smin', min, lambda x, y: x <= y, True)

    @prefix('llvm.abs.')
    def f_iabs(E, st, fr, ins, a):
        w = ins.ty.a
        if a[0].__class__ is int:
            return abs(E.sgn2(a[0], w)) & ((1 << w) - 1)
        return z3.If(a[0] >= 0, a[0], -a[0])

    @stub('abs', 'labs')
    def f_iabs2(E, st, fr, ins, a):
        return f_iabs(E, st, fr, ins, a)

    @prefix('llvm.ctpop.')
    def f_ctpop(E, st, fr, ins, a):
        return bin(cint(E, st, a[0])).count('1')

    @prefix('llvm.ctlz.')
    def f_ctlz(E, st, fr, ins, a):
        return ins.ty.a - cint(E, st, a[0]).bit_length()

    @prefix('llvm.cttz.')
    def f_cttz(E, st, fr, ins, a):
        x = cint(E, st, a[0])
        return ins.ty.a if x == 0 else (x & -x).bit_length() - 1

    @prefix('llvm.bswap.')
    def f_bswap(E, st, fr, ins, a):
        n = ins.ty.a // 8
        return int.from_bytes(cint(E, st, a[0]).to_bytes(n, 'little'), 'big')

    def fsh(left):
        def f(E, st, fr, ins, a):
            w = ins.ty.a
            x, y, s = [cint(E, st, v) for v in a]
            s %= w
            full = (x << w) | y
            if left:
                return (full << s >> w) & ((1 << w) - 1)
            return (full >> s) & ((1 << w) - 1)
        return f
    P.append(('@llvm.fshl.', fsh(True)))
    P.append(('@llvm.fshr.', fsh(False)))

    def ovf(name, f, zf, signed):
        @prefix('llvm.%s.with.overflow.' % name)
        def g(E, st, fr, ins, a):
            w = ins.ty.a[0][0].a
            x = cint(E, st, a[0])
            y = cint(E, st, a[1])
            if signed:
                r = f(E.sgn2(x, w), E.sgn2(y, w))
                o = not -(1 << (w - 1)) <= r < (1 << (w - 1))
            else:
                r = f(x, y)
                o = not 0 <= r < (1 << w)
            return [r & ((1 << w) - 1), int(o)]
    for nm, fn in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y),
                   ('mul', lambda x, y: x * y)):
        ovf('u' + nm, fn, None, False)
        ovf('s' + nm, fn, None, True)

    def sat(name, f, signed):
        @prefix('llvm.%s.sat.' % name)
        def g(E, st, fr, ins, a):
            w = ins.ty.a
            x, y = a
            if x.__class__ is int and y.__class__ is int:
                if signed:
                    r = f(E.sgn2(x, w), E.sgn2(y, w))
                    r = max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, r))
                else:
                    r = max(0, min((1 << w) - 1, f(x, y)))
                return r & ((1 << w) - 1)
            raise EngineError('symbolic saturating op')
    sat('uadd', lambda x, y: x + y, False)
    sat('usub', lambda x, y: x - y, False)

    # ------------------------------------------------------------ libm
    def fv(E, st, v):
        if v is UNDEF:
            return E.fresh_real(st, 'uninit')
        if v.__class__ is FBits:
            return v.v
        return v

    def math1(names, fn):
        def f(E, st, fr, ins, a):
            x = a[0]
            if x.__class__ is list:
                return [fn(E, st, fv(E, st, y)) for y in x]
            return fn(E, st, fv(E, st, x))
        for n in names:
            if n.startswith('llvm.'):
                P.append(('@' + n, f))
            else:
                S['@' + n] = f

    def math2(names, fn):
        def f(E, st, fr, ins, a):
            x, y = a[0], a[1]
            if x.__class__ is list:
                return [fn(E, st, fv(E, st, p), fv(E, st, q))
                        for p, q in zip(x, y)]
            return fn(E, st, fv(E, st, x), fv(E, st, y))
        for n in names:
            if n.startswith('llvm.'):
                P.append(('@' + n, f))
            else:
                S['@' + n] = f

    def m_sqrt(E, st, x):
        if x.__class__ is Fraction:
            if x < 0:
                if st.flags['domain'] == 1:
                    E.add_obl(st, 'domain:sqrt of negative',
                              z3.BoolVal(True), 'domain')
                return float('nan')
            return E.T.sqrt(x)
        if x.__class__ is float:
            return E.T.sqrt(x)
        s = E.T.simp(x)
        if s.__class__ is Fraction:
            return m_sqrt(E, st, s)
        E.domain(st, x >= 0, 'sqrt of negative')
        return E.T.sqrt(x)
    math1(['sqrt', 'llvm.sqrt.'], m_sqrt)
    math1(['fabs', 'llvm.fabs.', 'fabsl', 'fabsf'],
          lambda E, st, x: m_fabs(E, st, x))

    def m_fabs(E, st, x):
        if x.__class__ in (Fraction, float):
            return abs(x)
        k = st.known.get((x >= 0).get_id())
        if k is not None:
            return x if k[0] else E.T.neg(x)
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            return abs(x)
        k = E.decide(st, x >= 0) if E.o.get('forksel') else \
            E.implied(st, x >= 0)
        if k is not None:
            return x if k else E.T.neg(x)
        return E.T.fabs(x)

    def need_fin(E, st, x):
        return x.__class__ is float

    math1(['sin', 'llvm.sin.'], lambda E, st, x: E.T.sin(x))
    math1(['cos', 'llvm.cos.'], lambda E, st, x: E.T.cos(x))

    @stub('sincos')
    def f_sincos(E, st, fr, ins, a):
        x = fv(E, st, a[0])
        E.store(st, a[1], DBL, E.T.sin(x))
        E.store(st, a[2], DBL, E.T.cos(x))

    def m_tan(E, st, x):
        if x.__class__ is float:
            return float('nan')
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            return recon0(math.tan(float(x)))
        try:
            p, d = E.T.norm(x)
        except Exception:
            p, d = {}, {}
        if not d:
            ats = [E.T.atoms[k] for m in p for k, _ in m]
            inv = [E.T.vfn.get(t.decl().name()) for t in ats
                   if z3.is_const(t)]
            inv = [f for f in inv if f and f[0] == 'atan']
            if inv:
                if len(p) == 1:
                    (m, c), = p.items()
                    if len(m) == 1 and m[0][1] == 1 and c == 1:
                        return inv[0][1][0]
                # monotone application, tied to tan(atan(y)) = y
                v = E.T.app('tan', [x], lambda v: [
                    v == 0 if False else z3.Implies(x == 0, v == 0)])
                nm = v.decl().name()
                if nm not in E.tan_done:
                    E.tan_done.add(nm)
                    h = PI / 2
                    for f in inv:
                        t = E.T.app('atan', f[1], lambda v: [])
                        y = tz(f[1][0])
                        E.T.axver += 1
                        E.T.axioms[nm] = E.T.axioms[nm] + [z3.Implies(
                            z3.And(x > rv(-h), x < rv(h)),
                            z3.If(x < t, v < y, z3.If(x > t, v > y,
                                                      v == y)))]
                return v
        s, c = E.T.sin(x), E.T.cos(x)
        return E.fdiv(st, s, c)
    math1(['tan'], m_tan)
    eng.tan_done = set()
    eng.T.anglesum = bool(eng.o.get('anglesum'))
    eng.T.mono = bool(eng.o.get('mono'))
    eng.T.taylor = bool(eng.o.get('taylor'))
    eng.T.cut = int(eng.o.get('cut') or 0)

    def nonzero(y, x):
        st = eng.cur_state
        if st is None:
            return False
        y, x = tz(y), tz(x)
        if eng.nf_bound(st, y * y + x * x > 0):
            return True
        ok, _ = eng.feasible(st, z3.And(tz(y) == 0, tz(x) == 0))
        return not ok
    eng.T.nonneg0 = nonzero

    def clipdom(E, st, x, what):
        E.domain(st, z3.And(x >= -1, x <= 1), what)

    def m_asin(E, st, x):
        if x.__class__ is float:
            return float('nan')
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            if abs(x) > 1:
                if st.flags['domain'] == 1:
                    E.add_obl(st, 'domain:asin', z3.BoolVal(True), 'domain')
                return float('nan')
            return recon0(math.asin(float(x)))
        clipdom(E, st, x, 'asin argument')
        if E.T.lead_neg(x):
            return E.T.neg(m_asin0(E, E.T.neg(x)))
        return m_asin0(E, x)

    HP = PI / 2

    def m_asin0(E, x):
        return E.T.app('asin', [x], lambda v: [
            v >= rv(-HP), v <= rv(HP), z3.Implies(x >= 0, v >= 0),
            z3.Implies(x <= 0, v <= 0), z3.Implies(x > 0, v > 0),
            z3.Implies(x < 0, v < 0),
            z3.Implies(x == 1, v == rv(HP)), z3.Implies(x == -1, v == rv(-HP)),
            z3.Implies(x < 1, v < rv(HP)), z3.Implies(x > -1, v > rv(-HP)),
            z3.Implies(x >= 0, v >= x), z3.Implies(x <= 0, v <= x)])
    math1(['asin'], m_asin)

    def m_acos(E, st, x):
        if x.__class__ is float:
            return float('nan')
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            if abs(x) > 1:
                if st.flags['domain'] == 1:
                    E.add_obl(st, 'domain:acos', z3.BoolVal(True), 'domain')
                return float('nan')
            return recon0(math.acos(float(x)))
        clipdom(E, st, x, 'acos argument')
        return E.T.app('acos', [x], lambda v: [
            v >= 0, v <= rv(PI), z3.Implies(x > 0, v < rv(HP)),
            z3.Implies(x < 0, v > rv(HP)), z3.Implies(x == 0, v == rv(HP)),
            z3.Implies(x < 1, v > 0), z3.Implies(x > -1, v < rv(PI)),
            z3.Implies(x == 1, v == 0), z3.Implies(x == -1, v == rv(PI))])
    math1(['acos'], m_acos)

    def m_atan(E, st, x):
        if x.__class__ is float:
            return recon0(math.atan(x))
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            return recon0(math.atan(float(x)))
        return E.T.app('atan', [x], lambda v: [
            v > rv(-HP), v < rv(HP), z3.Implies(x > 0, v > 0),
            z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)])
    math1(['atan'], m_atan)

    def m_atan2(E, st, y, x):
        if x.__class__ is float or y.__class__ is float:
            if x != x or y != y:
                return float('nan')
            raise EngineError('atan2 of infinity')
        y = E.T.simp(y)
        x = E.T.simp(x)
        if x.__class__ is Fraction and y.__class__ is Fraction:
            return recon0(math.atan2(float(y), float(x)))
        y, x = tz(y), tz(x)
        return E.T.app('atan2', [y, x], lambda v: [
            v >= rv(-PI), v <= rv(PI), z3.Implies(y > 0, z3.And(v > 0, v < rv(PI))),
            z3.Implies(y < 0, z3.And(v < 0, v > rv(-PI))),
            z3.Implies(z3.And(y == 0, x > 0), v == 0),
            z3.Implies(z3.And(y == 0, x < 0), v == rv(PI)),
            z3.Implies(z3.And(y == 0, x == 0), v == 0),
            z3.Implies(z3.And(x == 0, y > 0), v == rv(HP)),
            z3.Implies(z3.And(x == 0, y < 0), v == rv(-HP)),
            z3.Implies(x > 0, z3.And(v > rv(-HP), v < rv(HP))),
            z3.Implies(z3.And(x < 0, y >= 0), v > rv(HP)),
            z3.Implies(z3.And(x < 0, y < 0), v < rv(-HP))])
    math2(['atan2'], m_atan2)

    def log_const(E, q):
        if q == 1:
            return Fraction(0)
        if q == 10:
            return recon0(math.log(10.0))
        return recon0(math.log(float(q)))

    def exp_parts(E, x):
        """split x = sum of log-terms*int + rest, so exp(log y)=y"""
        try:
            p, d = E.T.norm(x)
        except Exception:
            return None
        if d:
            return None
        logs = []
        rest = dict(p)
        LN10 = log_const(E, 10)
        for m, c in list(p.items()):
            if len(m) == 1 and m[0][1] == 1:
                t = E.T.atoms[m[0][0]]
                f = E.T.vfn.get(t.decl().name()) if z3.is_const(t) else None
                if f and f[0] == 'log':
                    cc = c
                    if cc.denominator == 1 and abs(cc) <= 12:
                        logs.append((f[1][0], int(cc)))
                        del rest[m]
                    elif cc.denominator <= 7 and abs(cc) <= 12:
                        logs.append((f[1][0], cc))
                        del rest[m]
        return logs, rest

    def poly_term(E, p):
        out = Fraction(0)
        for m, c in sorted(p.items()):
            t = c
            for at, e in m:
                for _ in range(e):
                    t = E.T.mul(t, E.T.atoms[at])
            out = E.T.add(out, t)
        return out

    def m_exp(E, st, x):
        if x.__class__ is float:
            return float('nan') if x != x else (
                float('inf') if x > 0 else Fraction(0))
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            if x > 700:
                return float('inf')
            if x < -745:
                return Fraction(0)
            # exp(k ln 10), exp(ln 2 ..) stay exact
            q = x / log_const(E, 10)
            if q.denominator != 1 and abs(q - round(q)) < Fraction(
                    1, 10 ** 13):
                q = Fraction(round(q))
            if q.denominator == 1 and abs(q) < 300:
                return Fraction(10) ** int(q)
            return recon0(math.exp(float(x)))
        r = exp_parts(E, x)
        mulby = None
        if r is not None and r[0]:
            logs, rest = r
            out = poly_exp(E, st, poly_term(E, rest))
            for y, n in logs:
                if n.__class__ is int:
                    out = E.T.mul(out, ipow(E, st, y, n))
                else:
                    s = E.T.root(y, n.denominator)
                    out = E.T.mul(out, ipow(E, st, s, n.numerator))
            return out
        return poly_exp(E, st, x)

    def poly_exp(E, st, x):
        if x.__class__ is Fraction:
            return m_exp(E, st, x)
        if E.T.lead_neg(x):
            y = exp0(E, E.T.simp(E.T.neg(x)))
            return tz(Fraction(1)) / y
        return exp0(E, x)

    def exp0(E, x):
        # split off a constant term: exp(c + y) = exp(c) exp(y)
        try:
            p, d = E.T.norm(x)
            c = p.get((), None) if not d else None
        except Exception:
            c = None
        if c is not None and len(p) > 1:
            y = E.T.simp(E.T.sub(x, c))
            return E.T.mul(m_exp(E, None, c), m_exp(E, None, y))
        return E.T.app('exp', [x], lambda v: [
            v > 0, v >= 1 + x, z3.Implies(x <= 0, v <= 1),
            z3.Implies(x < 0, v < 1), z3.Implies(x > 0, v > 1)])
    math1(['exp', 'llvm.exp.'], m_exp)

    def ipow(E, st, x, n):
        if n == 0:
            return Fraction(1)
        if n < 0:
            return E.fdiv(st, Fraction(1), ipow(E, st, x, -n))
        r = x
        for _ in range(n - 1):
            r = E.T.mul(r, x)
        return r

    def m_log(E, st, x):
        if x.__class__ is float:
            return x if x > 0 else float('nan')
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            if x <= 0:
                return float('nan') if x < 0 else float('-inf')
            return log_const(E, x)
        E.domain(st, x > 0, 'log of non-positive')
        out = m_log1(E, st, x)
        if E.T.mono:
            log_pairs(E, x, out)
        return out

    eng.log_calls = []

    def log_pairs(E, x, out):
        if out.__class__ is Fraction:
            return
        for (y, o) in E.log_calls:
            if o.get_id() == out.get_id():
                return
        prev = E.log_calls[-12:]
        if os.environ.get('VP_DBG'):
            print('LOG', z3.simplify(x), '->', z3.simplify(out), flush=True)
        E.log_calls.append((x, out))
        names = E.vars_of(out)
        for (y, o) in prev + [(tz(Fraction(1)), tz(Fraction(0)))]:
            ax = z3.If(x < y, out < o, z3.If(x > y, out > o, out == o))
            for n in names | E.vars_of(o):
                f = E.T.vfn.get(n)
                if f and f[0] == 'log':
                    E.T.axver += 1
                    E.T.axioms[n] = E.T.axioms[n] + [ax]

    def m_log1(E, st, x):
        # log of an exp, of a product/quotient with constants
        try:
            p, d = E.T.norm(x)
        except Exception:
            p, d = {0: 0, 1: 0}, {}
        if len(p) == 1 and (d or not (() in p)):
            # monomial over (products of) denominators: log c + sum e*log(at)
            (m, c), = p.items()
            ats = [(E.T.atoms[at], e) for at, e in m]
            if c > 0 and all(z3.is_const(t) for t, _ in ats):
                pos = []
                for t, e in ats:
                    f = E.T.vfn.get(t.decl().name())
                    if f and f[0] in ('exp', 'sqrt', 'pow'):
                        pos.append((t, e, f))
                    else:
                        pos.append((t, e, None))
                simple = all(f is not None or
                             st is not None and known_pos(E, st, t)
                             for t, e, f in pos)
                dens = []
                for k, e in d.items():
                    pt = poly_term(E, dict(k))
                    f = None
                    if pt.__class__ is not Fraction and z3.is_const(pt):
                        f = E.T.vfn.get(pt.decl().name())
                    dens.append((pt, -e, f))
                    if not (f and f[0] in ('exp', 'sqrt', 'pow')) and \
                            not known_pos(E, st, pt):
                        simple = False
                if simple and (dens or len(pos) > 1 or c != 1 or
                               pos and (pos[0][2] or pos[0][1] != 1)):
                    out = log_const(E, c)
                    for t, e, f in pos + dens:
                        if f and f[0] == 'exp':
                            out = E.T.add(out, E.T.mul(Fraction(e),
                                                       f[1][0]))
                        elif f and f[0] == 'sqrt':
                            out = E.T.add(out, E.T.mul(
                                Fraction(e, 2), m_log(E, st, f[1][0])))
                        else:
                            out = E.T.add(out, E.T.mul(
                                Fraction(e), log0(E, t)))
                    return out
        return log0(E, x)

    def known_pos(E, st, t):
        if t.__class__ is Fraction:
            return t > 0
        ok, _ = E.feasible(st, t <= 0)
        return not ok

    def log0(E, x):
        return E.T.app('log', [x], lambda v: [
            v <= x - 1, z3.Implies(x > 1, v > 0), z3.Implies(x == 1, v == 0),
            z3.Implies(z3.And(x < 1, x > 0), v < 0)])
    math1(['log', 'llvm.log.'], m_log)

    def m_log10(E, st, x):
        v = m_log(E, st, x)
        if v.__class__ is float:
            return v
        if x.__class__ is Fraction:
            return recon0(math.log10(float(x)))
        return E.T.mul(v, 1 / log_const(E, 10))
    math1(['log10', 'llvm.log10.'], m_log10)
    math1(['log1p'], lambda E, st, x: m_log(E, st, E.T.add(x, Fraction(1))))

    def m_pow(E, st, x, y):
        if x.__class__ is float or y.__class__ is float:
            try:
                v = math.pow(float(x), float(y))
            except Exception:
                v = float('nan')
            return v if v != v or math.isinf(v) else recon0(v)
        x = E.T.simp(x)
        y = E.T.simp(y)
        if y.__class__ is Fraction:
            if y.denominator == 1 and abs(y) <= 12:
                if x.__class__ is Fraction and x == 0 and y < 0:
                    return float('inf')
                return ipow(E, st, x, int(y))
            if y.denominator == 2 and abs(y) <= 12 and \
                    x.__class__ is not Fraction:
                s = m_sqrt(E, st, x)
                return ipow(E, st, s, int(2 * y))
            if x.__class__ is Fraction:
                if x == 0:
                    return Fraction(0) if y > 0 else float('inf')
                if x < 0:
                    return float('nan')
                return recon0(math.pow(float(x), float(y)))
        # x^y = exp(y log x)
        if x.__class__ is not Fraction:
            E.domain(st, x > 0, 'pow of non-positive base')
        elif x <= 0:
            raise EngineError('pow of non-positive constant base')
        return m_exp(E, st, E.T.mul(y, m_log(E, st, x)))
    math2(['pow', 'llvm.pow.'], m_pow)

    @prefix('llvm.powi.')
    def f_powi(E, st, fr, ins, a):
        n = cint(E, st, a[1])
        n = E.sgn2(n, 32)
        return ipow(E, st, fv(E, st, a[0]), n)

    @prefix('llvm.exp10.')
    def f_exp10(E, st, fr, ins, a):
        return m_pow(E, st, Fraction(10), fv(E, st, a[0]))

    @prefix('llvm.exp2.')
    def f_exp2(E, st, fr, ins, a):
        return m_pow(E, st, Fraction(2), fv(E, st, a[0]))
    S['@exp10'] = f_exp10
    S['@exp2'] = f_exp2

    @stub('ldexp')
    def f_ldexp(E, st, fr, ins, a):
        n = E.sgn2(cint(E, st, a[1]), 32)
        return E.T.mul(fv(E, st, a[0]), Fraction(2) ** n)
    P.append(('@llvm.ldexp.', f_ldexp))

    math2(['hypot'], lambda E, st, x, y: m_sqrt(E, st, E.T.add(
        E.T.mul(x, x), E.T.mul(y, y))))

    def m_sinh(E, st, x):
        e = m_exp(E, st, x)
        return E.T.mul(Fraction(1, 2), E.T.sub(e, E.fdiv(st, Fraction(1), e)))

    def m_cosh(E, st, x):
        e = m_exp(E, st, x)
        return E.T.mul(Fraction(1, 2), E.T.add(e, E.fdiv(st, Fraction(1), e)))

    def m_tanh(E, st, x):
        return E.fdiv(st, m_sinh(E, st, x), m_cosh(E, st, x))
    math1(['sinh'], m_sinh)
    math1(['cosh'], m_cosh)
    math1(['tanh'], m_tanh)

    def m_fmod(E, st, x, y):
        return E.frem_(st, x, y)
    math2(['fmod'], m_fmod)

    def pinned(E, st, x, kind):
        """the rounded value when the path admits only one"""
        cs = E.slice_pc(st.pc, [x == 0])
        s = z3.Solver()
        s.set('timeout', 500)
        for c in cs + E.axioms_for(cs + [x == 0]):
            s.add(c)
        w = z3.Real('conc!r')
        s.add(w == x)
        if s.check() != z3.sat:
            return None
        mv = s.model().eval(w, model_completion=True)
        if z3.is_algebraic_value(mv):
            mv = mv.approx(20)
        f = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
        k = math.floor(f + Fraction(1, 2))
        h = Fraction(1, 2)
        if E.implied(st, z3.And(x > rv(k - h), x < rv(k + h))):
            return Fraction(k)
        return None

    def rounder(E, st, x, kind):
        if x.__class__ is float:
            return x
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            if kind == 'floor':
                return Fraction(math.floor(x))
            if kind == 'ceil':
                return Fraction(math.ceil(x))
            if kind == 'trunc':
                return Fraction(int(x))
            if kind == 'round':
                h = Fraction(1, 2)
                return Fraction(math.floor(x + h) if x >= 0
                                else math.ceil(x - h))
            return Fraction(round(x))
        lst = E.T.apps.setdefault(kind, [])
        if kind in ('round', 'rint'):
            k = pinned(E, st, x, kind)
            if k is not None:
                return k
        for (a0, v) in lst:
            if E.T.same(a0, x):
                return z3.ToReal(v)
        k = E.T.fresh(kind, z3.IntSort())
        r = z3.ToReal(k)
        h = rv(Fraction(1, 2))
        ax = {'floor': z3.And(r <= x, x < r + 1),
              'ceil': z3.And(r >= x, x > r - 1),
              'trunc': z3.If(x >= 0, z3.And(r <= x, x < r + 1),
                             z3.And(r >= x, x > r - 1)),
              'round': z3.If(x >= 0, z3.And(r <= x + h, x + h < r + 1),
                             z3.And(r >= x - h, x - h > r - 1)),
              'rint': z3.And(r >= x - h, r <= x + h)}[kind]
        E.T.axioms[k.decl().name()] = [ax]
        E.T.intdef[k.get_id()] = (kind, x, k)
        lst.append((x, k))
        return r
    eng.rounder = lambda st, x, kind: rounder(eng, st, x, kind)
    for nm, kd in (('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc'),
                   ('round', 'round'), ('rint', 'rint'),
                   ('nearbyint', 'rint')):
        math1([nm, 'llvm.%s.' % nm],
              lambda E, st, x, kd=kd: rounder(E, st, x, kd))

    def m_minmax(E, st, x, y, mx):
        if x.__class__ is float or y.__class__ is float or (
                x.__class__ is Fraction and y.__class__ is Fraction):
            if x != x:
                return y
            if y != y:
                return x
            c = E.fcmp(st, 'oge' if mx else 'ole', x, y)
        else:
            c = E.fcmp(st, 'oge' if mx else 'ole', x, y)
        if c.__class__ is not int:
            k = E.decide(st, c) if E.o.get('forksel') else E.implied(st, c)
            if k is not None:
                c = int(k)
        if c.__class__ is int:
            return x if c else y
        return E.T.ite(c, x, y)
    math2(['fmax', 'llvm.maxnum.', 'llvm.maximum.'],
          lambda E, st, x, y: m_minmax(E, st, x, y, True))
    math2(['fmin', 'llvm.minnum.', 'llvm.minimum.'],
          lambda E, st, x, y: m_minmax(E, st, x, y, False))

    @prefix('_ZNSt8__detail14__cyl_bessel_j', '_ZSt12cyl_bessel_j')
    def f_bessel(E, st, fr, ins, a):
        nu, x = fv(E, st, a[0]), fv(E, st, a[1])
        x = E.T.simp(x)
        if nu.__class__ is not Fraction:
            raise EngineError('bessel function of symbolic order')
        if x.__class__ is Fraction:
            from scipy.special import jv
            return recon0(float(jv(float(nu), float(x))))
        return E.T.app('besselj%s' % nu, [x], lambda v: [v >= -1, v <= 1])

    @prefix('_ZNSt8__detail14__cyl_bessel_i', '_ZSt12cyl_bessel_i')
    def f_besseli(E, st, fr, ins, a):
        nu, x = fv(E, st, a[0]), fv(E, st, a[1])
        x = E.T.simp(x)
        if nu.__class__ is not Fraction:
            raise EngineError('bessel function of symbolic order')
        if x.__class__ is Fraction:
            from scipy.special import iv
            return recon0(float(iv(float(nu), float(x))))
        return E.T.app('besseli%s' % nu, [x], lambda v: [
            v >= (1 if nu == 0 else 0)])

    def m_copysign(E, st, x, y):
        ax = abs(x) if x.__class__ in (Fraction, float) else E.T.fabs(x)
        if y.__class__ in (Fraction, float):
            return ax if y >= 0 else E.T.neg(ax)
        if ax.__class__ is float:
            return ax if E.decide(st, y >= 0) else -ax
        return E.T.ite(y >= 0, ax, E.T.neg(ax))
    math2(['copysign', 'llvm.copysign.'], m_copysign)

    def f_fma(E, st, fr, ins, a):
        x, y, z = [fv(E, st, v) for v in a]
        return E.T.add(E.T.mul(x, y), z)
    S['@fma'] = f_fma
    P.append(('@llvm.fmuladd.', f_fma))
    P.append(('@llvm.fma.', f_fma))

    @prefix('llvm.is.fpclass.')
    def f_fpclass(E, st, fr, ins, a):
        x = fv(E, st, a[0])
        m = a[1]
        if x.__class__ is float:
            if x != x:
                return int(bool(m & 3))
            return int(bool(m & (4 if x < 0 else 512)))
        # finite: neg normal 8|16, zeros 32|64, pos 128|256
        neg, zero, pos = bool(m & 24), bool(m & 96), bool(m & 384)
        if x.__class__ is Fraction:
            return int(neg if x < 0 else zero if x == 0 else pos)
        if neg == zero == pos:
            return int(neg)
        return z3.Or(z3.And(z3.BoolVal(neg), x < 0),
                     z3.And(z3.BoolVal(zero), x == 0),
                     z3.And(z3.BoolVal(pos), x > 0))

    @stub('__isnan', 'isnan')
    def f_isnan(E, st, fr, ins, a):
        x = a[0]
        return int(x.__class__ is float and x != x)

    @stub('__isinf', 'isinf')
    def f_isinf(E, st, fr, ins, a):
        x = a[0]
        return int(x.__class__ is float and math.isinf(x))

    @stub('__finite', 'finite')
    def f_finite(E, st, fr, ins, a):
        return int(a[0].__class__ is not float)

    # bessel functions: uninterpreted with congruence and |J|<=1
    def m_j(name):
        def f(E, st, x):
            x = E.T.simp(x)
            return E.T.app(name, [tz(x)], lambda v: [v >= -1, v <= 1])
        return f
    math1(['j0'], m_j('j0'))
    math1(['j1'], m_j('j1'))

    def m_tgamma(E, st, x):
        return E.T.app('tgamma', [tz(x)], lambda v: [])
    math1(['tgamma'], m_tgamma)

    def m_cbrt(E, st, x):
        return E.T.app('cbrt', [tz(x)], lambda v: [v * v * v == tz(x)])
    math1(['cbrt'], m_cbrt)

    def m_bessel_i0(E, st, x):
        x = E.T.simp(x)
        if x.__class__ is Fraction:
            # series
            s = 0.0
            t = 1.0
            k = 0
            xf = float(x)
            while abs(t) > 1e-18 * max(1, abs(s)) and k < 400:
                s += t
                k += 1
                t *= (xf * xf / 4) / (k * k)
            return recon0(s)
        return E.T.app('i0', [x], lambda v: [v >= 1])

    @prefix('_ZN5boost4math13cyl_bessel_i', '_ZSt12cyl_bessel_i',
            'vp_bessel_i')
    def f_bi(E, st, fr, ins, a):
        nu = fv(E, st, a[0])
        if nu != 0:
            raise EngineError('cyl_bessel_i order')
        return m_bessel_i0(E, st, fv(E, st, a[1]))

    # ---- complex
    def cpx(fn):
        def f(E, st, fr, ins, a):
            re_, im = fn(E, st, fv(E, st, a[0]), fv(E, st, a[1]))
            return [re_, im]
        return f

    def c_exp(E, st, x, y):
        e = m_exp(E, st, x)
        return E.T.mul(e, E.T.cos(y)), E.T.mul(e, E.T.sin(y))
    S['@cexp'] = cpx(c_exp)

    @stub('cabs')
    def f_cabs(E, st, fr, ins, a):
        x, y = fv(E, st, a[0]), fv(E, st, a[1])
        return m_sqrt(E, st, E.T.add(E.T.mul(x, x), E.T.mul(y, y)))

    @stub('carg')
    def f_carg(E, st, fr, ins, a):
        return m_atan2(E, st, fv(E, st, a[1]), fv(E, st, a[0]))

    def c_sqrt(E, st, x, y):
        T = E.T
        y = T.simp(y)
        if y.__class__ is Fraction:
            if y == 0:
                x = T.simp(x)
                if x.__class__ is Fraction:
                    pos = x >= 0
                else:
                    pos = E.decide(st, x >= 0)
                if pos:
                    return m_sqrt0(E, x), Fraction(0)
                return Fraction(0), m_sqrt0(E, T.neg(x))
        if x.__class__ is Fraction and y.__class__ is Fraction:
            r = complex(float(x), float(y)) ** 0.5
            return recon0(r.real), recon0(r.imag)
        return T.csqrt(x, y)

    def m_sqrt0(E, x):
        x = E.T.simp(x)
        return E.T.sqrt(x)
    S['@csqrt'] = cpx(c_sqrt)

    @stub('__muldc3')
    def f_muldc3(E, st, fr, ins, a):
        x, y, u, v = [fv(E, st, q) for q in a]
        T = E.T
        return [T.sub(T.mul(x, u), T.mul(y, v)),
                T.add(T.mul(x, v), T.mul(y, u))]

    @stub('__divdc3')
    def f_divdc3(E, st, fr, ins, a):
        x, y, u, v = [fv(E, st, q) for q in a]
        T = E.T
        d = T.add(T.mul(u, u), T.mul(v, v))
        return [E.fdiv(st, T.add(T.mul(x, u), T.mul(y, v)), d),
                E.fdiv(st, T.sub(T.mul(y, u), T.mul(x, v)), d)]

    # ------------------------------------------------------------ C++ runtime
    @stub('__cxa_allocate_exception')
    def f_cae(E, st, fr, ins, a):
        return E.alloc(st, max(a[0], 64), 'heap', 'exception')

    @stub('__cxa_free_exception')
    def f_cfe(E, st, fr, ins, a):
        E.free(st, a[0])

    @stub('__cxa_throw')
    def f_throw(E, st, fr, ins, a):
        E.throw(st, a[0], a[1])
        return NORET

    @stub('__cxa_begin_catch')
    def f_bc(E, st, fr, ins, a):
        st.user.setdefault('caught', [])
        st.user['caught'] = st.user['caught'] + [st.threads[st.cur].exc[-1]]
        return a[0]

    @stub('__cxa_end_catch')
    def f_ec(E, st, fr, ins, a):
        th = st.threads[st.cur]
        if st.user.get('rethrown'):
            st.user['rethrown'] = False
        c = st.user.get('caught') or []
        if c:
            x = c[-1]
            st.user['caught'] = c[:-1]
            if th.exc and th.exc[-1] is x:
                th.exc.pop()

    @stub('__cxa_rethrow')
    def f_rt(E, st, fr, ins, a):
        th = st.threads[st.cur]
        o, t = th.exc[-1]
        E.throw(st, o, t)
        return NORET

    @stub('_Unwind_Resume')
    def f_ur(E, st, fr, ins, a):
        raise EngineError('_Unwind_Resume')

    @stub('__cxa_guard_acquire')
    def f_ga(E, st, fr, ins, a):
        v = E.load(st, a[0], I8)
        if v.__class__ is int and v:
            return 0
        return 1

    @stub('__cxa_guard_release')
    def f_gr(E, st, fr, ins, a):
        E.store_raw(st, a[0], 1, 1)

    @stub('__cxa_guard_abort')
    def f_gb(E, st, fr, ins, a):
        return None

    @stub('__cxa_atexit', 'atexit', '__cxa_thread_atexit')
    def f_ae(E, st, fr, ins, a):
        return 0

    @stub('__cxa_pure_virtual')
    def f_pv(E, st, fr, ins, a):
        raise Bug('abort', 'pure virtual call')

    @stub('__cxa_bad_cast', '_ZSt16__throw_bad_castv')
    def f_badcast(E, st, fr, ins, a):
        return std_throw(E, st, 'St8bad_cast')

    @stub('__cxa_throw_bad_array_new_length',
          '_ZSt28__throw_bad_array_new_lengthv')
    def f_tba(E, st, fr, ins, a):
        return std_throw(E, st, 'St9bad_alloc')

    def std_throw(E, st, ty):
        n = '@_ZTI' + ty
        if n not in E.m.globals_src:
            E.m.globals_src[n] = 'external constant ptr'
        ti = E.addr_of(n)
        o = E.alloc(st, 64, 'heap', 'exception')
        E.throw(st, o, ti)
        return NORET

    for fn, ty in (('_ZSt20__throw_length_errorPKc', 'St12length_error'),
                   ('_ZSt19__throw_logic_errorPKc', 'St11logic_error'),
                   ('_ZSt20__throw_out_of_rangePKc', 'St12out_of_range'),
                   ('_ZSt24__throw_out_of_range_fmtPKcz',
                    'St12out_of_range'),
                   ('_ZSt24__throw_invalid_argumentPKc',
                    'St16invalid_argument'),
                   ('_ZSt17__throw_bad_allocv', 'St9bad_alloc'),
                   ('_ZSt25__throw_bad_function_callv',
                    'St17bad_function_call'),
                   ('_ZSt20__throw_system_errori', 'St12system_error'),
                   ):
        S['@' + fn] = (lambda E, st, fr, ins, a, ty=ty:
                       std_throw(E, st, ty))

    # exception objects: contents are not modelled
    @prefix('_ZNSt16invalid_argument', '_ZNSt11logic_error',
            '_ZNSt13runtime_error', '_ZNSt12out_of_range',
            '_ZNSt9exception', '_ZNSt12length_error', '_ZNSt11range_error',
            '_ZNSt12domain_error', '_ZNSt9bad_alloc', '_ZNSt8bad_cast',
            '_ZNSt15overflow_error', '_ZNSt14overflow_error')
    def f_exc(E, st, fr, ins, a):
        return a[0] if a else None

    @stub('__dynamic_cast')
    def f_dyn(E, st, fr, ins, a):
        p, src, dst = a[0], a[1], a[2]
        if p == 0:
            return 0
        vp = E.load(st, p, irparse.PTR)
        off = s64(E.load(st, vp - 16, I64))
        ti = E.load(st, vp - 8, irparse.PTR)
        top = p + off
        found = []

        def walk(t, base):
            if t == dst:
                found.append(base)
                return
            for b, o in E.ti_bases(st, t):
                if o is None:
                    raise EngineError('virtual base in dynamic_cast')
                walk(b, base + o)
        walk(ti, top)
        return found[0] if found else 0

    # ---- streams are ignored
    @prefix('_ZNSo', '_ZStlsI', '_ZNSt8ios_base', '_ZSt16__ostream_insert',
            '_ZSt4endl', '_ZSt5flush', '_ZSt4setw', '_ZSt9setprecision',
            '_ZN5boost7numeric5ublaslsI', '_ZN4usml5typeslsE')
    def f_os(E, st, fr, ins, a):
        return a[0] if a else None

    # netCDF handles are opaque; only files that are written use them
    @stub('_ZN6netCDF5NcVarC1Ev', '_ZN6netCDF5NcVarC2Ev',
          '_ZN6netCDF5NcVarD1Ev', '_ZN6netCDF5NcVarD2Ev')
    def f_ncvar(E, st, fr, ins, a):
        return None

    @prefix('_ZNSolsEPF')
    def f_os2(E, st, fr, ins, a):
        return a[0]

    # ---- locks: sequential no-ops with misuse detection
    def lock_state(st):
        d = st.user.get('locks')
        if d is None:
            d = st.user['locks'] = {}
        return d

    @stub('pthread_mutex_init', 'pthread_mutex_destroy',
          'pthread_rwlock_init', 'pthread_rwlock_destroy',
          'pthread_cond_init', 'pthread_cond_destroy',
          'pthread_mutexattr_init', 'pthread_mutexattr_settype',
          'pthread_mutexattr_destroy', 'pthread_condattr_init',
          'pthread_condattr_setclock', 'pthread_condattr_destroy',
          'pthread_cond_broadcast', 'pthread_cond_signal',
          '_ZNSt18condition_variable10notify_oneEv',
          '_ZNSt18condition_variable10notify_allEv',
          '_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev')
    def f_pinit(E, st, fr, ins, a):
        return 0

    def other_holds(E, st, lock, write):
        """another thread holds the lock (vp_hold): the operation waits"""
        h = st.user.get('held')
        if h is None or h[0] != lock or not (write or h[1]):
            return
        E.stats['asserts'] += 1
        if not h[2]:
            raise Bug('blocked', 'waits for a lock that is held for reading')
        raise PathEnd('waits for the other thread')

    @stub('pthread_mutex_lock', 'pthread_rwlock_wrlock')
    def f_wlock(E, st, fr, ins, a):
        other_holds(E, st, a[0], True)
        d = dict(lock_state(st))
        if d.get(a[0], 0) != 0:
            raise Bug('deadlock', 'lock acquired while already held by the '
                      'same thread')
        d[a[0]] = -1
        st.user['locks'] = d
        return 0

    @stub('pthread_rwlock_rdlock')
    def f_rlock(E, st, fr, ins, a):
        other_holds(E, st, a[0], False)
        d = dict(lock_state(st))
        if d.get(a[0], 0) < 0:
            raise Bug('deadlock', 'read lock acquired while write-held by '
                      'the same thread')
        d[a[0]] = d.get(a[0], 0) + 1
        st.user['locks'] = d
        return 0

    @stub('pthread_mutex_unlock', 'pthread_rwlock_unlock')
    def f_unlock(E, st, fr, ins, a):
        d = dict(lock_state(st))
        c = d.get(a[0], 0)
        if c == 0:
            raise Bug('lock', 'unlock of a lock that is not held')
        d[a[0]] = 0 if c < 0 else c - 1
        st.user['locks'] = d
        return 0

    @stub('pthread_mutex_trylock')
    def f_trylock(E, st, fr, ins, a):
        d = dict(lock_state(st))
        if d.get(a[0], 0) != 0:
            return 16
        d[a[0]] = -1
        st.user['locks'] = d
        return 0

    @stub('_ZNSt6thread20hardware_concurrencyEv')
    def f_hw(E, st, fr, ins, a):
        return 2

    @stub('pthread_self')
    def f_self(E, st, fr, ins, a):
        return 1

    @stub('time')
    def f_time(E, st, fr, ins, a):
        return 1000

    # ------------------------------------------------------------ vp API
    def uniq(st, name):
        k = st.names.get(name, 0)
        st.names[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    @stub('vp_real')
    def vp_real(E, st, fr, ins, a):
        nm = uniq(st, E.cstr(st, a[0]))
        lo, hi = a[1], a[2]
        if lo == hi:
            st.inputs.append((nm, 'real', rv(lo), lo, hi))
            return lo
        v = z3.Real(nm)
        st.pc.append(v >= rv(lo))
        st.pc.append(v <= rv(hi))
        st.inputs.append((nm, 'real', v, lo, hi))
        r = E.T.ranges.get(nm)
        E.T.ranges[nm] = (lo, hi) if r is None else \
            (min(lo, r[0]), max(hi, r[1]))
        return v

    @stub('vp_int')
    def vp_int(E, st, fr, ins, a):
        nm = uniq(st, E.cstr(st, a[0]))
        lo, hi = s64(a[1]), s64(a[2])
        v = z3.BitVec(nm, 64)
        st.pc.append(v >= lo)
        st.pc.append(v <= hi)
        st.inputs.append((nm, 'int', v, lo, hi))
        return v

    @stub('vp_choice')
    def vp_choice(E, st, fr, ins, a):
        nm = uniq(st, E.cstr(st, a[0]))
        lo, hi = s64(a[1]), s64(a[2])
        for k in range(hi, lo, -1):
            o = st.copy()
            o.inputs.append((nm, 'choice', k, lo, hi))
            E.finish_call(o, o.frames[-1], ins, k & M64)
            E.work.append(o)
        st.inputs.append((nm, 'choice', lo, lo, hi))
        return lo & M64

    @stub('vp_param')
    def vp_param(E, st, fr, ins, a):
        nm = E.cstr(st, a[0])
        return E.o.get('params', {}).get(nm, s64(a[1])) & M64

    @stub('vp_assume')
    def vp_assume(E, st, fr, ins, a):
        c = a[0]
        if c is UNDEF:
            raise Bug('memory', 'assume on uninitialised')
        E.assume(st, c)

    @stub('vp_require')
    def vp_require(E, st, fr, ins, a):
        """like vp_assume but decides (forks) so `known` is populated"""
        c = a[0]
        if c.__class__ is int:
            if not c:
                raise PathEnd('assumption false', 'infeasible')
            return
        E.assume(st, c)

    @stub('vp_split')
    def vp_split(E, st, fr, ins, a):
        c = a[0]
        return int(c if c.__class__ is int else E.decide(st, c))

    @stub('vp_assert')
    def vp_assert(E, st, fr, ins, a):
        E.check_assert(st, a[0], E.cstr(st, a[1]))

    def eq(E, st, x, y, scale, oid):
        E.covers[oid] = E.covers.get(oid, 0) + 1
        if x is UNDEF or y is UNDEF:
            E.add_obl(st, oid + ':uninitialised value', z3.BoolVal(True),
                      'assert')
            return
        if x.__class__ is float or y.__class__ is float:
            xf = x.__class__ is float
            yf = y.__class__ is float
            same = xf and yf and (x == y or (x != x and y != y))
            E.stats['asserts'] += 1
            if same:
                E.stats['const_true'] += 1
            else:
                E.add_obl(st, oid, z3.BoolVal(True), 'assert')
            return
        if x.__class__ is Fraction and y.__class__ is Fraction:
            E.stats['asserts'] += 1
            sc = scale if scale is not None else max(1, abs(x), abs(y))
            sc = sc if sc.__class__ is Fraction else Fraction(1)
            if abs(x - y) <= Fraction(1, 10 ** 9) * abs(sc):
                E.stats['const_true'] += 1
            else:
                E.add_obl(st, oid, z3.BoolVal(True), 'assert')
            return
        if E.T.same(x, y):
            E.stats['nf_proved'] += 1
            E.stats['asserts'] += 1
            return
        x, y = tz(x), tz(y)
        d = x - y
        ad = z3.If(d >= 0, d, -d)
        tol = rv(Fraction(1, 10 ** 6))
        if scale is None:
            ax_ = z3.If(x >= 0, x, -x)
            ay_ = z3.If(y >= 0, y, -y)
            loose = z3.And(ad > tol, ad > tol * ax_, ad > tol * ay_)
        else:
            sc = tz(scale)
            loose = ad > tol * z3.If(sc >= 0, sc, -sc)
        E.add_obl(st, oid, x != y, 'assert', loose)

    @stub('vp_eq')
    def vp_eq(E, st, fr, ins, a):
        eq(E, st, a[0], a[1], None, E.cstr(st, a[2]))

    @stub('vp_eq_scale')
    def vp_eq_scale(E, st, fr, ins, a):
        eq(E, st, a[0], a[1], a[2], E.cstr(st, a[3]))

    @stub('vp_le')
    def vp_le(E, st, fr, ins, a):
        """a <= b, native replay with relative tolerance"""
        x, y = a[0], a[1]
        oid = E.cstr(st, a[2])
        if x is UNDEF or y is UNDEF:
            E.add_obl(st, oid + ':uninitialised value', z3.BoolVal(True),
                      'assert')
            return
        c = E.fcmp(st, 'ole', x, y)
        if c.__class__ is int:
            if not c and x.__class__ is Fraction and \
                    y.__class__ is Fraction and \
                    x - y <= Fraction(1, 10 ** 9) * max(1, abs(x), abs(y)):
                c = 1
            E.check_assert(st, c, oid)
            return
        n0 = len(E.obls)
        E.check_assert(st, c, oid)
        if len(E.obls) > n0:
            x, y = tz(x), tz(y)
            tol = rv(Fraction(1, 10 ** 6))
            d = x - y
            E.obls[-1].loose = z3.And(
                d > tol, d > tol * z3.If(x >= 0, x, -x),
                d > tol * z3.If(y >= 0, y, -y))

    @stub('vp_isnum')
    def vp_isnum(E, st, fr, ins, a):
        x = a[0]
        return int(x.__class__ is not float and x is not UNDEF)

    @stub('vp_cover')
    def vp_cover(E, st, fr, ins, a):
        n = 'cover:' + E.cstr(st, a[0])
        E.covers[n] = E.covers.get(n, 0) + 1

    @stub('vp_reach')
    def vp_reach(E, st, fr, ins, a):
        """a point that must be unreachable"""
        E.check_assert(st, 0, E.cstr(st, a[0]))

    @stub('vp_domain')
    def vp_domain(E, st, fr, ins, a):
        st.flags['domain'] = int(a[0] & 3)

    @stub('vp_observe')
    def vp_observe(E, st, fr, ins, a):
        st.obs.append((E.cstr(st, a[0]), a[1]))

    @stub('vp_trace')
    def vp_trace(E, st, fr, ins, a):
        print('TRACE', E.cstr(st, a[0]), a[1])

    @stub('vp_done')
    def vp_done(E, st, fr, ins, a):
        raise PathEnd('done')

    @stub('vp_lock_state')
    def vp_lock_state(E, st, fr, ins, a):
        """-1 write-held, n>0 read-held n times, 0 free"""
        return lock_state(st).get(a[0], 0) & 0xffffffff

    @stub('vp_hold')
    def vp_hold(E, st, fr, ins, a):
        st.user['held'] = (a[0], a[1] & 1, a[1] & 2)
        return 0

    @stub('vp_unhold')
    def vp_unhold(E, st, fr, ins, a):
        st.user['held'] = None

    @stub('vp_free')
    def vp_free(E, st, fr, ins, a):
        return int(lock_state(st).get(a[0], 0) == 0)

    @stub('vp_locks_held')
    def vp_locks_held(E, st, fr, ins, a):
        return sum(1 for v in lock_state(st).values() if v)

    @stub('vp_uf')
    def vp_uf(E, st, fr, ins, a):
        """an arbitrary function of up to two reals (uninterpreted), bounded"""
        nm = E.cstr(st, a[0])
        args = [E.T.simp(fv(E, st, a[1])), E.T.simp(fv(E, st, a[2]))]
        lo, hi = a[3], a[4]
        key = 'uf:' + nm
        n0 = E.T.n
        v = E.T.app(key, args, lambda v: [v >= rv(lo), v <= rv(hi)])
        ufs = st.user.get('ufs', {})
        ufs = dict(ufs)
        if v.decl().name() not in ufs:
            ufs[v.decl().name()] = (nm, v)
            st.user['ufs'] = ufs
            st.inputs.append((nm, 'uf', (v, args), lo, hi))
        return v
