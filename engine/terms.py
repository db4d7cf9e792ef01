"""Symbolic real arithmetic: z3 Real terms, a canonical rational normal form,
and definitional treatment of sqrt / trig / exp / log / pow.

Every application of a transcendental function to a symbolic argument becomes
a fresh Real constant `f!k`; applications whose arguments are equal as rational
functions share one constant (congruence up to the normal form), and each
constant carries defining axioms that are true of the real function.
"""
import math
from fractions import Fraction
import z3
from irparse import PI, recon

R = z3.RealSort()
MAXMON = 6000
INF = float('inf')


def isconc(x):
    return x.__class__ is Fraction


_rv = {}


def rv(x):
    """z3 numeral of a Fraction"""
    r = _rv.get(x)
    if r is None:
        r = z3.RealVal(x.numerator) if x.denominator == 1 else \
            z3.Q(x.numerator, x.denominator)
        if len(_rv) < 20000:
            _rv[x] = r
    return r


def tz(x):
    return rv(x) if x.__class__ is Fraction else x


class TooBig(Exception):
    pass


class Terms:
    def __init__(self):
        self.axioms = {}       # var name -> list of z3 constraints
        self.apps = {}         # fn -> list of (argnorms, argterms, var)
        self.vfn = {}          # var name -> (fn, args)
        self.ranges = {}       # input name -> (lo, hi)
        self.taylor = False
        self.n = 0
        self.nf = {}           # term id -> (term, norm)
        self.rewrite2 = {}     # atom id -> (n, poly for atom^n)
        self.atoms = {}        # atom id -> term
        self.fresh_n = 0
        self.deps = {}
        self.base = {}
        self.abscache = {}
        self.appkey = {}
        self.axver = 0
        self.anglesum = False
        self.mono = False
        self.nonneg0 = None    # hook(y, x): True if (y, x) != (0, 0) known
        self.intdef = {}
        self.cut = 0           # replace longer normal forms by one atom
        self.cutmap = {}

    def fresh(self, base, sort=R):
        self.n += 1
        return z3.Const('%s!%d' % (base, self.n), sort)

    # ------------------------------------------------ normal form
    # poly: dict monomial(tuple of (atomid,exp)) -> Fraction
    # norm: (poly, den) with den: dict polykey -> exp, polykey = frozenset
    def pmul(self, a, b):
        if len(a) * len(b) > 40 * MAXMON:
            raise TooBig()
        out = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                if not ma:
                    m = mb
                elif not mb:
                    m = ma
                else:
                    d = dict(ma)
                    for k, e in mb:
                        d[k] = d.get(k, 0) + e
                    m = tuple(sorted(d.items()))
                c = out.get(m, 0) + ca * cb
                if c:
                    out[m] = c
                else:
                    out.pop(m, None)
        if self.rewrite2:
            out = self.reduce(out)
        if len(out) > MAXMON:
            raise TooBig()
        return out

    def reduce(self, p):
        """rewrite powers of atoms by the rules atom^n -> polynomial"""
        rw = self.rewrite2
        work = p
        for _ in range(64):
            hit = None
            for m in work:
                for k, e in m:
                    if e >= 2 and k in rw and e >= rw[k][0]:
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return work
            out = {}
            for m, c in work.items():
                kk = None
                for k, e in m:
                    if e >= 2 and k in rw and e >= rw[k][0]:
                        kk = k
                        break
                if kk is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                n, rp = rw[kk]
                d = dict(m)
                d[kk] -= n
                if d[kk] == 0:
                    del d[kk]
                base = d
                for m2, c2 in rp.items():
                    dd = dict(base)
                    for k, e in m2:
                        dd[k] = dd.get(k, 0) + e
                    mm = tuple(sorted(dd.items()))
                    v = out.get(mm, 0) + c * c2
                    if v:
                        out[mm] = v
                    else:
                        out.pop(mm, None)
                if len(out) > MAXMON:
                    raise TooBig()
            work = out
        raise TooBig()

    @staticmethod
    def padd(a, b, s=1):
        out = dict(a)
        for m, c in b.items():
            v = out.get(m, 0) + s * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    @staticmethod
    def pkey(p):
        return frozenset(p.items())

    def monic(self, p):
        """(const, poly) with poly scaled so that a canonical coeff is 1"""
        m = min(p)
        c = p[m]
        if c == 1:
            return c, p
        return c, {k: v / c for k, v in p.items()}

    def nadd(self, a, b, s=1):
        (pa, da), (pb, db) = a, b
        if not pb:
            return a
        if not pa:
            return ({m: s * c for m, c in pb.items()}, db)
        if da == db:
            return (self.padd(pa, pb, s), da)
        den = dict(da)
        for k, e in db.items():
            if den.get(k, 0) < e:
                den[k] = e
        for k, e in den.items():
            ea = e - da.get(k, 0)
            eb = e - db.get(k, 0)
            if ea:
                q = dict(k)
                for _ in range(ea):
                    pa = self.pmul(pa, q)
            if eb:
                q = dict(k)
                for _ in range(eb):
                    pb = self.pmul(pb, q)
        return (self.padd(pa, pb, s), den)

    def nmul(self, a, b):
        (pa, da), (pb, db) = a, b
        if not pa or not pb:
            return ({}, {})
        da = dict(da)
        db = dict(db)
        # cancel a numerator that equals a denominator factor
        pa = self.cancel(pa, db)
        pb = self.cancel(pb, da)
        den = dict(da)
        for k, e in db.items():
            den[k] = den.get(k, 0) + e
        return (self.pmul(pa, pb), den)

    def cancel(self, p, den):
        if not den:
            return p
        if len(p) == 1 and () in p:
            return p
        c, mp = self.monic(p)
        k = self.pkey(mp)
        if k in den:
            den[k] -= 1
            if den[k] == 0:
                del den[k]
            return {(): c}
        if len(p) <= 60:
            for dk in list(den):
                while 2 <= len(dk) <= 8 and dk in den and len(p) >= 2:
                    q = self.pdiv(p, dict(dk))
                    if q is None:
                        break
                    p = q
                    den[dk] -= 1
                    if not den[dk]:
                        del den[dk]
        # single-atom factors
        for dk in list(den):
            if len(dk) == 1:
                (m, c1), = dk
                if len(m) == 1 and m[0][1] == 1:
                    at = m[0][0]
                    while dk in den and all(
                            any(k2 == at for k2, _ in mm) for mm in p):
                        np_ = {}
                        for mm, cc in p.items():
                            d = dict(mm)
                            d[at] -= 1
                            if not d[at]:
                                del d[at]
                            np_[tuple(sorted(d.items()))] = cc
                        p = np_
                        den[dk] -= 1
                        if not den[dk]:
                            del den[dk]
        return p

    @staticmethod
    def pdiv(p, q):
        """exact quotient p/q of polynomials, or None"""
        ats = set(k for m in q for k, _ in m)
        if not ats <= set(k for m in p for k, _ in m):
            return None
        allats = sorted(set(k for m in p for k, _ in m))
        key = lambda m: tuple(dict(m).get(k, 0) for k in allats)
        lq = max(q, key=key)
        cq = q[lq]
        dq = dict(lq)
        rem = dict(p)
        out = {}
        for _ in range(80):
            if not rem:
                return out
            lr = max(rem, key=key)
            d = dict(lr)
            for k, e in dq.items():
                v = d.get(k, 0) - e
                if v < 0:
                    return None
                if v:
                    d[k] = v
                else:
                    d.pop(k)
            t = tuple(sorted(d.items()))
            c = rem[lr] / cq
            out[t] = c
            for m, cc in q.items():
                dd = dict(t)
                for k, e in m:
                    dd[k] = dd.get(k, 0) + e
                mm = tuple(sorted(dd.items()))
                v = rem.get(mm, 0) - c * cc
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
        return None

    def ninv(self, a):
        p, d = a
        num = {(): Fraction(1)}
        for k, e in d.items():
            for _ in range(e):
                num = self.pmul(num, dict(k))
        if len(p) == 1:
            # monomial: split into atoms
            (m, c), = p.items()
            den = {}
            for at, e in m:
                k = frozenset({(((at, 1),), Fraction(1))})
                den[k] = den.get(k, 0) + e
            num = {mm: v / c for mm, v in num.items()}
            num = self.cancel(num, den)
            return (num, den)
        # common monomial content
        den = {}
        com = None
        for m in p:
            d = dict(m)
            com = d if com is None else {
                k: min(e, d[k]) for k, e in com.items() if k in d}
            if not com:
                break
        if com:
            np_ = {}
            for m, v in p.items():
                d = dict(m)
                for k, e in com.items():
                    d[k] -= e
                    if not d[k]:
                        del d[k]
                np_[tuple(sorted(d.items()))] = v
            p = np_
            for k, e in com.items():
                den[frozenset({(((k, 1),), Fraction(1))})] = e
        c, mp = self.monic(p)
        num = {m: v / c for m, v in num.items()}
        den[self.pkey(mp)] = 1
        if len(num) > 1 or () not in num:
            num = self.cancel(num, den)
        return (num, den)

    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        return ({((i, 1),): Fraction(1)}, {})

    def norm(self, t):
        if t.__class__ is Fraction:
            return ({(): t} if t else {}, {})
        i = t.get_id()
        r = self.nf.get(i)
        if r is not None:
            return r[1]
        # iterative post-order to avoid deep recursion
        stack = [t]
        while stack:
            u = stack[-1]
            ui = u.get_id()
            if ui in self.nf:
                stack.pop()
                continue
            k = u.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV,
                     z3.Z3_OP_UMINUS):
                ch = u.children()
                todo = [c for c in ch if c.get_id() not in self.nf]
                if todo:
                    stack.extend(todo)
                    continue
                ns = [self.nf[c.get_id()][1] for c in ch]
                v = ns[0]
                if k == z3.Z3_OP_ADD:
                    for w in ns[1:]:
                        v = self.nadd(v, w)
                elif k == z3.Z3_OP_SUB:
                    for w in ns[1:]:
                        v = self.nadd(v, w, -1)
                elif k == z3.Z3_OP_MUL:
                    for w in ns[1:]:
                        v = self.nmul(v, w)
                elif k == z3.Z3_OP_DIV:
                    if not ns[1][0]:
                        v = self.atom(u)
                    else:
                        v = self.nmul(ns[0], self.ninv(ns[1]))
                else:
                    v = ({m: -c for m, c in v[0].items()}, v[1])
            elif z3.is_rational_value(u):
                f = Fraction(u.numerator_as_long(), u.denominator_as_long())
                v = ({(): f} if f else {}, {})
            else:
                v = self.atom(u)
            if self.cut and len(v[0]) + 4 * len(v[1]) > self.cut:
                v = self.cutoff(u, v)
            self.nf[ui] = (u, v)
            stack.pop()
        return self.nf[i][1]

    def cutoff(self, u, v):
        """an atom that stands for u: equal normal forms share one atom"""
        key = (self.pkey(v[0]), frozenset(v[1].items()))
        w = self.cutmap.get(key)
        if w is None:
            w = self.cutmap[key] = self.atom(u)
        return w

    def renorm(self, v):
        """apply current rewrite rules to a stored normal form"""
        if self.rewrite2:
            return (self.reduce(v[0]), v[1])
        return v

    def is_zero_diff(self, a, b):
        """True if a-b is identically zero as rational function"""
        if a is b:
            return True
        try:
            d = self.nadd(self.renorm(self.norm(a)),
                          self.renorm(self.norm(b)), -1)
            return not self.reduce(d[0])
        except TooBig:
            return False

    def simp(self, t):
        """Fraction if t normalises to a constant"""
        if t.__class__ is Fraction:
            return t
        try:
            p, d = self.norm(t)
        except TooBig:
            return t
        if not p:
            return Fraction(0)
        if len(p) == 1 and () in p and not d:
            return p[()]
        return t

    # ------------------------------------------------ arithmetic
    def add(self, a, b):
        if a.__class__ is Fraction:
            if b.__class__ is Fraction:
                return a + b
            if not a:
                return b
            if b.__class__ is float:
                return b
            return rv(a) + b
        if a.__class__ is float:
            if b.__class__ is float:
                return a + b
            return a
        if b.__class__ is Fraction:
            return a + rv(b) if b else a
        if b.__class__ is float:
            return b
        return a + b

    def neg(self, a):
        if a.__class__ is Fraction or a.__class__ is float:
            return -a
        if a.decl().kind() == z3.Z3_OP_UMINUS:
            return a.arg(0)
        return -a

    def sub(self, a, b):
        if a.__class__ is Fraction:
            if b.__class__ is Fraction:
                return a - b
            if b.__class__ is float:
                return -b
            if not a:
                return self.neg(b)
            return rv(a) - b
        if a.__class__ is float:
            if b.__class__ is float:
                return a - b
            return a
        if b.__class__ is Fraction:
            return a - rv(b) if b else a
        if b.__class__ is float:
            return -b
        if a.get_id() == b.get_id():
            return Fraction(0)
        return a - b

    def mul(self, a, b):
        if a.__class__ is Fraction:
            if b.__class__ is Fraction:
                return trim(a * b)
            if not a:
                if b.__class__ is float:
                    return float('nan')
                return a
            if b.__class__ is float:
                return b if a > 0 else -b
            if a == 1:
                return b
            if a == -1:
                return self.neg(b)
            return rv(a) * b
        if a.__class__ is float:
            if b.__class__ is float:
                return a * b
            if b.__class__ is Fraction:
                return self.mul(b, a)
            return float('nan')
        if b.__class__ is Fraction:
            return self.mul(b, a)
        if b.__class__ is float:
            return float('nan')
        return a * b

    def ite(self, c, a, b):
        """c z3 Bool"""
        if a is b:
            return a
        if a.__class__ is Fraction and b.__class__ is Fraction and a == b:
            return a
        if a.__class__ is float or b.__class__ is float:
            raise NotImplementedError('ite over non-finite double')
        return z3.If(c, tz(a), tz(b))

    # ------------------------------------------------ functions
    def app(self, fn, args, mk_axioms):
        """fresh constant for fn(args); returns (var, isnew)"""
        lst = self.apps.setdefault(fn, [])
        key = (fn,) + tuple(self.nfkey(x) for x in args)
        v = self.appkey.get(key)
        if v is not None:
            return v
        if len(lst) < 60:
            for (a0, v) in lst:
                if all(self.same(x, y) for x, y in zip(a0, args)):
                    self.appkey[key] = v
                    return v
        v = self.fresh(fn)
        self.appkey[key] = v
        lst.append((args, v))
        self.vfn[v.decl().name()] = (fn, args)
        ax = mk_axioms(v)
        if self.mono and fn in self.MONO:
            self.pairs(fn, args[0], v, ax)
        self.axioms[v.decl().name()] = ax
        return v

    MONO = {'exp': 1, 'asin': 1, 'atan': 1, 'tan': 1, 'acos': -1}

    def pairs(self, fn, x, v, ax):
        """order axioms between applications of a monotone function"""
        up = self.MONO[fn] > 0
        x = tz(x)
        for (a0, w) in self.apps[fn][-9:]:
            if w is v:
                continue
            y = tz(a0[0])
            lt = z3.If(x < y, v < w, z3.If(x > y, v > w, v == w)) if up \
                else z3.If(x < y, v > w, z3.If(x > y, v < w, v == w))
            if fn == 'tan':
                h = PI / 2
                lt = z3.Implies(z3.And(x > rv(-h), x < rv(h), y > rv(-h),
                                       y < rv(h)), lt)
            ax.append(lt)
            self.axver += 1
            self.axioms.setdefault(w.decl().name(), []).append(lt)

    def same(self, x, y):
        if x is y:
            return True
        if isconc(x) and isconc(y):
            return x == y
        if not isconc(x) and not isconc(y) and x.get_id() == y.get_id():
            return True
        return self.is_zero_diff(x, y)

    def lead_neg(self, t):
        """canonical sign: True if the normal form's leading coeff < 0"""
        try:
            p, d = self.norm(t)
        except TooBig:
            return False
        if not p:
            return False
        return p[min(p)] < 0

    def sqrt(self, x):
        if x.__class__ is Fraction:
            if x < 0:
                return float('nan')
            n = math.isqrt(x.numerator)
            d = math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            return recon(math.sqrt(x))
        if x.__class__ is float:
            return math.sqrt(x) if x >= 0 else float('nan')
        s = self.simp(x)
        if s.__class__ is Fraction:
            return self.sqrt(s)
        # sqrt(y*y) = |y|
        if x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and \
                x.arg(0).get_id() == x.arg(1).get_id():
            return self.fabs(x.arg(0))
        v = self.app('sqrt', [x], lambda v: [v >= 0, v * v == x])
        self.set_rw2(v, x)
        return v

    def csqrt(self, x, y):
        """principal complex square root of x + iy, y not identically 0"""
        x, y = tz(self.simp(x)), tz(self.simp(y))
        m = tz(self.sqrt(self.add(self.mul(x, x), self.mul(y, y))))
        st = {}

        def ax(v):
            st['re'] = v
            return [v >= 0]
        a = self.app('csqrt_re', [x, y], ax)
        b = self.app('csqrt_im', [x, y], lambda v: [
            a * a - v * v == x, 2 * a * v == y, a * a + v * v == m,
            z3.Implies(y == 0, v >= 0)])
        if 're' in st:
            self.axioms[a.decl().name()] += [
                a * a - b * b == x, 2 * a * b == y, a * a + b * b == m]
            self.set_rw2(a, b * b + x)
        return a, b

    def root(self, x, n):
        """positive n-th root of x > 0"""
        if n == 2:
            return self.sqrt(x)
        x = self.simp(x)
        if x.__class__ is Fraction:
            return recon0(float(x) ** (1.0 / n))

        def ax(v):
            p = v
            for _ in range(n - 1):
                p = p * v
            return [v > 0, p == x, z3.Implies(x > 1, v > 1),
                    z3.Implies(x < 1, v < 1)]
        v = self.app('root%d' % n, [x], ax)
        self.set_rw2(v, x, n)
        return v

    def set_rw2(self, v, x, n=2):
        try:
            p, d = self.norm(x)
            if not d:
                self.norm(v)
                self.rewrite2.setdefault(v.get_id(), (n, p))
        except TooBig:
            pass

    def fabs(self, x):
        if x.__class__ is Fraction or x.__class__ is float:
            return abs(x)
        x = self.simp(x)
        if x.__class__ is Fraction:
            return abs(x)
        if self.lead_neg(x):
            x = self.neg(x)
        if z3.is_const(x):
            f = self.vfn.get(x.decl().name())
            if f and f[0] in ('sqrt', 'exp'):
                return x
        k = self.nfkey(x)
        r = self.abscache.get(k)
        if r is None:
            r = self.abscache[k] = z3.If(x >= 0, x, -x)
        return r

    def nfkey(self, x):
        try:
            p, d = self.renorm(self.norm(x))
            return (frozenset(p.items()), frozenset(d.items()))
        except TooBig:
            return x.get_id()

    def sin(self, x):
        if x.__class__ is float:
            return float('nan')
        x = self.simp(x)
        if x.__class__ is Fraction:
            return exact_trig(math.sin, x)
        if self.lead_neg(x):
            return self.neg(self.sin_(self.neg(x)))
        return self.sin_(x)

    def sin_(self, x):
        return self.trigpair(x)[0]

    def trigpair(self, x):
        """returns (sin, cos) constants of a canonical-sign argument"""
        # sin(pi/2 - y) etc: shift constant multiples of pi/2 out
        y, k = self.split_quarter(x)
        if k:
            s, c = self.trigpair2(y)
            for _ in range(k % 4):
                s, c = c, self.neg(s)
            return s, c
        return self.trigpair2(x)

    def trigpair2(self, x):
        neg = self.lead_neg(x)
        if neg:
            x = self.neg(x)
        s, c = self.trigpair3(x)
        return (self.neg(s) if neg else s), c

    def trigpair3(self, x):
        """x with positive leading coefficient"""
        try:
            p, d = self.norm(x)
        except TooBig:
            return self.trigatom(x)
        if not d and len(p) == 1 and () in p:
            q = p[()] / (PI / 4)
            k = round(q)
            if abs(q - k) > Fraction(1, 10 ** 12) or k % 2 == 0:
                return exact_trig(math.sin, p[()]), exact_trig(math.cos, p[()])
            h = tz(Fraction(1, 2))
            v = self.app('sqrt', [h], lambda v: [v >= 0, v * v == h])
            self.set_rw2(v, h)
            k %= 8
            return (v if k in (1, 3) else self.neg(v),
                    v if k in (1, 7) else self.neg(v))
        if self.anglesum and not d and len(p) > 1 and len(p) <= 6:
            # sin(a + b)
            m = min(p)
            a = self.monoterm(m, p[m])
            b = self.polyterm({k: v for k, v in p.items() if k != m})
            sa, ca = self.trigpair(a)
            sb, cb = self.trigpair(b)
            return (self.add(self.mul(sa, cb), self.mul(ca, sb)),
                    self.sub(self.mul(ca, cb), self.mul(sa, sb)))
        if not d and len(p) == 1:
            (m, c), = p.items()
            if m:
                # multiples of an angle already seen
                if len(m) == 1 and m[0][1] == 1 and c.denominator == 1 and \
                        1 <= c <= 4:
                    v = self.atoms[m[0][0]]
                    f = self.vfn.get(v.decl().name()) if z3.is_const(v) \
                        else None
                    if f and f[0] in ('asin', 'acos', 'atan', 'atan2'):
                        r = self.inverse(f)
                        if r is not None:
                            return self.multiple(r, int(c))
                for c0 in self.base.get(m, ()):
                    q = c / c0
                    if q == 1:
                        return self.trigatom(x)
                    if q.denominator == 1 and q <= 6:
                        return self.multiple(
                            self.trigatom(self.monoterm(m, c0)), int(q))
                s, c_ = self.trigatom(x)
                for c0 in self.base.get(m, ()):
                    q = c0 / c
                    if q.denominator == 1 and q <= 6:
                        s0, c0_ = self.trigatom(self.monoterm(m, c0))
                        sm, cm = self.multiple((s, c_), int(q))
                        for v in (s0, c0_):
                            self.axioms[v.decl().name()] = \
                                self.axioms[v.decl().name()] + [
                                    s0 == tz(sm), c0_ == tz(cm)]
                self.base.setdefault(m, []).append(c)
                return s, c_
        return self.trigatom(x)

    def monoterm(self, m, c):
        t = c
        for at, e in m:
            for _ in range(e):
                t = self.mul(t, self.atoms[at])
        return t

    def polyterm(self, p):
        out = Fraction(0)
        for m, c in sorted(p.items()):
            out = self.add(out, self.monoterm(m, c))
        return out

    def multiple(self, sc, n):
        s, c = sc
        a, b = s, c
        for _ in range(n - 1):
            a, b = (self.add(self.mul(a, c), self.mul(b, s)),
                    self.sub(self.mul(b, c), self.mul(a, s)))
        return a, b

    def inverse(self, f):
        """(sin, cos) of an inverse function application"""
        fn, args = f
        one = Fraction(1)
        if fn == 'asin':
            s = args[0]
            return s, self.sqrt(self.sub(one, self.mul(s, s)))
        if fn == 'acos':
            c = args[0]
            return self.sqrt(self.sub(one, self.mul(c, c))), c
        if fn == 'atan':
            t = args[0]
            h = self.sqrt(self.add(one, self.mul(t, t)))
            return tz(t) / tz(h), tz(one) / tz(h)
        y, x = args
        if self.nonneg0 and self.nonneg0(y, x):
            h = self.sqrt(self.add(self.mul(y, y), self.mul(x, x)))
            if isconc(h):
                return self.mul(y, 1 / h), self.mul(x, 1 / h)
            return tz(y) / h, tz(x) / h
        return None

    def trigatom(self, x):
        s = self.app('sin', [x], lambda v: [])
        c = self.app('cos', [x], lambda v: [])
        sn = s.decl().name()
        if not self.axioms[sn]:
            ax = [s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1]
            self.axioms[sn] = ax
            self.axioms[c.decl().name()] = ax
            self.deps.setdefault(sn, []).append(c.decl().name())
            self.norm(s)
            self.norm(c)
            self.rewrite2[c.get_id()] = (2, {
                (): Fraction(1), ((s.get_id(), 2),): Fraction(-1)})
            if self.taylor:
                self.taylor_axioms(x, s, c, ax)
            # inverse-function knowledge
            x0 = x
            if x0.__class__ is not Fraction and z3.is_const(x0):
                f = self.vfn.get(x0.decl().name())
                if f:
                    self.inverse_axioms(f, s, c)
        return s, c

    def interval(self, x):
        """bounds of a polynomial of inputs with known ranges, or None"""
        if x.__class__ is Fraction:
            return x, x
        try:
            p, d = self.norm(x)
        except TooBig:
            return None
        if d:
            return None
        lo = hi = Fraction(0)
        for m, k in p.items():
            a, b = k, k
            for aid, n in m:
                at = self.atoms.get(aid)
                r = self.ranges.get(at.decl().name()) if at is not None and \
                    z3.is_const(at) else None
                if r is None:
                    return None
                for _ in range(n):
                    q = [a * r[0], a * r[1], b * r[0], b * r[1]]
                    a, b = min(q), max(q)
            lo, hi = lo + a, hi + b
        return lo, hi

    def taylor_axioms(self, x, s, c, ax):
        """sine and cosine of an argument in a narrow interval lie within
        h^3/6 of their second order expansion around the middle"""
        r = self.interval(x)
        if r is None or r[1] - r[0] > Fraction(1, 20):
            return
        m = Fraction(float((r[0] + r[1]) / 2))
        h = max(r[1] - m, m - r[0])
        e = h * h * h / 6 + Fraction(1, 10 ** 15)
        sm = Fraction(math.sin(float(m)))
        cm = Fraction(math.cos(float(m)))
        d = tz(self.sub(x, m))
        for v, f, g in ((s, sm, cm), (c, cm, -sm)):
            q = tz(f) + tz(g) * d - tz(f / 2) * d * d
            ax += [v - q <= tz(e), q - v <= tz(e)]

    def inverse_axioms(self, f, s, c):
        fn, args = f
        nm = s.decl().name()
        ax = self.axioms[nm]
        if fn == 'asin':
            ax.append(s == tz(args[0]))
            ax.append(c >= 0)
        elif fn == 'acos':
            ax.append(c == tz(args[0]))
            ax.append(s >= 0)
        elif fn == 'atan2':
            y, x = map(tz, args)
            h = self.sqrt(self.add(self.mul(y, y), self.mul(x, x)))
            ax.append(h * s == y)
            ax.append(h * c == x)
        elif fn == 'atan':
            ax.append(s == tz(args[0]) * c)
            ax.append(c > 0)

    def split_quarter(self, x):
        """x = y + k*pi/2 when the constant term of x has such a part"""
        try:
            p, d = self.norm(x)
        except TooBig:
            return x, 0
        if d:
            return x, 0
        # whole turns
        drop = [m for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and
                abs(c / (2 * PI) - round(c / (2 * PI))) < Fraction(1, 10 ** 12)
                and self.atoms[m[0][0]].decl().kind() == z3.Z3_OP_TO_REAL]
        if drop:
            p = {m: c for m, c in p.items() if m not in drop}
            x = self.polyterm(p)
            if x.__class__ is Fraction:
                x = tz(x)
        c = p.get((), None)
        if c is None:
            return x, 0
        q = c / (PI / 2)
        k = round(q)
        if k == 0 or abs(q - k) > Fraction(1, 10 ** 12):
            return x, 0
        y = self.simp(self.sub(x, c))
        return y, k

    def cos(self, x):
        if x.__class__ is float:
            return float('nan')
        x = self.simp(x)
        if x.__class__ is Fraction:
            return exact_trig(math.cos, x)
        if self.lead_neg(x):
            x = self.neg(x)
        return self.trigpair(x)[1]

    def uf1(self, fn, pyf, axf):
        def go(x):
            if x.__class__ is float:
                try:
                    return pyf(x)
                except ValueError:
                    return float('nan')
            x = self.simp(x)
            if x.__class__ is Fraction:
                try:
                    return recon0(pyf(float(x)))
                except ValueError:
                    return float('nan')
                except OverflowError:
                    return INF
            return self.app(fn, [x], lambda v: axf(v, x))
        return go


def recon0(d):
    if d.__class__ is float and abs(d) < 1e-300:
        return Fraction(0) if d == 0 else Fraction(d)
    return recon(d)


def exact_trig(f, x):
    v = f(float(x))
    for c in (Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2),
              Fraction(-1, 2)):
        if abs(v - c) < 4e-16:
            return c
    return recon(v)


def trim(q):
    if q.denominator.bit_length() > 3000 or q.numerator.bit_length() > 3000:
        try:
            return recon(float(q))
        except OverflowError:
            return q
    return q
