"""Discharge of obligations: rational normal form first, then a portfolio of
SMT solvers run as separate processes."""
import os
import random
import re
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import z3
from terms import rv, tz, TooBig

NLSAT = '(check-sat-using (then simplify purify-arith elim-term-ite ' \
        'solve-eqs qfnra-nlsat))'


def smt2(cs, tail='(check-sat)'):
    s = z3.Solver()
    for c in cs:
        s.add(c)
    return s.sexpr() + '\n' + tail + '\n'


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


ST = Stats()


def run1(cmd, text, timeout):
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(cmd + [f.name], capture_output=True, text=True,
                           timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(f.name)
    ST.queries += 1
    ST.time += time.time() - t0
    w = out.split('\n', 1)[0].strip()
    return (w if w in ('sat', 'unsat') else 'unknown'), out


def z3cli(cs, timeout, nlsat=False):
    return run1(['z3-new', '-T:%d' % max(1, int(timeout))],
                smt2(cs, NLSAT if nlsat else '(check-sat)'), timeout + 5)[0]


def cvc5cli(cs, timeout):
    txt = '(set-logic ALL)\n' + smt2(cs)
    return run1(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--nl-cov',
                 '-q'], txt, timeout + 5)[0]


def portfolio(cs, timeout, pool):
    """first definite answer of several solvers"""
    v = z3cli(cs, min(3, timeout))
    if v != 'unknown':
        ST.by['z3'] = ST.by.get('z3', 0) + 1
        return v
    from concurrent.futures import as_completed
    futs = {pool.submit(z3cli, cs, timeout, True): 'nlsat',
            pool.submit(z3cli, cs, timeout, False): 'z3',
            pool.submit(cvc5cli, cs, timeout): 'cvc5'}
    for f in as_completed(futs):
        v = f.result()
        if v != 'unknown':
            ST.by[futs[f]] = ST.by.get(futs[f], 0) + 1
            return v
    return 'unknown'


def val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_bv_value(v):
        return v.as_signed_long()
    try:
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    except Exception:
        return None


def models(cs, inputs, n, seed, timeout=20, budget=60):
    """up to n models of cs as input dictionaries; inputs are driven to short
    random doubles inside their ranges where the constraints allow"""
    rnd = random.Random(seed)
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for c in cs:
        s.add(c)
    out = []
    t_end = time.time() + budget
    r = s.check()
    if r == z3.unknown:
        s = z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'solve-eqs',
                    'qfnra-nlsat').solver()
        s.set('timeout', int(timeout * 1000))
        for c in cs:
            s.add(c)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
    if r != z3.sat:
        return out, str(r)
    base = s.model()

    def snap(m):
        d = {}
        for nm, kind, t, lo, hi in inputs:
            if kind == 'choice':
                d[nm] = ('choice', t)
            elif kind == 'uf':
                v, args = t
                d[nm + '@%d' % len(d)] = ('uf', nm, [val(m, tz(a)) for a in
                                                     args], val(m, v))
            else:
                d[nm] = (kind, val(m, t))
        return d
    reals = [(nm, t, lo, hi) for nm, k, t, lo, hi in inputs if k == 'real'
             and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    s2 = z3.Solver()
    s2.set('timeout', 1500)
    for c in cs:
        s2.add(c)
    for i in range(n):
        if time.time() > t_end:
            break
        if i == 0 and n > 1 or True:
            m = base
            order = reals[:]
            rnd.shuffle(order)
            npush = 0
            fails = 0
            for nm, t, lo, hi in order:
                if time.time() > t_end or fails > 6:
                    break
                den = rnd.choice([4, 16, 64, 1024])
                lo_, hi_ = Fraction(lo), Fraction(hi)
                x = lo_ + (hi_ - lo_) * Fraction(rnd.randint(1, 1023), 1024)
                x = Fraction(round(x * den), den)
                if not lo_ <= x <= hi_:
                    x = Fraction(float((lo_ + hi_) / 2))
                s2.push()
                s2.add(t == rv(x))
                if s2.check() == z3.sat:
                    m = s2.model()
                    npush += 1
                else:
                    fails += 1
                    s2.pop()
            out.append(snap(m))
            if npush:
                s2.pop(npush)
    out.append(snap(base))
    return out, 'sat'


def guesses(inputs, n, seed):
    """concretised candidate inputs of one path (the path's choices, values
    inside the declared ranges), for a native replay when no solver model of a
    refuted or open obligation could be found"""
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        d = {}
        for nm, kind, t, lo, hi in inputs:
            if kind == 'choice':
                d[nm] = ('choice', t)
            elif kind == 'real' and i:
                f = float(lo) + (float(hi) - float(lo)) * rnd.random()
                d[nm] = ('real', f)
            elif kind == 'int' and i:
                d[nm] = ('int', rnd.randint(int(lo), int(hi)))
        out.append(d)
    return out


def write_input(d, path, params=None):
    with open(path, 'w') as f:
        for k, v in (params or {}).items():
            f.write('param %s %d\n' % (k, v))
        for nm, v in d.items():
            if v[0] == 'choice' or v[0] == 'int':
                f.write('int %s %d\n' % (nm, v[1]))
            elif v[0] == 'uf':
                a = [float(x) if x is not None else 0.0 for x in v[2]]
                f.write('uf %s %.17g %.17g %.17g\n' % (v[1], a[0], a[1],
                                                       float(v[3])))
            elif v[1] is not None:
                f.write('real %s %.17g\n' % (nm, float(v[1])))


def discharge(eng, ob, timeout, pool, mode='all'):
    """sets ob.status: proved / proved-tol / sat / unknown"""
    T = eng.T
    pc = eng.slice_pc(ob.pc, [ob.neg])
    cs = pc + [ob.neg]
    neg = ob.neg
    if ob.loose is not None and z3.is_not(neg) is False and \
            neg.decl().kind() == z3.Z3_OP_DISTINCT:
        # numerator form of the equality
        try:
            d = T.nadd(T.renorm(T.norm(neg.arg(0))),
                       T.renorm(T.norm(neg.arg(1))), -1)
            num = T.reduce(d[0])
            if not num:
                ob.status = 'proved'
                ob.how = 'nf'
                return
        except TooBig:
            pass
    full = cs + eng.axioms_for(cs)
    v = portfolio(full, timeout, pool)
    if v == 'unsat':
        ob.status = 'proved'
        return
    if ob.loose is not None:
        pc2 = eng.slice_pc(ob.pc, [ob.loose])
        cs2 = pc2 + [ob.loose]
        full2 = cs2 + eng.axioms_for(cs2)
        v2 = portfolio(full2, timeout, pool)
        if v2 == 'unsat':
            ob.status = 'proved-tol'
            return
        if v2 == 'sat':
            v = 'sat'
        elif v == 'sat':
            # exact inequality satisfiable, margin undecided
            v = 'unknown'
    ob.status = 'sat' if v == 'sat' else 'unknown'


def full_constraints(eng, ob):
    n = ob.loose if ob.loose is not None else ob.neg
    cs = list(ob.pc) + [n]
    return cs + eng.axioms_for(cs)
