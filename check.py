#!/usr/bin/env python3-vt
"""check.py PROPERTY --tier quick|thorough

Compiles the harnesses of one property together with /repo's current sources
to LLVM IR, executes them symbolically, discharges the assertions with SMT
solvers, replays counterexamples against a native build of the same sources
and writes evidence/<PROPERTY>.json.
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import Future, ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
CXX = LLVM + 'clang++'
BASE = ['-std=c++17', '-w', '-fno-access-control', '-Wno-everything',
        '-I' + HERE + '/include']
SYM = ['-O2', '-DNDEBUG', '-DVP_SYM', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
       '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
       '-ffp-contract=off', '-fno-math-errno', '-fwrapv', '-emit-llvm', '-c',
       '-fno-finite-loops', '-mllvm', '-disable-memcpy-idiom', ]
NAT = ['-O1', '-g0', '-DNDEBUG', '-fsanitize=address,undefined',
       '-fsanitize=float-cast-overflow', '-fno-sanitize=vptr,function',
       '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern',
       '-fno-math-errno']
sys.path.insert(0, HERE)
import checks          # noqa: E402

MODULES = ['ublas', 'types', 'netcdf', 'ocean', 'threads', 'beampatterns',
           'transmit', 'eigenrays', 'eigenverbs', 'biverbs', 'waveq3d',
           'wavegen', 'managed', 'platforms', 'sensors', 'rvbts']


def sh(cmd, timeout=400):
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace',
                       timeout=timeout)
    if p.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd[-4:]), p.stderr[-3000:]))
    return p.stdout


def repo_sources(spec):
    out = []
    for s in spec:
        p = os.path.join(REPO, s)
        if os.path.isdir(p):
            out += sorted(os.path.join(p, f) for f in os.listdir(p)
                          if f.endswith('.cc'))
        else:
            out.append(p)
    return out


INC = re.compile(r'^\s*#\s*include\s*[<"]usml/([^>"]+)[>"]', re.M)


def closure(src, skip=()):
    """repo .cc files reachable through headers from a harness file"""
    seen = set()
    ccs = []
    work = [src]
    while work:
        f = work.pop()
        try:
            text = open(f, errors='replace').read()
        except OSError:
            continue
        if f.startswith(HERE):
            work += [os.path.join(os.path.dirname(f), h) for h in
                     re.findall(r'^#include "(\w+\.h)"', text, re.M)
                     if h not in seen]
            seen.update(re.findall(r'^#include "(\w+\.h)"', text, re.M))
        for h in INC.findall(text):
            if h in seen:
                continue
            seen.add(h)
            p = os.path.join(REPO, h)
            work.append(p)
            cc = p[:-2] + '.cc'
            if p.endswith('.h') and os.path.exists(cc) and h not in skip:
                ccs.append(cc)
                work.append(cc)
    return sorted(set(ccs))


class Build:
    def __init__(self, work):
        self.work = work
        self.inc = os.path.join(work, 'inc')
        os.makedirs(self.inc, exist_ok=True)
        l = os.path.join(self.inc, 'usml')
        if not os.path.islink(l):
            os.symlink(REPO, l)
        self.pool = ThreadPoolExecutor(os.cpu_count() or 4)
        self.futs = {}
        self.lock = threading.Lock()

    def obj(self, src, kind, defs=()):
        key = (src, kind, tuple(defs))
        with self.lock:
            f = self.futs.get(key)
            if f is None:
                f = self.pool.submit(self._obj, src, kind, defs)
                self.futs[key] = f
        return f

    def _obj(self, src, kind, defs):
        h = hashlib.md5(repr((src, kind, defs)).encode()).hexdigest()[:10]
        out = os.path.join(self.work, '%s_%s.%s' % (
            os.path.basename(src).split('.')[0], h,
            'bc' if kind == 'sym' else 'o'))
        flags = SYM if kind == 'sym' else NAT + ['-c']
        sh([CXX] + BASE + ['-include-pch', self.pch(kind, defs)] + flags +
           list(defs) + ['-I' + self.inc, src, '-o', out])
        return out

    def pch(self, kind, defs):
        """the standard library and boost headers, compiled once per build"""
        with self.lock:
            key = ('pch', kind, tuple(defs))
            f = self.futs.get(key)
            if f is None:
                f = self.futs[key] = Future()
                mine = True
            else:
                mine = False
        if mine:
            out = os.path.join(self.work, 'pch_%s_%d.pch' % (
                kind, len(self.futs)))
            flags = [x for x in (SYM if kind == 'sym' else NAT)
                     if x not in ('-emit-llvm', '-c')]
            try:
                sh([CXX] + BASE + flags + list(defs) +
                   ['-x', 'c++-header', HERE + '/include/vp_pch.h', '-o',
                    out])
                f.set_result(out)
            except BaseException as e:
                f.set_exception(e)
        return f.result()


def symbols(bc):
    """(defined, undefined) symbol names of a bitcode file"""
    d, u = set(), set()
    for l in sh([LLVM + 'llvm-nm', '-P', bc]).splitlines():
        w = l.split()
        if len(w) >= 2:
            (u if w[1] in 'Uvw' else d).add(w[0])
    return d, u


def needed(main, libs):
    """the files that define something needed, as an archive would be linked"""
    have, want = symbols(main)
    info = [(l, symbols(l)) for l in libs]
    out = []
    more = True
    while more:
        more = False
        for l, (d, u) in info:
            if l not in out and (want - have) & d:
                out.append(l)
                have |= d
                want |= u
                more = True
    return out


def link_sym(b, tag, main, libs):
    libs = needed(main, libs)
    lib = os.path.join(b.work, tag + '.lib.bc')
    if libs:
        sh([LLVM + 'llvm-link', '-o', lib] + libs)
    ll = os.path.join(b.work, tag + '.ll')
    sh([LLVM + 'llvm-link', '-S', '-o', ll, main] +
       (['--only-needed', lib] if libs else []))
    return ll


def link_nat(b, tag, objs):
    out = os.path.join(b.work, tag + '.nat')
    try:
        sh([CXX, '-fsanitize=address,undefined', '-fuse-ld=lld'
            if os.path.exists(LLVM + 'ld.lld') else '-fuse-ld=bfd',
            '-Wl,--unresolved-symbols=ignore-all', '-Wl,--gc-sections',
            '-no-pie', '-o', out] + objs +
           ['-lpthread', '-lnetcdf_c++4', '-lnetcdf'])
    except Exception as e:
        print('native link failed: %s' % e, file=sys.stderr)
    open(out + '.done', 'w').close()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    chk = checks.CHECKS[a.prop]
    work = tempfile.mkdtemp(prefix='vp_%s_' % a.prop)
    try:
        rc = run(a, chk, work, seed, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work', work)
    sys.exit(rc)


def run(a, chk, work, seed, t0):
    b = Build(work)
    jobs = []
    for h in chk['harnesses']:
        for j in h.jobs(a.tier):
            if a.only and a.only not in j['name']:
                continue
            jobs.append(j)
    builds = {}
    for j in jobs:
        k = (j['src'], tuple(j['defs']), tuple(j.get('skip', ())))
        if k not in builds:
            src = os.path.join(HERE, 'harness', j['src'])
            libs = repo_sources(j['srcs']) if j['srcs'] is not None else \
                closure(src, k[2])
            sup = [os.path.join(HERE, 'lib', 'vp_support.cc')]
            builds[k] = dict(
                main=b.obj(src, 'sym', j['defs']),
                libs=[b.obj(s, 'sym', j['defs']) for s in libs + sup],
                nat=None, src=src, libsrc=libs)
    # native objects are queued behind the symbolic ones
    for k, d in builds.items():
        d['nat'] = [b.obj(s, 'nat', k[1]) for s in [d['src']] + d['libsrc'] +
                    [os.path.join(HERE, 'lib', 'vp_native.cc')]]
    results = []
    errors = []
    procs = []
    sem = threading.Semaphore(int(chk.get('par', 6)))
    natth = []

    def natbuild(tag, d):
        try:
            objs = [f.result() for f in d['nat']]
            link_nat(b, tag, objs)
        except Exception as e:
            errors.append('native build: %s' % e)
            open(os.path.join(b.work, tag + '.nat.done'), 'w').close()

    threads = []
    lls = {}
    tags = {}
    for n, (k, d) in enumerate(builds.items()):
        tags[k] = 'b%d' % n
        try:
            lls[k] = link_sym(b, tags[k], d['main'].result(),
                              [f.result() for f in d['libs']])
        except Exception as e:
            errors.append('build of %s: %s' % (k[0], e))
            continue
        t = threading.Thread(target=natbuild, args=(tags[k], d))
        t.start()
        natth.append(t)
    outlock = threading.Lock()

    def runjob(j):
        k = (j['src'], tuple(j['defs']), tuple(j.get('skip', ())))
        if k not in lls:
            return
        with sem:
            base = os.path.join(work, re.sub(r'\W+', '_', j['name']))
            jf = base + '.json'
            jj = dict(j)
            jj.update(ll=lls[k], native=os.path.join(work, tags[k] + '.nat'),
                      base=base, seed=seed)
            json.dump(jj, open(jf, 'w'))
            with open(base + '.log', 'w') as log:
                try:
                    subprocess.run(
                        [sys.executable, os.path.join(HERE, 'engine',
                                                      'run_harness.py'), jf],
                        stdout=log, stderr=log, timeout=j['timeout'])
                except subprocess.TimeoutExpired:
                    with outlock:
                        results.append(dict(name=j['name'], error='timeout '
                                            '%d s' % j['timeout']))
                    return
            try:
                r = json.load(open(jf + '.out'))
            except Exception:
                r = dict(name=j['name'], error='worker died: ' +
                         open(base + '.log').read()[-800:])
            r['bounds'] = j['bounds']
            r['params'] = j['params']
            with outlock:
                results.append(r)
                if a.v:
                    show(r)

    for j in sorted(jobs, key=lambda j: -j.get('weight', 1)):
        t = threading.Thread(target=runjob, args=(j,))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    for t in natth:
        t.join()
    return report(a, chk, results, errors, seed, t0)


def show(r):
    print('--', r['name'], 'err=%s' % r.get('error'), r.get('status'),
          'paths', (r.get('stats') or {}).get('paths'),
          'asserts', (r.get('stats') or {}).get('asserts'),
          'nf', (r.get('stats') or {}).get('nf_proved'),
          'wit', r.get('witnesses'), 'wall %.1f' % (r.get('wall') or 0),
          'q %s %.1fs' % (r.get('queries'), r.get('solver_s') or 0))
    for k in ('violations', 'undecided', 'mismatch', 'benign'):
        for v in r.get(k, [])[:6]:
            print('   ', k, json.dumps(v)[:700])
    if r.get('assumed'):
        print('    assumed', r['assumed'])
    if r.get('error') and r.get('trace') and os.environ.get('VP_TRACE'):
        print(r['trace'])
    sys.stdout.flush()


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) assert=(.+?) '
                         r':: (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def report(a, chk, results, errors, seed, t0):
    prop = a.prop
    kf = known(prop)
    viol = []
    knownhits = {}
    und = []
    errs = list(errors)
    for r in results:
        if r.get('error'):
            errs.append('%s: %s' % (r['name'], r['error']))
        for v in r.get('violations', []):
            hit = None
            for hn, aid, text in kf:
                if re.fullmatch(hn, r['name']) and re.fullmatch(aid, v['id']):
                    hit = text
            if hit:
                knownhits[hit] = v
            else:
                viol.append((r['name'], v))
        for u in r.get('undecided', []):
            und.append('%s: %s (%s)' % (r['name'], u['id'], u['status']))
        for m in r.get('mismatch', []):
            errs.append('%s: %s' % (r['name'], m))
    rep_dir = os.path.join(HERE, 'evidence', 'replay')
    lines = []
    vlist = []
    if viol:
        os.makedirs(rep_dir, exist_ok=True)
    for n, (name, v) in enumerate(viol):
        dst = os.path.join(rep_dir, '%s_%d.txt' % (prop, n))
        try:
            data = open(v['replay']).read()
        except OSError:
            data = ''
        with open(dst, 'w') as f:
            f.write('# property %s harness %s assertion %s\n# native: %s\n'
                    '# where: %s\n' % (prop, name, v['id'], v['native'],
                                       ' < '.join(v['where'])))
            f.write(data)
        lines.append('VIOLATION property=%s replay=%s' % (prop, dst))
        print('%s: assertion "%s" fails: %s' % (name, v['id'], v['native']))
        vlist.append('%s: %s: %s' % (name, v['id'], v['native']))
    for hn, aid, text in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    for u in und:
        print('UNDECIDED', u)
    for e in errs:
        print('ERROR', e[:1500])
    for l in lines:
        print(l)
    tot = lambda k: sum((r.get('stats') or {}).get(k, 0) for r in results)
    fns = sorted(set(f for r in results for f in r.get('functions', [])))
    by = {}
    status = {}
    for r in results:
        for k, v in (r.get('by') or {}).items():
            by[k] = by.get(k, 0) + v
        for k, v in (r.get('status') or {}).items():
            status[k] = status.get(k, 0) + v
    ev = {
        'property': prop, 'tier': a.tier, 'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation': 'bounded symbolic execution of the LLVM IR of '
            'the listed functions, compiled from /repo for this run; every '
            'assertion on every explored path decided for all values of the '
            'symbolic inputs within the stated bounds by SMT or by exact '
            'rational-function normal form',
            'violation_list': vlist,
            'known_findings': sorted(k[2] for k in kf),
            'functions_encoded': fns,
            'functions_count': len(fns),
            'bounds': {r['name']: r.get('bounds') for r in results},
            'params': {r['name']: r.get('params') for r in results},
            'paths_explored': tot('paths'),
            'ir_instructions': tot('steps'),
            'assertions_checked': tot('asserts'),
            'assertions_constant': tot('const_true'),
            'assertions_by_normal_form': tot('nf_proved'),
            'obligations_to_smt': status,
            'feasibility_queries': tot('feas'),
            'queries': sum(r.get('queries') or 0 for r in results),
            'solver_seconds': round(sum(r.get('solver_s') or 0
                                        for r in results), 2),
            'solved_by': by,
            'witness_runs_native': sum(r.get('witnesses') or 0
                                       for r in results),
            'per_harness': {r['name']: {
                'paths': (r.get('stats') or {}).get('paths'),
                'asserts': (r.get('stats') or {}).get('asserts'),
                'covers': r.get('covers'), 'status': r.get('status'),
                'wall_s': r.get('wall')} for r in results},
            'undecided': und, 'errors': errs,
            'domain_notes': sorted(set(
                b for r in results for b in r.get('benign', [])))[:40],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': chk.get('assumptions', []) + COMMON +
        ['domain assumed nonsingular: ' + x for x in sorted(set(
            x for r in results for x in r.get('assumed', [])))],
        'violations': len(viol),
    }
    ed = os.path.join(HERE, 'evidence')
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d harness runs, %d paths, %d assertions (%d nf, %s smt), '
          '%.1f s' % (prop, a.tier, len(results), tot('paths'),
                      tot('asserts'), tot('nf_proved'), status,
                      time.time() - t0))
    if viol:
        return 1
    if errs or und or not results:
        return 2
    return 0


COMMON = [
    'doubles are exact reals (rounding excluded; literals within one ulp of a '
    'short rational or multiple of pi denote that number)',
    'sin, cos, asin, exp, log, ... are fresh reals constrained by true facts '
    'of the real functions, congruent on equal arguments',
    'libstdc++ is executed from its headers; allocator, libm, exception '
    'runtime and streams are modelled in engine/stubs.py',
]

if __name__ == '__main__':
    main()
