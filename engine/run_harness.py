#!/usr/bin/env python3-vt
"""Explores one linked harness (LLVM IR text) and decides its assertions.

usage: run_harness.py JOB.json   (writes JOB.out.json)
"""
import json
import os
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3                      # noqa: E402
import irparse                 # noqa: E402
import symex                   # noqa: E402
import solve                   # noqa: E402


def demangle(names):
    if not names:
        return []
    p = subprocess.run(['c++filt'], input='\n'.join(names), text=True,
                       capture_output=True)
    return p.stdout.split('\n')[:len(names)]


def native(job, inp, extra_env=None, tol='1e-7'):
    env = dict(os.environ)
    env['VP_INPUT'] = inp
    env['VP_TOL'] = tol
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:' \
        'max_malloc_fill_size=10000000:malloc_fill_byte=255:' \
        'detect_stack_use_after_return=0:allocator_may_return_null=0'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:print_stacktrace=0'
    env.update(extra_env or {})
    try:
        p = subprocess.run([job['native']], env=env, capture_output=True,
                           text=True, errors='replace', timeout=60)
    except subprocess.TimeoutExpired:
        return 'hang', 'native run did not finish in 60 s'
    out = p.stdout
    fails = [l for l in out.split('\n') if l.startswith('VP-FAIL')]
    if p.returncode == 4:
        return 'assume', ''
    if fails:
        first = {}
        for l in fails:
            first.setdefault(l.split(' (')[0], l)
        return 'fail', '; '.join(list(first.values())[:12])
    if p.returncode != 0:
        err = [l for l in p.stderr.split('\n') if 'ERROR' in l or
               'runtime error' in l or 'terminate' in l]
        return 'fail', ('exit %d ' % p.returncode) + '; '.join(err[:2])
    return 'pass', ''


def wait_native(job):
    t0 = time.time()
    flag = job['native'] + '.done'
    while not os.path.exists(flag):
        time.sleep(0.1)
        if time.time() - t0 > 600:
            return False
    return os.path.exists(job['native'])


def main():
    job = json.load(open(sys.argv[1]))
    res = {'name': job['name'], 'error': None, 'violations': [],
           'undecided': [], 'benign': [], 'mismatch': []}
    t0 = time.time()
    eng = None
    try:
        mod = irparse.Module(open(job['ll']).read())
        opts = dict(job.get('opts', {}))
        opts['params'] = job.get('params', {})
        eng = symex.Engine(mod, opts)
        eng.run_entry('h_main')
        if not eng.stats['paths']:
            raise symex.EngineError('no path reaches the end of the harness')
        res['t_explore'] = time.time() - t0
        decide(job, eng, res)
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        if eng is not None and eng.cur_state is not None:
            try:
                res['error'] += ' at ' + ' < '.join(
                    demangle(eng.where(eng.cur_state)))[:600]
            except Exception:
                pass
        res['trace'] = traceback.format_exc()
    res['wall'] = time.time() - t0
    if eng is not None:
        res['stats'] = {k: v for k, v in eng.stats.items()}
        res['covers'] = eng.covers
        res['assumed'] = sorted(eng.assumed)
        fn = sorted(n[1:] for n in eng.executed)
        dm = demangle(fn)
        res['functions'] = sorted(set(
            d for d in dm if 'usml::' in d.split('(')[0]))
        res['queries'] = solve.ST.queries + eng.stats['feas']
        res['solver_s'] = solve.ST.time + eng.stats['feas_t']
        res['by'] = solve.ST.by
    json.dump(res, open(sys.argv[1] + '.out', 'w'), indent=1, default=str)


def decide(job, eng, res):
    timeout = job.get('query_timeout', 20)
    pool = ThreadPoolExecutor(9)
    outer = ThreadPoolExecutor(job.get('par', 3))
    obs = eng.obls
    res['obligations'] = len(obs)
    # bugs first, trivially true negations are sat by path feasibility
    ctx = {}

    def go(ob):
        pass
    proved = {}
    sat = []
    unk = []
    deadline = time.time() + job.get('decide_s', 400)
    seen_bad = {}
    # z3 objects are not thread safe: build the texts serially, solve in pool
    tasks = []
    for ob in obs:
        if ob.kind == 'bug' or z3.is_true(ob.neg):
            ob.status = 'sat'
            continue
        tasks.append(ob)
    queue = []
    for ob in tasks:
        prep(eng, ob)
    futs = []
    # concretised candidates: an assertion that already fails on one of them
    # gets a short solver budget, the replayed candidate is reported
    bad = screen(job, [ob for ob in tasks if ob.status is None and
                       ob.kind not in ('domain', 'bug')])
    for ob in tasks:
        if ob.status is None:
            short = ob.kind == 'domain' or ob.oid in bad
            futs.append((ob, outer.submit(solve_texts, ob, min(timeout, 3) if short else timeout, pool,
                                          deadline)))
    for ob, f in futs:
        ob.status = f.result()
    for ob in obs:
        st = ob.status
        proved[st] = proved.get(st, 0) + 1
    res['status'] = dict(proved)
    have_native = None
    # confirm candidates
    for i, ob in enumerate(obs):
        if ob.status in ('proved', 'proved-tol'):
            continue
        key = ob.oid
        if seen_bad.get(key, 0) >= 3:
            continue
        if ob.status == 'unknown' and ob.kind == 'domain':
            res['benign'].append('undecided ' + ob.oid)
            continue
        if have_native is None:
            have_native = wait_native(job)
            if not have_native:
                res['error'] = 'native replay build failed'
                return
        if ob.oid in bad:
            seen_bad[key] = 3
            inp, msg = bad[ob.oid]
            res['violations'].append(dict(
                id=ob.oid, replay=inp, native=msg, values={},
                where=demangle([w for w in ob.where])[:4]))
            continue
        cs = solve.full_constraints(eng, ob)
        ms, why = solve.models(cs, ob.inputs, 2 if ob.kind == 'domain' else
                               job.get('nmodels', 6),
                               job.get('seed', 1) + i,
                               timeout=timeout,
                               budget=6 if ob.kind == 'domain' else
                               40 if ob.status == 'sat' else 15)
        if ob.status == 'sat' and not ms and why == 'unsat':
            ob.status = 'proved'   # the sliced-away part was infeasible
            continue
        ok = None
        for k, d in enumerate(ms):
            inp = '%s.cex%d_%d' % (job['base'], i, k)
            solve.write_input(d, inp, job.get('params'))
            r, msg = native(job, inp, tol='1e-6')
            if r == 'fail' or r == 'hang':
                ok = (inp, msg, d)
                break
            os.unlink(inp)
        if ok is None and ob.kind not in ('domain', 'bug'):
            for k, d in enumerate(solve.guesses(
                    ob.inputs, 40, job.get('seed', 1) + i)):
                inp = '%s.gex%d_%d' % (job['base'], i, k)
                solve.write_input(d, inp, job.get('params'))
                r, msg = native(job, inp, tol='1e-6')
                if r == 'fail' and ob.oid.split(' (')[0] in msg:
                    ok = (inp, msg, d)
                    break
                os.unlink(inp)
        wh = demangle([w for w in ob.where])[:4]
        if ok:
            seen_bad[key] = seen_bad.get(key, 0) + 1
            res['violations'].append(dict(
                id=ob.oid, replay=ok[0], native=ok[1], where=wh,
                values={k: (str(v[1]) if v[0] != 'uf' else str(v[3]))
                        for k, v in list(ok[2].items())[:40]}))
        elif ob.kind == 'domain':
            res['benign'].append('domain %s in %s: native run passes' %
                                 (ob.oid, wh[0] if wh else ''))
        else:
            seen_bad[key] = seen_bad.get(key, 0) + 1
            if os.environ.get('VP_DUMP') and ob.model:
                open(os.path.join(os.environ['VP_DUMP'], 'u%d.smt2' % i),
                     'w').write('; %s\n; %s\n' % (ob.oid, [
                         {k: str(v[1]) for k, v in m.items()}
                         for m in ms[:1]]) + ob.model[0])
            res['undecided'].append(dict(
                id=ob.oid, status=ob.status, models=len(ms), why=why,
                where=wh))
    res['status'] = {}
    for ob in obs:
        res['status'][ob.status] = res['status'].get(ob.status, 0) + 1
    # witness runs: models of completed paths must pass natively
    if not res['violations']:
        wit = 0
        ends = [e for e in eng.ends if e[0] == 'end']
        step = max(1, len(ends) // job.get('witnesses', 6))
        for i in range(0, len(ends), step):
            if have_native is None:
                have_native = wait_native(job)
                if not have_native:
                    res['error'] = 'native replay build failed'
                    return
            _, pc, inputs, _ = ends[i]
            cs = list(pc)
            cs += eng.axioms_for(cs)
            ms, why = solve.models(cs, inputs, 1, job.get('seed', 1) + i,
                                   timeout=8, budget=8) if not job.get('fastwit')\
                else ([], 'skip')
            if not ms and why != 'unsat':
                ms = solve.guesses(inputs, 1, i)
            for d in ms[:1]:
                inp = '%s.wit%d' % (job['base'], i)
                solve.write_input(d, inp, job.get('params'))
                r, msg = native(job, inp, tol='1e-4')
                if r in ('fail', 'hang'):
                    res['mismatch'].append('witness %s: %s' % (inp, msg))
                else:
                    os.unlink(inp)
                    if r == 'pass':
                        wit += 1
        res['witnesses'] = wit
        res['paths_end'] = len(ends)


def screen(job, obs):
    bad = {}
    seen = {}
    for ob in obs:
        if ob.oid in bad or seen.get(ob.oid, 0) >= 3:
            continue
        n = seen[ob.oid] = seen.get(ob.oid, 0) + 1
        if not wait_native(job):
            return bad
        for k, d in enumerate(solve.guesses(ob.inputs, 2, n)):
            inp = '%s.scr%d_%d' % (job['base'], len(seen), n * 4 + k)
            solve.write_input(d, inp, job.get('params'))
            r, msg = native(job, inp, tol='1e-6')
            hit = 0
            if r == 'fail':
                for o in obs:
                    if o.oid not in bad and 'VP-FAIL %s (' % o.oid in msg:
                        bad[o.oid] = (inp, msg)
                        hit = 1
            if not hit:
                os.unlink(inp)
    return bad


def prep(eng, ob):
    T = eng.T
    neg = ob.neg
    if ob.loose is not None and neg.decl().kind() == z3.Z3_OP_DISTINCT:
        if T.is_zero_diff(neg.arg(0), neg.arg(1)):
            ob.status = 'proved'
            return
    cs = eng.slice_pc(ob.pc, [neg]) + [neg]
    near = eng.near_pc(ob.pc, [neg]) + [neg]
    small = None
    if len(near) < len(cs):
        near += eng.axioms_for(near)
        small = solve.smt2(near)
    cs += eng.axioms_for(cs)
    ob.model = [solve.smt2(cs), None, small]
    if ob.loose is not None:
        cs = eng.slice_pc(ob.pc, [ob.loose]) + [ob.loose]
        cs += eng.axioms_for(cs)
        ob.model[1] = solve.smt2(cs)


def race(cmds, timeout):
    """run several solver commands on one query; first verdict wins"""
    import tempfile
    t0 = time.time()
    procs = []
    files = []
    for name, cmd, text in cmds:
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        f.write(text)
        f.close()
        files.append(f.name)
        procs.append((name, subprocess.Popen(
            cmd + [f.name], stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True)))
        solve.ST.queries += 1
    verdict = 'unknown'
    live = list(procs)
    while live and verdict == 'unknown' and time.time() - t0 < timeout + 4:
        for x in list(live):
            if x[1].poll() is not None:
                live.remove(x)
                w = x[1].stdout.read().split('\n', 1)[0].strip()
                if w in ('sat', 'unsat'):
                    verdict = w
                    solve.ST.by[x[0]] = solve.ST.by.get(x[0], 0) + 1
                    break
        else:
            time.sleep(0.01)
    for n, p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
        p.stdout.close()
    for f in files:
        os.unlink(f)
    solve.ST.time += time.time() - t0
    return verdict


def port(text, timeout, pool, deadline):
    base = text[:text.rindex('(check-sat)')]
    left = deadline - time.time()
    if left <= 1:
        return 'unknown'
    t1 = min(2, left)
    v = race([('z3', ['z3-new', '-T:%d' % max(1, int(t1))], text)], t1)
    if v != 'unknown':
        return v
    left = min(timeout, deadline - time.time())
    if left <= 1:
        return 'unknown'
    T = '-T:%d' % int(left)
    return race([
        ('nlsat', ['z3-new', T], base + solve.NLSAT + '\n'),
        ('z3', ['z3-new', T, 'smt.random_seed=7', 'smt.arith.nl.order=1'],
         text),
        ('cvc5', ['cvc5', '--tlimit=%d' % int(left * 1000), '-q'],
         '(set-logic ALL)\n' + text)], left)


def solve_texts(ob, timeout, pool, deadline):
    if ob.model[2] is not None and race(
            [('z3', ['z3-new', '-T:1'], ob.model[2])], 1) == 'unsat':
        return 'proved'
    v = port(ob.model[0], timeout, pool, deadline)
    if v == 'unsat':
        return 'proved'
    if ob.model[1] is None:
        return v
    v2 = port(ob.model[1], timeout, pool, deadline)
    if v2 == 'unsat':
        return 'proved-tol'
    return v2


if __name__ == '__main__':
    main()
