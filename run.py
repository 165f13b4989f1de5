#!/opt/venv/bin/python
"""run.py PID [--tier quick|thorough] [--case NAME] [--jobs N] [--replay FILE]

Decides one property by symbolic execution of /repo's current source.
exit 0: held on everything explored; 1: VIOLATION; 3: no verdict."""
import argparse
import hashlib
import importlib.util
import json
import multiprocessing as mp
import multiprocessing.connection
import os
os.environ["JOBLIB_MULTIPROCESSING"] = "0"      # worker processes run in this one
import resource
import sys
import tempfile
import time
import traceback

if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':      # the same terms in the same order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ.setdefault(v, '1')


def load_cases(pid):
    from symex import harness
    harness.CASES.clear()
    p = os.path.join(HERE, 'checks', pid + '.py')
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    spec = importlib.util.spec_from_file_location('checks_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m, list(harness.CASES)


def job(sym, real, c, params, seed, deadline, ignore):
    """One case instance: symbolic exploration, then replay / witness."""
    from symex import harness
    t0 = time.time()
    seen = set()
    harness.start_coverage(seen)
    r = harness.run_symbolic(c.fn, params, sym, seed=seed, deadline=deadline, timeout_ms=c.kw.get('timeout_ms', 4000),
                             max_paths=c.kw.get('max_paths', 4000), ignore=ignore)
    out = {'case': c.name, 'params': {k: repr(v) for k, v in params.items()}, 'functions': sorted(seen), 'verdict': r['verdict'],
           'detail': r['detail'], 'stats': r['stats'], 'bounds': r['bounds'], 'uninterpreted': r['uf'], 'ninputs': r['ninputs'],
           'reached': sorted(r['state']['reached'])}
    if r['verdict'] == 'cex':
        label, vals = r['cex']
        st, msg, ctx = harness.run_concrete(c.fn, params, real, vals, seed)
        out.update(label=label, replay_status=st, message=msg, exc=r['exc'],
                   inputs={k: (str(v) if not isinstance(v, bool) else v) for k, v in vals.items()})
        if st != 'violation':
            out['verdict'] = 'spurious'
            out['detail'] = 'counterexample for %r does not reproduce on the real code (%s %s) %s' % (label, st, msg, r['exc'] or '')
    elif r['verdict'] == 'proved' and not c.kw.get('no_witness'):
        vals, m = harness.witness(r['state'], seed)
        if vals is None:
            out['witness'] = 'none found'
        else:
            st, msg, ctx = harness.run_concrete(c.fn, params, real, vals, seed)
            out['witness'] = st
            if st == 'violation':
                lab = msg.split(':')[0]
                if lab not in ignore and not any(msg.startswith(i) for i in ignore):
                    out.update(verdict='cex', label='witness: ' + msg, message=msg, replay_status=st,
                               inputs={k: (str(v) if not isinstance(v, bool) else v) for k, v in vals.items()})
            elif st == 'harness-error':
                out.update(verdict='unsupported', detail='harness error on the real code: ' + msg)
            elif st == 'ok' and not r['uf'] and r['state']['observed'] is not None:
                try:
                    n, bad, worst = harness.compare_observed(r['state']['observed'], ctx.observed, m)
                    out['encoder_values_compared'] = n
                    out['encoder_values_differing'] = bad
                    if bad:
                        out['encoder_worst'] = worst
                except Exception as ex:
                    out['encoder_worst'] = 'comparison failed: %r' % ex
    out['wall_s'] = round(time.time() - t0, 3)
    return out


def child(conn, beat, attempt, *a):
    from symex import core
    core.BEAT = beat
    core.SIMPLE[0] = attempt > 0
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    try:
        conn.send(job(*a))
    except BaseException as ex:
        conn.send({'case': a[2].name, 'params': {k: repr(v) for k, v in a[3].items()}, 'verdict': 'error', 'detail': '%r\n%s' % (ex, traceback.format_exc()),
                   'stats': {}, 'functions': [], 'bounds': [], 'uninterpreted': [], 'wall_s': 0, 'ninputs': 0})
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    mpl = tempfile.mkdtemp(prefix='symex_mpl_')
    os.environ['MPLCONFIGDIR'] = mpl
    try:
        return run(a, t0)
    finally:
        import shutil
        shutil.rmtree(mpl, ignore_errors=True)


def run(a, t0):
    from symex import harness, loader
    with harness.quiet():
        sym, real = loader.load()
    mod, cases = load_cases(a.pid)
    if a.replay:
        d = json.load(open(a.replay))
        c = [c for c in cases if c.name == d['case']][0]
        plist = [p for p in c.quick + c.thorough if {k: repr(v) for k, v in p.items()} == d['params']]
        from fractions import Fraction
        vals = {k: (v if isinstance(v, bool) else Fraction(v)) for k, v in d['inputs'].items()}
        st, msg, _ = harness.run_concrete(c.fn, plist[0], real, vals)
        print(st, msg)
        return 1 if st == 'violation' else 0
    budget = a.budget or (getattr(mod, 'BUDGET', {}).get(a.tier) or (600 if a.tier == 'quick' else 780))
    jobs = []
    for c in cases:
        if a.case and c.name != a.case:
            continue
        ps = c.quick + (c.thorough if a.tier == 'thorough' else [])
        for p in ps:
            jobs.append((c, p))
    jobs.sort(key=lambda cp: -cp[0].kw.get('weight', 1))
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == a.pid and k.get('status') == 'known']
    results, knownhits = [], []
    queue = [(c, p, (), 0) for c, p in jobs]
    running = []
    end = t0 + budget
    while queue or running:
        while queue and len(running) < a.jobs:
            c, p, ign, att = queue.pop(0)
            beat = mp.Value('d', 0.0, lock=False)
            pc, cc = mp.Pipe(False)
            lim = c.kw.get('limit', 360 if a.tier == 'quick' else 600)
            dl = min(time.time() + lim, end)
            pr = mp.get_context('fork').Process(target=child, args=(cc, beat, att, sym, real, c, p, a.seed + 1000 * att, dl, ign))
            pr.start()
            cc.close()
            running.append((pr, pc, c, p, ign, dl + 45, beat, att))
        ready = mp.connection.wait([r[1] for r in running], timeout=1.0)
        for r in list(running):
            pr, pc, c, p, ign, kill, beat, att = r
            res = None
            if pc in ready:
                try:
                    res = pc.recv()
                except EOFError:
                    res = {'verdict': 'error', 'detail': 'worker died (memory?)'}
            elif time.time() > kill:
                pr.kill()
                res = {'verdict': 'budget', 'detail': 'killed after its time limit'}
            elif beat.value and att < 3 and time.time() - beat.value > max(20, c.kw.get('timeout_ms', 4000) / 1000 * 10):
                # z3 occasionally loops for ever in a cancelled rewriter: start the instance again
                pr.kill()
                pr.join(5)
                running.remove(r)
                queue.insert(0, (c, p, ign, att + 1))
                continue
            if res is None:
                continue
            res.setdefault('case', c.name)
            res.setdefault('params', {k: repr(v) for k, v in p.items()})
            for k, dflt in (('stats', {}), ('functions', []), ('bounds', []), ('uninterpreted', []), ('wall_s', 0), ('ninputs', 0)):
                res.setdefault(k, dflt)
            pr.join(5)
            running.remove(r)
            if res['verdict'] == 'cex':
                hit = [k for k in known if k['case'] == c.name and res['label'].startswith(k['label']) and
                       all(res['params'].get(x) == y for x, y in k.get('params', {}).items())]
                if hit:
                    knownhits.append(hit[0])
                    queue.append((c, p, tuple(ign) + (res['label'],), att))
                    continue
            results.append(res)
            if a.v:
                print('%-28s %-40s %-10s %6.1fs q=%s paths=%s %s' % (res['case'], json.dumps(res['params'])[:40], res['verdict'], res['wall_s'],
                      res['stats'].get('queries'), res['stats'].get('paths'), (res.get('detail') or res.get('message') or '')[:600]), flush=True)
                if res.get('encoder_values_differing'):
                    print('   ENCODER', res['encoder_values_differing'], res.get('encoder_worst'))
                if res.get('witness') not in (None, 'ok'):
                    print('   WITNESS', res.get('witness'))
    viol = [r for r in results if r['verdict'] == 'cex']
    incon = [r for r in results if r['verdict'] not in ('proved', 'cex')]
    write_evidence(a, mod, results, viol, incon, knownhits, time.time() - t0)
    seenk = set()
    for k in knownhits:
        key = (k['case'], k['label'])
        if key not in seenk:
            seenk.add(key)
            print('KNOWN-FINDING: property=%s %s' % (a.pid, k['what']))
    if viol:
        for r in viol[:5]:
            path = write_replay(a, r)
            print('counterexample in case %s %s: %s -- %s' % (r['case'], r['params'], r['label'], r['message']))
            print('VIOLATION property=%s replay=%s' % (a.pid, path))
        return 1
    if incon:
        for r in incon[:8]:
            print('NO VERDICT case %s %s: %s %s' % (r['case'], r['params'], r['verdict'], (r.get('detail') or '')[:800]))
        return 3
    print('property %s held: %d case instances, %d assertion + %d path queries, %.1f s' % (a.pid, len(results), sum(r['stats'].get('queries', 0) for r in results), sum(r['stats'].get('feas_queries', 0) for r in results), time.time() - t0))
    return 0


def write_replay(a, r):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([r['case'], r['params'], r['label']]).encode()).hexdigest()[:8]
    p = os.path.join(d, '%s-%s-%s.json' % (a.pid, r['case'], h))
    json.dump({'property': a.pid, 'case': r['case'], 'params': r['params'], 'label': r['label'], 'message': r['message'], 'inputs': r['inputs'],
               'how': '/verif/run.py %s --replay <this file>' % a.pid}, open(p, 'w'), indent=1)
    return p


def write_evidence(a, mod, results, viol, incon, knownhits, wall):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    tot['solver_s'] = round(tot.get('solver_s', 0), 3)
    funcs = sorted({f for r in results for f in r['functions']})
    ev = {
        'property': a.pid, 'tier': a.tier, 'seed': a.seed, 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the real functions, encoded afresh from /repo source; each case instance explores every feasible path and '
                           'z3 decides every assertion for all input values within the listed bounds (sizes, cell counts and parameter values are those listed; floats are '
                           'modelled as exact reals). Counterexamples are replayed on the unmodified code. Nothing outside the bounds is claimed.',
            'functions_encoded': funcs,
            'queries': tot.get('queries', 0), 'feasibility_queries': tot.get('feas_queries', 0), 'solver_s': tot['solver_s'],
            'paths': tot.get('paths', 0), 'assertions': tot.get('checks', 0), 'discharged_by_normal_form': tot.get('trivial', 0),
            'discharged_by_linear_abstraction': tot.get('abstracted', 0), 'unknown': tot.get('unknown', 0),
            'case_instances': [{k: r.get(k) for k in ('case', 'params', 'verdict', 'detail', 'bounds', 'ninputs', 'uninterpreted', 'witness', 'wall_s', 'reached',
                                                     'encoder_values_compared', 'encoder_values_differing', 'encoder_worst') if r.get(k) not in (None, [], '')}
                               | {'paths': r['stats'].get('paths'), 'queries': r['stats'].get('queries'), 'solver_s': round(r['stats'].get('solver_s', 0), 3)} for r in results],
            'stubs_and_models': getattr(mod, 'STUBS', []),
            'outside_bounds': getattr(mod, 'OUTSIDE', ''),
            'known_findings_hit': [k['what'] for k in knownhits],
        },
        'wall_s': round(wall, 2),
        'assumptions': ['IEEE double arithmetic is modelled as exact real arithmetic; checks allow a stated tolerance',
                        'library models: exact DFT by definition, linear scipy operators by the impulse response of the installed scipy, uninterpreted monotone exp/log/non-integer powers'] + list(getattr(mod, 'ASSUMPTIONS', [])),
        'violations': len(viol),
    }
    ev['coverage']['counterexamples'] = [{'case': r['case'], 'params': r['params'], 'label': r['label'], 'message': r['message']} for r in viol]
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
