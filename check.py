#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current working tree.

1. For every contract of the property (and every variant) the verifier executes the *current source* of the function
   symbolically, turns its loops into closed forms, and discharges result, exception, frame and side obligations against
   the specification for all inputs.
2. The real code is run next to the executable specification under CPython (vacuity and engine cross-check), and any
   undischarged obligation is chased for a concrete failing input, first with the verifier's counterexample.
"""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
try:
    import z3       # noqa: F401
except ImportError:     # started with another interpreter than the verification tooling's
    os.execvp('python3-vt', ['python3-vt', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
NPROC = 8


def _prove(job):
    cid, vi, timeout = job
    from contracts import base
    from pyvc import verify
    c = base.REGISTRY[cid]
    t0 = time.time()
    try:
        r = verify.run_one(cid, c.variants[vi], REPO, timeout)
    except BaseException as e:      # a crash of the engine leaves the obligation undischarged
        r = {'contract': cid, 'time': time.time() - t0, 'called': [], 'stats': {}, 'obligations': [
            {'name': 'engine', 'ok': False, 'why': 'engine failure: %s: %s' % (type(e).__name__, e), 'time': 0}]}
    r['variant'] = vi
    return r


def _child(job, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import threading
        threading.stack_size(512 * 1024 * 1024)
        box = []
        t = threading.Thread(target=lambda: box.append(_prove(job)))
        t.start()
        t.join()
        q.put(box[0])
    except BaseException as e:
        q.put({'contract': job[0], 'variant': job[1], 'time': 0, 'called': [], 'stats': {}, 'obligations': [
            {'name': 'engine', 'ok': False, 'why': 'engine failure: %r' % (e,), 'time': 0}]})


def prove_all(jobs, hard, total=1e9):
    """run every proof job in its own process (isolated caches), NPROC at a time, with a hard limit each"""
    ctx = mp.get_context('fork')
    pending = list(jobs)
    running = []
    results = []
    start = time.time()
    while pending or running:
        if time.time() - start > total:
            hard = 0
            for j in pending:
                results.append({'contract': j[0], 'variant': j[1], 'time': 0, 'called': [], 'stats': {},
                                'obligations': [{'name': 'engine', 'ok': False, 'why': 'total time limit', 'time': 0}]})
            pending = []
        while pending and len(running) < NPROC:
            j = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(j, q))
            p.start()
            running.append((p, q, j, time.time()))
        still = []
        for p, q, j, t0 in running:
            if not q.empty():
                results.append(q.get())
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                if not q.empty():
                    results.append(q.get())
                else:
                    results.append({'contract': j[0], 'variant': j[1], 'time': time.time() - t0, 'called': [], 'stats': {},
                                    'obligations': [{'name': 'engine', 'ok': False, 'why': 'prover process died', 'time': 0}]})
            elif time.time() - t0 > hard:
                p.kill()
                results.append({'contract': j[0], 'variant': j[1], 'time': time.time() - t0, 'called': [], 'stats': {},
                                'obligations': [{'name': 'engine', 'ok': False, 'why': 'time limit', 'time': 0}]})
            else:
                still.append((p, q, j, t0))
        running = still
        time.sleep(0.02)
    return results


class Searches:
    def __init__(self, jobs, nproc):
        self.procs = []
        self.files = []
        chunks = [[] for _ in range(max(1, min(nproc, len(jobs))))]
        for i, j in enumerate(jobs):
            chunks[i % len(chunks)].append(j)
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        for ch in chunks:
            if not ch:
                continue
            f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
            json.dump(ch, f)
            f.close()
            o = tempfile.TemporaryFile('w+')
            e = tempfile.TemporaryFile('w+')
            p = subprocess.Popen([VENV, os.path.join(HERE, 'tools', 'replay.py'), 'search', f.name], stdout=o, stderr=e,
                                 env=env, cwd=tempfile.gettempdir())
            self.procs.append((p, o, e, ch))
            self.files.append(f.name)

    def results(self, limit):
        t0 = time.time()
        out = []
        for p, o, e, ch in self.procs:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            o.seek(0)
            got = [json.loads(x) for x in o.read().splitlines() if x.startswith('{')]
            out += got
            if len(got) < len(ch):
                e.seek(0)
                err = e.read()[-1500:]
                for j in ch[len(got):]:
                    out.append({'contract': j['contract'], 'variant': j['variant'], 'samples': 0, 'skipped': 0, 'fail': None,
                                'error': 'replay process ended: ' + err})
        for f in self.files:
            try:
                os.unlink(f)
            except OSError:
                pass
        return out


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    verbose = '-v' in sys.argv
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    from contracts import base
    base.load_all()
    cs = [c for c in base.REGISTRY.values() if prop in c.props and (not only or c.id in only)]
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    known = [k for k in known if k.get('property') == prop and k.get('status') == 'known']
    wit = {k['witness']: k for k in known}
    mains = [c for c in cs if c.id not in wit]
    if not mains:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, os.path.join(HERE, 'contracts')))
        return 1
    jobs = [(c, vi) for c in mains for vi in range(len(c.variants))]
    # concrete cross-check in the background
    total = 240.0 if tier == 'thorough' else 24.0
    wsum = sum(c.weight for c, _ in jobs)
    nproc = 3
    sj = [{'contract': c.id, 'variant': vi, 'seed': seed, 'seconds': max(min(0.4, 60.0 / len(jobs)), min(60 if tier == 'thorough' else 12, total * nproc / 3 * c.weight / wsum))}
          for c, vi in jobs]
    for k in known:
        if base.REGISTRY[k['witness']].prove is not None:
            sj.append({'contract': k['witness'], 'variant': 0, 'seed': 1, 'seconds': 6, 'max': 400})
    S = Searches(sj, nproc)
    tmo = 400 if tier == 'thorough' else 150
    pj = [(c.id, vi, tmo) for c, vi in jobs if c.prove]
    proofs = prove_all(pj, tmo + 60, 1800 if tier == 'thorough' else 450)
    conc = S.results(total * 3 + 120)
    lemmas = run_lemmas(prop, mains)
    bykey = {(r['contract'], r['variant']): r for r in conc}
    viol = []
    undecided = []
    nob = ndis = 0
    called = set()
    ztime = 0.0
    per = []
    for r in proofs:
        bad = [o for o in r['obligations'] if not o['ok']]
        nob += len(r['obligations'])
        ndis += len(r['obligations']) - len(bad)
        called |= set(r['called'])
        ztime += r.get('stats', {}).get('z3_time', 0.0)
        c = base.REGISTRY[r['contract']]
        per.append({'contract': r['contract'], 'variant': repr(c.variants[r['variant']]), 'obligations': len(r['obligations']),
                    'discharged': len(r['obligations']) - len(bad), 'seconds': round(r['time'], 2)})
        if verbose:
            print('%-34s %-18r %3d/%3d %6.2fs' % (r['contract'], c.variants[r['variant']], len(r['obligations']) - len(bad),
                                                 len(r['obligations']), r['time']))
            for o in bad:
                print('     FAILED', o['name'], '|', o['why'][:700])
        if bad:
            undecided.append((r, bad))
    for name, ok, why in lemmas:
        nob += 1
        ndis += bool(ok)
        if not ok:
            undecided.append(({'contract': 'lemma:' + name, 'variant': 0}, [{'name': name, 'ok': False, 'why': why}]))
        if verbose:
            print('lemma %-40s %s %s' % (name, ok, '' if ok else why[:300]))
    samples = 0
    sound = {(r['contract'], r['variant']) for r in proofs if r['obligations'] and all(o['ok'] for o in r['obligations'])}
    rounding = 0
    for r in conc:
        samples += r['samples']
        if r.get('soft') and not r['fail']:
            if (r['contract'], r['variant']) in sound:
                rounding += 1
                if verbose:
                    print('   rounding', r['contract'], r['soft']['message'][:200])
            else:
                r['fail'] = r['soft']
        if verbose:
            print('   cpython %-34s v%d samples %d skipped %d %s' % (r['contract'], r['variant'], r['samples'], r['skipped'],
                                                                   r.get('error') or (r['fail'] and r['fail']['message'][:300]) or ''))
        if r['contract'] in wit:
            k = wit[r['contract']]
            if r['fail']:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        if r['fail']:
            viol.append((r, None))
    failed_c = {(r['contract'], r['variant']) for r, _ in viol}
    # chase undischarged obligations for a failing input
    chase = [(r, bad) for r, bad in undecided if (r['contract'], r['variant']) not in failed_c]
    if chase:
        cj = []
        per_s = max(4.0, min(40.0, 120.0 / len(chase)))
        for r, bad in chase:
            if r['contract'].startswith('lemma:'):
                continue
            for rep in range(2):
                cj.append({'contract': r['contract'], 'variant': r['variant'], 'seed': seed + 1000 + rep, 'seconds': per_s,
                           'fixed': [o['counter'] for o in bad if o.get('counter')]})
        got = {}
        if cj:
            for r2 in Searches(cj, NPROC).results(per_s * len(cj) / 4 + 120):
                samples += r2['samples']
                r2['fail'] = r2['fail'] or r2.get('soft')
                if r2['fail']:
                    got[(r2['contract'], r2['variant'])] = r2
        for r, bad in chase:
            r2 = got.get((r['contract'], r['variant']))
            viol.append((r2, bad) if r2 else (r, bad))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    code = 0
    seen = set()
    for r, bad in viol:
        key = (r['contract'], r['variant'])
        if key in seen:
            continue
        seen.add(key)
        if bad is None:
            bad = [o for rr, bb in undecided if (rr['contract'], rr['variant']) == key for o in bb]
        path = os.path.join(rdir, '%s-%s-%s.json' % (prop, r['contract'].replace(':', '_').replace('/', '_'), r['variant']))
        fail = r.get('fail')
        c = base.REGISTRY.get(r['contract'])
        json.dump({'property': prop, 'contract': r['contract'], 'variant': r['variant'],
                   'variant_name': repr(c.variants[r['variant']]) if c else '',
                   'target': c.target if c else '', 'fail': fail, 'obligations': bad,
                   'replay_cmd': '%s %s/tools/replay.py file %s' % (VENV, HERE, path)}, open(path, 'w'), indent=1)
        print('contract %s %s: %s' % (r['contract'], repr(c.variants[r['variant']]) if c else '',
                                     fail['message'] if fail else '; '.join('%s: %s' % (o['name'], o['why'][:200]) for o in bad[:3])))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if fail else ' no-failing-input-found'))
        code = 1
    # vacuity guards
    if nob == 0 and any(c.prove for c in mains):
        print('no obligation was generated')
        code = 1
    if samples == 0:
        print('no sample was executed')
        code = 1
    boundeds = sorted({c.id for c in mains if not c.prove})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': nob, 'discharged': ndis,
                       'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
                       'trusted_base': TRUSTED, 'functions_under_contract': sorted({c.target for c in mains if c.prove}),
                       'functions_executed_symbolically': sorted(x for x in called if not x.startswith('specs')),
                       'contracts_used_at_calls': sorted({q for c in mains for q in c.opaque}),
                       'bounded_only': boundeds, 'cpython_samples': samples,
                       'lemmas': [n for n, _, _ in lemmas],
                       'solver_seconds': round(ztime, 2), 'per_contract': per},
          'assumptions': ASSUME + [c.note for c in mains if c.note], 'wall_s': round(time.time() - t0, 2), 'violations': len(seen)}
    if not any(c.prove for c in mains):
        ev['level'] = 'exploration'
        ev['coverage'] = {'evaluations': samples, 'distinct_nontrivial': sum(r.get('distinct', 0) for r in conc),
                          'rule': 'inputs drawn by the generators of the contracts %s from seed %d; an input is non-trivial when the code accepted it '
                                  'and its outcome was compared with the specification, distinct by its description' % (', '.join(boundeds), seed),
                          'samples': [x for r in conc for x in r.get('cases', [])][:4], 'bounded_only': boundeds}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d CPython samples, %.1f s%s' % (prop, ndis, nob, samples, time.time() - t0,
                                                                            '' if code == 0 else ', exit %d' % code))
    return code


def run_lemmas(prop, mains):
    from contracts import base
    try:
        from contracts import lemmas
    except ImportError:
        return []
    return lemmas.run(prop, REPO)


TRUSTED = ['pyvc symbolic interpreter (Python/NumPy subset semantics, cross-checked against CPython every run)',
           'pyvc term rewriter and rational-function normaliser', 'z3 4.8 (side conditions)']
ASSUME = ['floating-point arithmetic is treated as real arithmetic (decimal literals exact); rounding and overflow are not modelled',
          'array arguments of one call do not alias each other',
          'NumPy, SciPy, pandas primitives behave as their modelled contracts']

if __name__ == '__main__':
    sys.exit(main())
