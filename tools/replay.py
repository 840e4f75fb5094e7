"""CPython side: run the real code of /repo next to its executable specification (under /opt/venv/bin/python).

  replay.py search  JOBS.json        (list of {contract, variant, seed, seconds}; prints one JSON line per job)
  replay.py file    REPLAY.json      re-run one recorded violation; exit 1 when it still fails
"""
import ast
import copy
import importlib
import inspect
import json
import math
import os
import sys
import time
import types
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
import numpy as np  # noqa: E402
np.seterr(all='ignore')
from contracts import base  # noqa: E402
from contracts.domreal import RealDom  # noqa: E402


class Skip(Exception):
    pass


class CallTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CallTimeout()


import signal  # noqa: E402
signal.signal(signal.SIGALRM, _alarm)


def resolve(target):
    m, n = target.split(':')
    mod = importlib.import_module(m)
    if '.' not in n:
        return getattr(mod, n), None
    cn, fn = n.split('.')
    c = getattr(mod, cn)
    for k in c.__mro__:
        if fn in k.__dict__:
            v = k.__dict__[fn]
            if isinstance(v, property):
                return (v.fget, v.fset), c
            break
    return getattr(c, fn), c


def literals_of(target):
    m, n = target.split(':')
    mod = importlib.import_module(m)
    try:
        tree = ast.parse(open(mod.__file__).read())
    except OSError:
        return []
    names = n.split('.')
    out = set()
    nodes = [tree]
    for nm in names:
        nxt = []
        for t in nodes:
            nxt += [x for x in ast.walk(t) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == nm]
        nodes = nxt or nodes
    for t in nodes:
        for x in ast.walk(t):
            if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                if abs(x.value) < 1e6:
                    out.add(x.value)
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant) \
                    and isinstance(x.operand.value, (int, float)):
                out.add(-x.operand.value)
    return sorted(out)


def specfn(q):
    m, n = q.split(':')
    return getattr(importlib.import_module(m), n)


def run_call(f, args, kwargs):
    signal.setitimer(signal.ITIMER_REAL, 10)
    try:
        return ('return', f(*args, **kwargs))
    except CallTimeout:
        return ('timeout', None)
    except Skip:
        raise
    except (SystemExit, Exception) as e:
        return ('raise', type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Cmp:
    def __init__(self, tol, atol):
        self.tol, self.atol = tol, atol
        self.soft = False       # the difference found is small against the value

    def num(self, path, a, b, scale):
        a, b = complex(a), complex(b)
        if not (math.isfinite(b.real) and math.isfinite(b.imag)):
            # the specification is undefined or overflows here; a finite value from the code is not judged
            return None
        if not (math.isfinite(a.real) and math.isfinite(a.imag)):
            return '%s: code %r, specification %r' % (path, a, b)
        if abs(a - b) <= self.tol * max(abs(a), abs(b)) + 1e-12 * scale + self.atol:
            return None
        self.soft = abs(a - b) <= 0.05 * max(abs(a), abs(b))
        if b.imag == 0 and a.imag == 0:
            a, b = a.real, b.real
        return '%s: code %r, specification %r' % (path, a, b)

    def cmp(self, path, a, b, depth=0):
        if depth > 8:
            return None
        if a is b:
            return None
        if a is None or b is None:
            return '%s: code %r, specification %r' % (path, short(a), short(b))
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return None if type(a) is type(b) and a == b else '%s: code %r, specification %r' % (path, short(a), short(b))
        mod = type(b).__module__.split('.')[0]
        if mod == 'pandas' or type(a).__module__.split('.')[0] == 'pandas':
            return self.pandas(path, a, b, depth)
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return '%s: keys %s / %s' % (path, sorted(map(str, a)), sorted(map(str, b)))
            for k in b:
                r = self.cmp('%s[%r]' % (path, k), a[k], b[k], depth + 1)
                if r:
                    return r
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list) and \
                any(not isinstance(x, (int, float, complex, np.number, np.bool_)) for x in list(a) + list(b)):
            if len(a) != len(b):
                return '%s: length %d / %d' % (path, len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                r = self.cmp('%s[%d]' % (path, i), x, y, depth + 1)
                if r:
                    return r
            return None
        if isinstance(a, (int, float, complex, np.number, np.ndarray, list, bool, np.bool_)) and \
                isinstance(b, (int, float, complex, np.number, np.ndarray, list, bool, np.bool_)):
            try:
                x, y = np.asarray(a), np.asarray(b)
            except ValueError as e:
                return '%s: %s' % (path, e)
            if x.dtype.kind in 'OUSM' or y.dtype.kind in 'OUSM':
                return None if x.shape == y.shape and (x == y).all() else '%s: code %r, specification %r' % (path, short(a), short(b))
            if x.shape != y.shape:
                if x.size == 1 and y.size == 1:
                    x, y = x.reshape(()), y.reshape(())
                else:
                    return '%s: shape %s / %s' % (path, x.shape, y.shape)
            if y.size == 0:
                return None
            fin = np.abs(y[np.isfinite(y)]) if y.dtype.kind != 'b' else np.array([1.0])
            scale = float(fin.max()) if fin.size else 0.0
            for ix in np.ndindex(*y.shape):
                r = self.num(path + (str(list(ix)) if ix else ''), x[ix], y[ix], scale)
                if r:
                    return r
            return None
        if isinstance(a, types.ModuleType) or isinstance(b, types.ModuleType) or isinstance(a, type) or callable(a):
            return None if getattr(a, '__name__', 1) == getattr(b, '__name__', 2) else '%s: %r / %r' % (path, a, b)
        if hasattr(a, '__dict__') and hasattr(b, '__dict__'):
            if type(a).__name__ != type(b).__name__:
                return '%s: class %s / %s' % (path, type(a).__name__, type(b).__name__)
            return self.cmp(path + '.', vars(a), vars(b), depth + 1)
        if type(a) is type(b):
            try:
                return None if a == b else '%s: code %r, specification %r' % (path, short(a), short(b))
            except Exception:
                return None
        return '%s: code %r, specification %r' % (path, short(a), short(b))

    def pandas(self, path, a, b, depth):
        if type(a) is not type(b):
            return '%s: type %s / %s' % (path, type(a).__name__, type(b).__name__)
        if hasattr(b, 'columns'):
            if list(a.columns) != list(b.columns):
                return '%s: columns %s / %s' % (path, list(a.columns), list(b.columns))
            if len(a) != len(b):
                return '%s: rows %d / %d' % (path, len(a), len(b))
            if getattr(b, '_vc_numbered', False) and list(a.index) != list(b.index):
                return '%s: row labels %s / %s' % (path, list(a.index)[:9], list(b.index)[:9])
            for c in b.columns:
                x, y = a[c].tolist(), b[c].tolist()
                r = self.cells('%s[%s]' % (path, c), x, y)
                if r:
                    return r
            return self.cmp(path + '.attrs', dict(a.attrs), dict(b.attrs), depth + 1)
        return self.cells(path, list(a), list(b))

    def cells(self, path, x, y):
        if len(x) != len(y):
            return '%s: length %d / %d' % (path, len(x), len(y))
        nums = [abs(v) for v in y if isinstance(v, (int, float)) and math.isfinite(v)]
        scale = max(nums) if nums else 0.0
        for i, (p, q) in enumerate(zip(x, y)):
            if isinstance(p, (int, float)) and isinstance(q, (int, float)):
                if q != q and p != p:
                    continue
                if q != q or p != p:
                    return '%s row %d: code %r, specification %r' % (path, i, p, q)
                r = self.num('%s row %d' % (path, i), p, q, scale)
                if r:
                    return r
            elif not (p == q or (p is q) or (p != p and q != q)):
                return '%s row %d: code %r, specification %r' % (path, i, p, q)
        return None


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


def snapshot_state(c):
    """class attributes and module globals the call may not change (by identity and value)"""
    mods = [importlib.import_module(c.target.split(':')[0])]
    for q in c.preload:
        m = importlib.import_module(q.split(':')[0])
        if m not in mods:
            mods.append(m)
    out = {}
    for m in mods:
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, type) and v.__module__ == m.__name__:
                for a, w in list(vars(v).items()):
                    if a.startswith('__') or callable(w) or isinstance(w, (staticmethod, classmethod, property)):
                        continue
                    out[(m.__name__, k, a)] = freeze(w)
            elif not callable(v) and not isinstance(v, types.ModuleType):
                out[(m.__name__, k)] = freeze(v)
    return out


def freeze(v, d=0):
    if isinstance(v, np.ndarray):
        return ('arr', v.shape, v.tobytes()) if v.dtype.kind != 'O' else ('obj', id(v))
    if isinstance(v, (list, tuple)) and d < 4:
        return tuple(freeze(x, d + 1) for x in v)
    if isinstance(v, dict) and d < 4:
        return tuple((str(k), freeze(x, d + 1)) for k, x in v.items())
    if isinstance(v, types.ModuleType):
        if '_lineshape' in v.__name__:
            return tuple((k, freeze(x, d + 1)) for k, x in sorted(vars(v).items())
                         if not k.startswith('__') and not isinstance(x, types.ModuleType) and not callable(x)
                         and type(x).__module__.split('.')[0] not in ('netCDF4',))
        return v.__name__
    if isinstance(v, types.SimpleNamespace):
        return tuple((k, freeze(x, d + 1)) for k, x in sorted(vars(v).items()))
    if isinstance(v, (int, float, str, bool, type(None), complex)):
        return v
    return id(v)


def build(c, variant, seed, lits, fixed=None):
    d = RealDom(seed, lits, fixed=fixed)
    inp = c.build(d, variant)
    d.modifies = tuple(inp.get('modifies') or ())
    d.modifies_class = tuple((q.split(':')[0], q.split(':')[1], a) for q, a in inp.get('modifies_class', ()))
    return d, inp.get('args', []), inp.get('kwargs', {}), inp.get('ghost', [])


def args_of(d, args):
    """arguments as far as the call's frame goes: without the work areas of the receiver"""
    args = list(args)
    if d.modifies:
        o = args[0]
        args[0] = {k: v for k, v in vars(o).items() if k not in d.modifies and k in d.before}
    return args


def invoke(c, target, args, kwargs):
    f, cls = target
    if isinstance(f, tuple):
        f = f[1] if c.call == 'set' else f[0]
        return run_call(f, args, kwargs)
    if c.call == 'method' and isinstance(inspect.getattr_static(cls, c.target.split('.')[-1]), staticmethod):
        args = args[1:]
    return run_call(f, args, kwargs)


def spoil(v):
    """what a caller may do to a result it owns"""
    if isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = -7
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.reverse()
    elif isinstance(v, tuple):
        for x in v:
            spoil(x)
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v.clear()


def sample(c, variant, seed, lits, target, spec, req, history=False, fixed=None):
    """run one sample; returns None (agree), Skip raised (precondition), or (message, inputs)"""
    if history and c.hist:
        d0, a0, k0, g0 = build(c, variant, seed + 7919 * 13, lits)
        try:
            if not req or req(*(copy.deepcopy(a0) + g0), **k0):
                invoke(c, target, a0, k0)
        finally:
            d0.restore()
    d1, a1, k1, g1 = build(c, variant, seed, lits, fixed)
    log = d1.log
    try:
        if req and not req(*(list(a1) + list(g1)), **k1):
            raise Skip()
        d1.before = set(vars(a1[0])) if d1.modifies else ()
        state0 = snapshot_state(c) if c.frame else None
        if history and c.fresh:
            spoil(invoke(c, target, a1, k1)[1])
        r1 = invoke(c, target, a1, k1)
        state1 = snapshot_state(c) if c.frame else None
    finally:
        d1.restore()
    d2, a2, k2, g2 = build(c, variant, seed, lits, fixed)
    try:
        d2.before = set(vars(a2[0])) if d2.modifies else ()
        r2 = run_call(spec, list(a2) + list(g2), k2)
        state2 = snapshot_state(c) if c.frame else None
    finally:
        d2.restore()
    cmp_ = Cmp(c.tol, c.atol)
    if r2[0] == 'timeout':
        raise Skip()
    if r1[0] == 'timeout':
        return ('no result within 10 s (the specification gives %s %s)' % (r2[0], short(r2[1])), log)
    if r1[0] != r2[0]:
        if r2[0] == 'raise' and r2[1] in ('OverflowError', 'ZeroDivisionError', 'FloatingPointError'):
            raise Skip()
        return ('code %s %s, specification %s %s' % (r1[0], short(r1[1]), r2[0], short(r2[1])), log)
    if r1[0] == 'raise':
        return None if r1[1] == r2[1] else ('code raises %s, specification %s' % (r1[1], r2[1]), log)
    m = cmp_.cmp('result', r1[1], r2[1])
    if m:
        return (m, log, cmp_.soft and d1.special > 0)
    if c.frame:
        m = cmp_.cmp('arguments after the call', args_of(d1, a1), args_of(d2, a2)) or cmp_.cmp('arguments after the call', k1, k2)
        if m:
            return (m, log)
        for k in state1:
            if k in d1.modifies_class:
                continue
            if state1[k] != state0.get(k) and state1[k] != (state2 or {}).get(k):
                return ('the call changed %s' % '.'.join(k), log)
    return None


def search(job):
    c = base.REGISTRY[job['contract']]
    variant = c.variants[job['variant']]
    out = {'contract': c.id, 'variant': job['variant'], 'samples': 0, 'skipped': 0, 'fail': None, 'error': None}
    t0 = time.time()
    try:
        target = resolve(c.target)
        lits = literals_of(c.target)
        spec = specfn(c.spec)
        req = specfn(c.requires) if c.requires else None
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['fail'] = {'message': 'target missing: ' + out['error'], 'seed': 0, 'history': False, 'inputs': {}}
        return out
    i = 0
    maxn = job.get('max', 10 ** 9)
    for fx in job.get('fixed', []):
        if not fx:
            continue
        for rep in range(6):
            try:
                r = sample(c, variant, rep, lits, target, spec, req, fixed=fx)
            except Skip:
                continue
            except Exception:
                break
            out['samples'] += 1
            if r is not None:
                out['fail'] = {'message': r[0], 'seed': rep, 'history': False, 'inputs': jsonable(r[1]), 'fixed': fx,
                               'from': 'verifier counterexample'}
                return out
    while time.time() - t0 < job['seconds'] and i < maxn:
        seed = job['seed'] * 1000003 + i
        i += 1
        try:
            r = sample(c, variant, seed, lits, target, spec, req, history=(i % 4 == 0))
            out['samples'] += 1
        except Skip:
            out['skipped'] += 1
            continue
        if r is not None:
            f = {'message': r[0], 'seed': seed, 'history': (i % 4 == 0), 'inputs': jsonable(r[1])}
            if len(r) > 2 and r[2]:
                # a small difference at an extreme point (far outside the usual ranges): rounding, unless the proof fails too
                out['soft'] = out.get('soft') or f
                continue
            out['fail'] = f
            break
    out['seconds'] = round(time.time() - t0, 2)
    return out


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return repr(v)


def main():
    base.load_all()
    if sys.argv[1] == 'search':
        jobs = json.load(open(sys.argv[2]))
        for j in jobs:
            print(json.dumps(search(j)), flush=True)
        return 0
    if sys.argv[1] == 'file':
        r = json.load(open(sys.argv[2]))
        c = base.REGISTRY[r['contract']]
        f = r.get('fail')
        if not f:
            print('no failing input recorded; failed obligation(s):')
            for o in r.get('obligations', []):
                print(' ', o['name'], '-', o['why'])
            return 1
        m = sample(c, c.variants[r['variant']], f['seed'], literals_of(c.target), resolve(c.target), specfn(c.spec),
                   specfn(c.requires) if c.requires else None, f['history'], f.get('fixed'))
        print('contract %s variant %r: %s' % (c.id, c.variants[r['variant']], m[0] if m else 'agrees'))
        return 1 if m else 0
    return 2


if __name__ == '__main__':
    sys.exit(main())
