"""Domain of concrete random inputs: what a contract's inputs are in the CPython cross-check / replay."""
import importlib
import math
import random
import types
import numpy as np


class RealDom:
    symbolic = False

    def __init__(self, seed, literals=(), style=None, fixed=None):
        self.rng = random.Random(seed)
        self.literals = [x for x in literals if isinstance(x, (int, float)) and not isinstance(x, bool)]
        self.undo = []
        self.files = []
        self.fixed = fixed or {}
        self.log = {}
        r = self.rng.random()
        self.special = 0.0 if r < 0.35 else 0.08 if r < 0.8 else 0.3

    def _ok(self, v, sign, rng, hard):
        if sign == '+' and not v > 0 or sign == '0+' and v < 0:
            return False
        if rng is not None:
            lo, hi = rng
            span = hi - lo
            if v < lo - (0 if hard else 0.2 * span) or v > hi + (0 if hard else 0.2 * span):
                return False
        return True

    def draw(self, sign, rng, special=(), log=False, hard=False):
        r = self.rng
        lo, hi = rng if rng is not None else ((-50.0, 50.0) if sign is None else (0.05, 50.0))
        if self.special and r.random() < self.special:
            cand = list(special) + list(special) + self.literals
            if cand:
                v = float(r.choice(cand))
                if r.random() < 0.4:
                    v += r.choice([-1, 1]) * r.choice([1e-6, 1e-3, 0.05, 1.0])
                if self._ok(v, sign, rng, hard):
                    return v
        if sign == '0+' and r.random() < 0.05:
            return 0.0
        if log and lo > 0:
            return math.exp(r.uniform(math.log(lo), math.log(hi)))
        return r.uniform(lo, hi)

    def _fx(self, name, v):
        fv = self.fixed.get('vars', {})
        if name in fv:
            v = type(v)(fv[name]) if isinstance(v, (bool, int, float)) else fv[name]
        self.log[name] = v
        return v

    def real(self, name, sign=None, rng=None, special=(), log=False, hard=False, **hints):
        v = self._fx(name, self.draw(sign, rng, special, log, hard))
        return np.float64(v) if hints.get('np') else v

    def const0(self):
        return np.float64(0.0)

    def int(self, name, lo=None, hi=None, rng=None, special=(), **hints):
        if special and self.rng.random() < 0.3:
            return self._fx(name, self.rng.choice(list(special)))
        a, b = rng if rng else (lo if lo is not None else -5, hi if hi is not None else 12)
        if self.literals and self.rng.random() < self.special:
            c = [int(x) for x in self.literals if float(x).is_integer() and (lo is None or x >= lo) and (hi is None or x <= hi)]
            if c:
                return self._fx(name, self.rng.choice(c))
        return self._fx(name, self.rng.randint(a, b))

    def size(self, name, lo=0, hi=None, rng=None, **hints):
        a, b = rng if rng else (lo, hi if hi is not None else lo + 9)
        r = self.rng.random()
        v = a if r < 0.12 else a + 1 if r < 0.2 and a + 1 <= b else self.rng.randint(a, b)
        return self._fx(name, v)

    def bool(self, name):
        return self._fx(name, self.rng.random() < 0.5)

    def text(self, name, words):
        """an ASCII string: one of the words in any letter case, or another string"""
        w = self.rng.choice(list(words)) if self.rng.random() < 0.8 else \
            ''.join(self.rng.choice('abchkimstwz0123 -_') for _ in range(self.rng.randint(0, 6)))
        return self._fx(name, ''.join(self.rng.choice((c.upper(), c.lower())) for c in w))

    def field(self, name, pattern):
        """text of the pattern, every d an arbitrary digit, every n one from 1 to 9"""
        r = self.rng.random()
        f = (lambda: self.rng.choice('0123456789')) if r < 0.7 else (lambda: '9') if r < 0.8 else (lambda: '8') if r < 0.9 else (lambda: self.rng.choice('09'))
        return self._fx(name, ''.join(f() if c == 'd' else f().replace('0', '1') if c == 'n' else c for c in pattern))

    def pick(self, name, options):
        return self._fx(name, self.rng.choice(list(options)))

    def array(self, name, shape, sign=None, rng=None, dtype='R', islist=False, kind=None, special=(), log=False,
              zeros=0.0, hard=False, **hints):
        if not isinstance(shape, tuple):
            shape = (shape,)
        n = int(np.prod(shape)) if shape else 1
        r = self.rng
        if dtype == 'I':
            lo, hi = rng if rng else (0, 9)
            vals = [r.randint(lo, hi) for _ in range(n)]
            a = np.array(vals, dtype=int).reshape(shape)
        elif dtype == 'B':
            a = np.array([r.random() < 0.5 for _ in range(n)], dtype=bool).reshape(shape)
        elif dtype == 'C':
            a = np.array([complex(self.draw(None, rng), self.draw(None, rng)) for _ in range(n)]).reshape(shape)
        else:
            vals = [self.draw(sign, rng, special, log, hard) for _ in range(n)]
            if zeros:
                m = r.random()
                if m < 0.5:
                    vals = [0.0 if r.random() < zeros else v for v in vals]
            m = r.random()
            if kind in ('incr', 'decr') or (kind == 'any' and m < 0.3):
                vals = sorted(vals, reverse=(kind == 'decr'))
                if kind in ('incr', 'decr'):
                    for i in range(1, n):
                        if vals[i] == vals[i - 1]:
                            vals[i] += (1e-3 if kind == 'incr' else -1e-3)
                    vals = sorted(vals, reverse=(kind == 'decr'))
            elif m > 0.93 and n > 1:
                vals = [vals[0]] * n
            elif m > 0.85 and n > 1:
                i = r.randrange(n - 1)
                vals[i + 1] = vals[i]
            a = np.array(vals, dtype=float).reshape(shape)
        for ix, x in self.fixed.get('cells', {}).get(name, {}).items():
            ix = tuple(int(q) for q in ix.split(',')) if ix else ()
            if len(ix) == a.ndim and all(0 <= q < m for q, m in zip(ix, a.shape)):
                a[ix] = x
        self.log[name] = a.tolist()
        if islist:
            return a.tolist()
        return a

    def const(self, v):
        return v

    def constarray(self, values, dtype='R'):
        return np.array(list(values), dtype=float if dtype == 'R' else None)

    def plist(self, items):
        return list(items)

    def pdict(self, items):
        return dict(items)

    def cls(self, qual):
        m, n = qual.split(':')
        return getattr(importlib.import_module(m), n)

    def obj(self, cls, **attrs):
        c = self.cls(cls)
        o = c.__new__(c)
        o.__dict__.update(attrs)
        return o

    def ns(self, name, **attrs):
        return types.SimpleNamespace(**attrs)

    def classattr(self, qual, attr, value):
        c = self.cls(qual)
        had = attr in c.__dict__
        self.undo.append((c, attr, had, c.__dict__.get(attr)))
        type.__setattr__(c, attr, value)

    def ncfile(self, name, variables):
        """path of a NetCDF file with the given variables"""
        import os
        import tempfile
        from netCDF4 import Dataset
        path = os.path.join(tempfile.gettempdir(), 'vc_%d_%s.nc' % (os.getpid(), name))
        self.files.append(path)
        with Dataset(path, 'w') as nc:
            for k, a in variables.items():
                a = np.asarray(a)
                for q, m in enumerate(a.shape):
                    if '%s_%d' % (k, q) not in nc.dimensions:
                        nc.createDimension('%s_%d' % (k, q), m)
                nc.createVariable(k, a.dtype.str[1:], tuple('%s_%d' % (k, q) for q in range(a.ndim)))[...] = a
        return path

    def frame(self, name, rows, columns, rng=(-100.0, 1000.0), missing=0.25, **hints):
        """data frame of numbers, every one of which may be missing"""
        import pandas as pd
        r = self.rng
        gone = r.choice([0.0, missing, 0.9])
        a = pd.DataFrame({c: [float('nan') if r.random() < gone else round(r.uniform(*rng), 1) for _ in range(rows)] for c in columns}, dtype=float)
        self.log[name] = a.to_dict('list')
        return a

    def setglobal(self, mod, name, value):
        m = importlib.import_module(mod)
        had = name in m.__dict__
        self.undo.append((m, name, had, m.__dict__.get(name)))
        setattr(m, name, value)

    def restore(self):
        for o, a, had, v in reversed(self.undo):
            if had:
                setattr(o, a, v)
            elif a in o.__dict__:
                delattr(o, a)
        self.undo = []
        for f in self.files:
            import os
            os.path.exists(f) and os.remove(f)
        self.files = []

    def add(self, a, b):
        return a + b

    def sub(self, a, b):
        return a - b
