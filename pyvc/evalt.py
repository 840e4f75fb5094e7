"""Numeric evaluation of terms (floats or mpmath)."""
import math
import mpmath
from . import terms as t_


class EvalError(Exception):
    pass


class Env:
    """vars: name->number; arrays: name->callable(*ints); apps: name->callable(*values)"""

    def __init__(self, vars=None, arrays=None, apps=None, bools=None):
        self.vars = vars or {}
        self.arrays = arrays or {}
        self.apps = apps or {}

    def copy(self):
        return Env(dict(self.vars), dict(self.arrays), dict(self.apps))


def _smooth(name, args, size_hint=None):
    """a generic smooth interpretation of an uninterpreted function"""
    s = 0.37 + (sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 97) / 31.0
    w = 0.9
    for i, a in enumerate(args):
        if callable(a):
            n = getattr(a, 'n', 3)
            v = sum(float(a(j)) * math.cos(1.0 + 0.7 * j) for j in range(int(n)))
        elif isinstance(a, bool):
            v = 1.3 if a else -0.4
        elif isinstance(a, str):
            v = (sum(ord(c) * (k + 1) for k, c in enumerate(a)) % 89) / 17.0
        else:
            v = a
        s = s + w * (i + 1) * v / (1 + abs(v) ** 0.5)
        w *= 0.83
    return 1.5 + math.sin(float(s) * 0.37)


def evalt(t, env, mp=False, memo=None):
    M = mpmath if mp else math
    if memo is None:
        memo = {}

    def cv(q):
        return mpmath.mpf(q.numerator) / q.denominator if mp else q.numerator / q.denominator

    def go(x, bvs):
        m = memo if x.h == 0 and '#' not in bvs else bvs.get('@')
        if m is None or x.op in ('num', 'bv'):
            return go1(x, bvs)
        r = m.get(x)
        if r is None:
            r = m[x] = go1(x, bvs)
        return r

    def ipow(v, e):
        if e.denominator == 1:
            n = e.numerator
            if n < 0 and v == 0:
                raise EvalError('div0')
            return v ** n
        if v < 0:
            raise EvalError('root of negative')
        if v == 0:
            if e < 0:
                raise EvalError('div0')
            return v
        return M.exp(cv(e) * M.log(v)) if mp else v ** (e.numerator / e.denominator)

    def go1(x, bvs):
        op = x.op
        if op == 'num':
            q = x.args[0]
            if q.denominator == 1:
                return q.numerator
            return cv(q)
        if op == 'var':
            n = x.args[0]
            if n in env.vars:
                return env.vars[n]
            if n == 'pi':
                return M.pi if not mp else mpmath.pi + 0
            if n in ('nan', 'inf'):
                raise EvalError('nan')
            if x in bvs:
                return bvs[x]
            raise EvalError('unbound ' + n)
        if op == 'bv':
            return bvs[x]
        if op == 'add':
            r = cv(x.args[0]) if x.args[0].denominator != 1 else x.args[0].numerator
            for k, v in x.args[1]:
                r = r + (cv(v) if v.denominator != 1 else v.numerator) * go(k, bvs)
            return r
        if op == 'mul':
            r = 1
            for b, e in x.args:
                r = r * ipow(go(b, bvs), e)
            return r
        if op == 'ite':
            return go(x.args[1], bvs) if go(x.args[0], bvs) else go(x.args[2], bvs)
        if op == 'lt0':
            return go(x.args[0], bvs) < 0
        if op == 'le0':
            return go(x.args[0], bvs) <= 0
        if op == 'eq0':
            return go(x.args[0], bvs) == 0
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'not':
            return not go(x.args[0], bvs)
        if op == 'and':
            return all(go(a, bvs) for a in x.args)
        if op == 'or':
            return any(go(a, bvs) for a in x.args)
        if op == 'sel':
            f = env.arrays.get(x.args[0])
            if f is None:
                raise EvalError('array ' + x.args[0])
            return f(*[int(go(a, bvs)) for a in x.args[1:]])
        if op == 'fn':
            n = x.args[0]
            a = [go(y, bvs) for y in x.args[1:]]
            try:
                if n == 'exp':
                    return M.exp(a[0])
                if n == 'log':
                    if a[0] <= 0:
                        raise EvalError('log of nonpositive')
                    return M.log(a[0])
                if n == 'sin':
                    return M.sin(a[0])
                if n == 'cos':
                    return M.cos(a[0])
                if n == 'arcsin':
                    if abs(a[0]) > 1:
                        raise EvalError('arcsin')
                    return M.asin(a[0])
                if n == 'atan2':
                    return M.atan2(a[0], a[1])
                if n == 'abs':
                    return abs(a[0])
                if n == 'max':
                    return max(a)
                if n == 'floor':
                    return int(M.floor(a[0]))
                if n == 'trunc':
                    return int(a[0])
                if n in ('csqrt_re', 'csqrt_im'):
                    m = M.sqrt(a[0] * a[0] + a[1] * a[1])
                    if n == 'csqrt_re':
                        return M.sqrt(max((m + a[0]) / 2, 0))
                    v = M.sqrt(max((m - a[0]) / 2, 0))
                    return v if a[1] >= 0 else -v
            except (ValueError, OverflowError, ZeroDivisionError) as e:
                raise EvalError(str(e))
            raise EvalError('fn ' + n)
        if op == 'app':
            n = x.args[0]
            a = [go(y, bvs) if isinstance(y, t_.T) else y for y in x.args[1:]]
            f = env.apps.get(n)
            if f is None:
                return _smooth(n, a)
            return f(*a)
        if op in ('sum', 'prod', 'first', 'last', 'lam'):
            n = go(x.args[0], bvs)
            b = t_.bv(x.args[2])
            body = x.args[1]

            def at(j):
                nb = dict(bvs)
                nb[b] = j
                nb['@'] = {}
                return go(body, nb)
            if op == 'lam':
                at.n = n
                return at
            n = int(n)
            if op == 'sum':
                r = 0
                for j in range(n):
                    r = r + at(j)
                return r
            if op == 'prod':
                r = 1
                for j in range(n):
                    r = r * at(j)
                return r
            if op == 'first':
                for j in range(n):
                    if at(j):
                        return j
                return max(n, 0)
            for j in range(n - 1, -1, -1):
                if at(j):
                    return j
            return -1
        if op == 'rec':
            i, n, inits, bodies, hh = x.args
            s = [go(y, bvs) for y in inits]
            for j in range(int(go(n, bvs))):
                nb = dict(bvs)
                nb['#'] = True
                nb['@'] = {}
                nb[t_.bv(hh)] = j
                for q in range(len(s)):
                    nb[t_.svar(hh, q)] = s[q]
                s = [go(bb, nb) for bb in bodies]
            return s[i]
        raise EvalError(op)
    try:
        return go(t, {})
    except (OverflowError, ZeroDivisionError) as e:
        raise EvalError(str(e))
