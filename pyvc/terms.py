"""Hash-consed terms of the specification logic: real arithmetic with exp/log/..., arrays as
functions of integer indices, bounded sums, first/last-index operators, and booleans.

The constructors put every term in a light normal form (sums are linear combinations, products are
power products, exponentials are products of exp(monomial)^rational, logs of products are sums)."""
import math
from fractions import Fraction as Q
import sys
sys.setrecursionlimit(200000)

_TAB = {}
_CNT = [0]


class T:
    __slots__ = ('op', 'args', 'id', 'h', 'sort', '_fv', '_hash', '__weakref__')

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        if self is o:
            return True
        return NotImplemented if not isinstance(o, (T,)) else False

    # arithmetic sugar
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, o): return power(s, lift(o))
    def __rpow__(s, o): return power(lift(o), s)
    def __repr__(s): return show(s)


def _mk(op, args, sort, h=0):
    key = (op, args)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.h = h
        t._fv = None
        _CNT[0] += 1
        t.id = _CNT[0]
        _TAB[key] = t
    return t


def _h(*ts):
    m = 0
    for t in ts:
        if isinstance(t, T) and t.h > m:
            m = t.h
    return m


SIGN = {}      # variable / array name -> '+', '0+'
NUMCACHE = {}


def num(q):
    if isinstance(q, bool):
        q = int(q)
    if isinstance(q, float):
        q = Q(repr(q)) if q == q and q not in (float('inf'), float('-inf')) else None
        if q is None:
            raise ValueError('nan/inf literal')
    if isinstance(q, int):
        q = Q(q)
    t = NUMCACHE.get(q)
    if t is None:
        t = _mk('num', (q,), 'I' if q.denominator == 1 else 'R')
        NUMCACHE[q] = t
    return t


ZERO = num(0)
ONE = num(1)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (int, float, Q)):
        return num(x)
    try:
        import numbers
        if isinstance(x, numbers.Real):
            return num(float(x))
    except Exception:
        pass
    raise TypeError('cannot lift %r' % (x,))


def var(name, sort='R', sign=None):
    if sign:
        SIGN[name] = sign
    return _mk('var', (name, sort), sort)


_FRESH = [0]


def fresh(prefix='v', sort='R'):
    _FRESH[0] += 1
    if prefix == 'k' and sort == 'I':
        SIGN['k!%d' % _FRESH[0]] = '0+'      # index of a bounded operator
    return var('%s!%d' % (prefix, _FRESH[0]), sort)


def bv(h):
    return _mk('bv', (h,), 'I', h)


def sel(arr, *idx, sort='R'):
    idx = tuple(lift(i) for i in idx)
    for p, i in enumerate(idx):
        c, a, b = _index_ite(i)
        if c is not None:
            return ite(c, sel(arr, *(idx[:p] + (a,) + idx[p + 1:]), sort=sort), sel(arr, *(idx[:p] + (b,) + idx[p + 1:]), sort=sort))
    return _mk('sel', (arr,) + idx, sort, _h(*idx))


def _index_ite(i):
    """(condition, index if it holds, index otherwise) for an index with a conditional part"""
    if i.op == 'ite':
        return i.args
    if i.op == 'add':
        for k, v in i.args[1]:
            if k.op == 'ite':
                r = sub(i, scale(v, k))
                return k.args[0], add(r, scale(v, k.args[1])), add(r, scale(v, k.args[2]))
    return None, None, None


def app(name, *args, sort='R'):
    return _mk('app', (name,) + args, sort, _h(*args))


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')
PI = var('pi', 'R', '+')
NAN = var('nan', 'R')
INF = var('inf', 'R', '+')


def isnum(t):
    return t.op == 'num'


def nval(t):
    return t.args[0]


# ---------------------------------------------------------------- linear combos
def _lin(t):
    """-> (const, dict term->coef)"""
    if t.op == 'num':
        return t.args[0], {}
    if t.op == 'add':
        return t.args[0], dict(t.args[1])
    return Q(0), {t: Q(1)}


def _mklin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))
    if not items:
        return num(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    sort = 'I' if c.denominator == 1 and all(k.sort == 'I' and v.denominator == 1 for k, v in items) else 'R'
    return _mk('add', (c, items), sort, _h(*[k for k, _ in items]))


def add(*ts):
    c = Q(0)
    d = {}
    for t in ts:
        if t.op == 'num':
            c += t.args[0]
        elif t.op == 'add':
            c += t.args[0]
            for k, v in t.args[1]:
                d[k] = d.get(k, 0) + v
        else:
            d[t] = d.get(t, 0) + 1
    return _mklin(Q(c), d)


def scale(q, t):
    q = Q(q)
    if q == 0:
        return ZERO
    if q == 1:
        return t
    c, d = _lin(t)
    return _mklin(c * q, {k: v * q for k, v in d.items()})


def neg(t): return scale(-1, t)
def sub(a, b): return ZERO if a is b else add(a, neg(b))


# ---------------------------------------------------------------- sign
_SGN = {}


def sign(t):
    """'+', '-', '0+', '0-', '0' or None, from declared signs only"""
    r = _SGN.get(t)
    if r is None and t not in _SGN:
        r = _sign(t)
        _SGN[t] = r
    return r


def clear_sign_cache():
    _SGN.clear()


_NEGS = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0', None: None}


def _sign(t):
    op = t.op
    if op == 'num':
        v = t.args[0]
        return '+' if v > 0 else '-' if v < 0 else '0'
    if op == 'var' or op == 'sel':
        return SIGN.get(t.args[0])
    if op == 'app':
        if t.args[0] in ('amax', 'amin'):
            for a in t.args[1:]:
                if getattr(a, 'op', None) == 'lam':
                    return sign(a.args[1])
        return SIGN.get(t.args[0])
    if op == 'fn':
        n = t.args[0]
        if n == 'exp':
            return '+'
        if n in ('abs',):
            return '+' if sign(t.args[1]) in ('+', '-') else '0+'
        if n == 'sqrt':
            return '+' if sign(t.args[1]) == '+' else '0+'
        if n == 'max':
            ss = [sign(a) for a in t.args[1:]]
            if '+' in ss:
                return '+'
            if '0+' in ss or '0' in ss:
                return '0+'
        return None
    if op == 'add':
        ss = []
        c = t.args[0]
        if c > 0:
            ss.append('+')
        elif c < 0:
            ss.append('-')
        for k, v in t.args[1]:
            s = sign(k)
            if s is None:
                return None
            ss.append(s if v > 0 else _NEGS[s])
        if all(s in ('+', '0+', '0') for s in ss):
            return '+' if '+' in ss else '0+'
        if all(s in ('-', '0-', '0') for s in ss):
            return '-' if '-' in ss else '0-'
        return None
    if op == 'mul':
        r = '+'
        for b, e in t.args:
            if e.denominator == 1 and e.numerator % 2 == 0:
                s = '+' if sign(b) in ('+', '-') else '0+'
            else:
                s = sign(b)
                if e.denominator != 1:
                    s = '+' if s == '+' else '0+'
            if s is None:
                return None
            if s in ('0',):
                return '0'
            if s[0] == '0':
                r = '0' + r[-1]
            if s[-1] == '-':
                r = r[:-1] + ('-' if r[-1] == '+' else '+')
        return r
    if op == 'ite':
        a, b = sign(t.args[1]), sign(t.args[2])
        if a is None or b is None:
            return None
        if a == b:
            return a
        ok = {a, b}
        if ok <= {'+', '0+', '0'}:
            return '0+'
        if ok <= {'-', '0-', '0'}:
            return '0-'
        return None
    if op == 'sum':
        s = sign(t.args[1])
        if s in ('+', '0+', '0'):
            return '0+'
        if s in ('-', '0-'):
            return '0-'
        return None
    if op in ('first', 'last'):
        return '0+' if op == 'first' else None
    if op == 'bv':
        return '0+'
    return None


# ---------------------------------------------------------------- products
def _int_root(q, e):
    """q**e exactly for Fraction q>0 and Fraction e, or None"""
    n = e.denominator
    if abs(e.numerator) > 60:
        return None
    def root(a):
        if a == 0:
            return 0
        r = round(a ** (1.0 / n)) if a < 10 ** 300 else None
        if r is None:
            return None
        for c in (r - 1, r, r + 1):
            if c >= 0 and c ** n == a:
                return c
        return None
    a, b = root(q.numerator), root(q.denominator)
    if a is None or b is None:
        return None
    return Q(a, b) ** e.numerator


def _norm_base(b, e):
    """normalise base^e -> (coef, [(base,exp)...])"""
    if e == 0:
        return Q(1), []
    if b.op == 'num':
        v = b.args[0]
        if v == 1:
            return Q(1), []
        if e.denominator == 1:
            if v == 0:
                if e > 0:
                    return Q(0), []
                return Q(1), [(b, e)]     # 0^-1: symbolic
            if abs(e.numerator) <= 400:
                return v ** e.numerator, []
        if v == 0:
            return Q(0), []
        if v > 0:
            r = _int_root(v, e)
            if r is not None:
                return r, []
            out = []
            if v.denominator != 1:
                if v.numerator != 1:
                    out.append((num(v.numerator), e))
                out.append((num(v.denominator), -e))
                return Q(1), out
            return Q(1), [(b, e)]
        return Q(1), [(b, e)]
    if b.op == 'mul':
        c = Q(1)
        out = []
        integer = e.denominator == 1
        neg_odd = []
        for bb, ee in b.args:
            # (x^2)^(1/2) = |x| unless x is known nonnegative
            if not integer and ee.denominator == 1 and ee.numerator % 2 == 0 and sign(bb) not in ('+', '0+'):
                out.append((fn('abs', bb), ee * e))
            else:
                out.append((bb, ee * e))
        return c, out
    if b.op == 'add':
        c0, items = b.args
        lead = items[0][1]
        if c0 == 0 and len(items) == 1:
            k, v = items[0]
            if e.denominator == 1:
                cc, oo = _norm_base(k, e)
                return v ** e.numerator * cc, oo
            if v > 0:
                c1, o1 = _norm_base(num(v), e)
                c2, o2 = _norm_base(k, e)
                return c1 * c2, o1 + o2
            # negative coefficient with fractional power: keep |v| out
            if v != -1:
                c1, o1 = _norm_base(num(-v), e)
                return c1, o1 + [(_mk('add', (Q(0), ((k, Q(-1)),)), b.sort, b.h), e)]
            return Q(1), [(b, e)]
        if e.denominator == 1:
            if lead != 1:
                nb = scale(1 / lead, b)
                return lead ** e.numerator, [(nb, e)]
            return Q(1), [(b, e)]
        if abs(lead) != 1:
            nb = scale(1 / abs(lead), b)
            c1, o1 = _norm_base(num(abs(lead)), e)
            return c1, o1 + [(nb, e)]
        return Q(1), [(b, e)]
    if b.op == 'fn' and b.args[0] == 'abs' and e.denominator == 1 and e.numerator % 2 == 0:
        return _norm_base(b.args[1], e)
    return Q(1), [(b, e)]


def _mkmul(coef, facs):
    """facs: dict base->exp"""
    if coef == 0:
        return ZERO
    out = []
    again = False
    for b, e in facs.items():
        if e != 0:
            out.append((b, e))
    if not out:
        return num(coef)
    out.sort(key=lambda be: be[0].id)
    if len(out) == 1 and out[0][1] == 1:
        return scale(coef, out[0][0])
    sort = 'I' if all(b.sort == 'I' and e.denominator == 1 and e > 0 for b, e in out) else 'R'
    m = _mk('mul', tuple(out), sort, _h(*[b for b, _ in out]))
    return scale(coef, m)


_SQF = {}


def _sqrt_free(r):
    """(N, c) with sqrt(r) == c * sqrt(N), N an integer without small square factors"""
    v = _SQF.get(r)
    if v is not None:
        return v
    n = r.numerator * r.denominator
    c = Q(1, r.denominator)
    p = 2
    while p < 1000 and p * p <= n:
        while n % (p * p) == 0:
            n //= p * p
            c *= p
        p += 1 if p == 2 else 2
    q = math.isqrt(n)
    if q * q == n:
        n, c = 1, c * q
    v = _SQF[r] = (Q(n), c)
    return v


def _mulfacs(pairs):
    coef = Q(1)
    d = {}
    stack = list(pairs)
    while stack:
        b, e = stack.pop()
        if e == 0:
            continue
        c, o = _norm_base(b, e)
        coef *= c
        if coef == 0:
            return Q(0), {}
        for bb, ee in o:
            if bb.op in ('mul',) or (bb.op == 'add' and bb.args[0] == 0 and len(bb.args[1]) == 1 and ee.denominator == 1) \
                    or (bb.op == 'num' and ee.denominator == 1 and bb.args[0] != 0):
                stack.append((bb, ee))
                continue
            n = d.get(bb, Q(0)) + ee
            if n == 0:
                d.pop(bb, None)
            else:
                d[bb] = n
    # one canonical square root of a number: the product of all of them, square factors taken out
    rn = [bb for bb, ee in d.items() if bb.op == 'num' and ee.denominator == 2 and abs(ee.numerator) < 16 and bb.args[0] > 0]
    if rn:
        R = Q(1)
        for bb in rn:
            R *= bb.args[0] ** d.pop(bb).numerator
        N, c0 = _sqrt_free(R)
        coef *= c0
        if N != 1:
            d[num(N)] = Q(1, 2)
    # re-normalise numeric bases / abs whose exponent became integral
    for bb in list(d):
        ee = d.get(bb)
        if ee is None:
            continue
        if bb.op == 'num' and ee.denominator == 1 and bb.args[0] != 0:
            coef *= bb.args[0] ** ee.numerator
            del d[bb]
        elif bb.op == 'add' and bb.args[0] == 0 and len(bb.args[1]) == 1 and ee.denominator == 1:
            del d[bb]
            c2, d2 = _mulfacs([(bb, ee)])
            coef *= c2
            for k, v in d2.items():
                n = d.get(k, Q(0)) + v
                if n == 0:
                    d.pop(k, None)
                else:
                    d[k] = n
        elif bb.op == 'fn' and bb.args[0] == 'abs' and ee.denominator == 1 and ee.numerator % 2 == 0:
            del d[bb]
            c2, d2 = _mulfacs([(bb.args[1], ee)])
            coef *= c2
            for k, v in d2.items():
                n = d.get(k, Q(0)) + v
                if n == 0:
                    d.pop(k, None)
                else:
                    d[k] = n
    return coef, d


def mul(*ts):
    coef = Q(1)
    pairs = []
    ites = None
    for t in ts:
        if t.op == 'num':
            coef *= t.args[0]
            if coef == 0:
                return ZERO
        elif t.op == 'mul':
            pairs.extend(t.args)
        else:
            pairs.append((t, Q(1)))
    if not pairs:
        return num(coef)
    if len(pairs) == 1 and pairs[0][1] == 1:
        return scale(coef, pairs[0][0])
    c, d = _mulfacs(pairs)
    return _mkmul(coef * c, d)


def power(b, e):
    if e.op == 'num':
        q = e.args[0]
        if q == 0:
            return ONE
        if q == 1:
            return b
        c, d = _mulfacs([(b, q)])
        return _mkmul(c, d)
    if b.op == 'num' and b.args[0] == 1:
        return ONE
    return exp(mul(e, log(b)))


def div(a, b):
    if b.op == 'num' and b.args[0] != 0:
        return scale(1 / b.args[0], a)
    return mul(a, power(b, num(-1)))


def sqrt(t): return power(t, num(Q(1, 2)))


# ---------------------------------------------------------------- functions
def fn(name, *args, sort='R'):
    return _mk('fn', (name,) + args, sort, _h(*args))


def exp(t):
    if t is ZERO:
        return ONE
    p = None
    if t.op == 'mul' and any(b.op == 'add' for b, e in t.args) or t.op == 'add':
        from . import poly
        try:
            t = poly.expand(t, limit=60)
        except poly.TooBig:
            pass
    c, d = _lin(t)
    pairs = []
    if c != 0:
        pairs.append((fn('exp', ONE), c))
    for k, v in d.items():
        if k.op == 'fn' and k.args[0] == 'log':
            pairs.append((k.args[1], v))
            continue
        pairs.append((fn('exp', k), v))
    cc, dd = _mulfacs(pairs)
    return _mkmul(cc, dd)


def log(t):
    if t.op == 'num':
        v = t.args[0]
        if v == 1:
            return ZERO
        if v <= 0:
            return fn('log', t)
        if v.denominator != 1:
            a = fn('log', num(v.numerator)) if v.numerator != 1 else ZERO
            return sub(a, fn('log', num(v.denominator)))
        return fn('log', t)
    if t.op == 'mul':
        return add(*[scale(e, log(b)) for b, e in t.args])
    if t.op == 'add':
        c, items = t.args
        if c == 0 and len(items) == 1:
            k, v = items[0]
            if v > 0:
                return add(log(num(v)), log(k))
            return fn('log', t)
        if any(k.op == 'mul' and any(e < 0 for _, e in k.args) for k, _ in items):
            from . import poly
            u = poly.normal_term(t, 80)
            if u is not t and u.op != 'add':
                return log(u)
            t = u
            c, items = t.args
            # log(1 + 1/b) = log(b + 1) - log(b) for a base b that cannot be negative
            low = {}
            for k, _ in items:
                for b, e in (k.args if k.op == 'mul' else ()):
                    if e < 0 and sign(b) in ('+', '0+'):
                        low[b] = min(low.get(b, 0), e)
            if low:
                cleared = mul(t, *[power(b, num(-e)) for b, e in low.items()])
                if cleared.op == 'mul':
                    cleared = poly.normal_term(cleared, 80)
                if cleared.op == 'add' and not any(e < 0 and b in low for k, _ in cleared.args[1] if k.op == 'mul' for b, e in k.args):
                    return add(log(cleared), *[scale(e, log(b)) for b, e in low.items()])
        lead = abs(items[0][1])
        if lead != 1:
            return add(log(num(lead)), log(scale(1 / lead, t)))
        return fn('log', t)
    if t.op == 'fn' and t.args[0] == 'exp':
        return t.args[1]
    return fn('log', t)


def _oddsplit(t):
    """canonical sign of an argument: (s, t') with t = s*t' """
    c, d = _lin(t)
    items = sorted(d.items(), key=lambda kv: kv[0].id)
    lead = items[0][1] if items else c
    return (-1, neg(t)) if lead < 0 else (1, t)


def sin(t):
    if t is ZERO:
        return ZERO
    s, u = _oddsplit(t)
    r = fn('sin', u)
    return r if s > 0 else neg(r)


def cos(t):
    if t is ZERO:
        return ONE
    s, u = _oddsplit(t)
    return fn('cos', u)


def tan(t): return div(sin(t), cos(t))


def arcsin(t):
    if t is ZERO:
        return ZERO
    s, u = _oddsplit(t)
    r = fn('arcsin', u)
    return r if s > 0 else neg(r)


def arctan2(y, x): return fn('atan2', y, x)


def absf(t):
    s = sign(t)
    if s in ('+', '0+', '0'):
        return t
    if s in ('-', '0-'):
        return neg(t)
    if t.op == 'mul':
        return mul(*[power(absf(b), num(e)) if e.denominator == 1 else power(b, num(e)) for b, e in t.args])
    c, d = _lin(t)
    if c == 0 and len(d) == 1:
        k, v = list(d.items())[0]
        if v != 1:
            return scale(abs(v), absf(k))
    sg, u = _oddsplit(t)
    if u.op == 'add':
        lead = sorted(u.args[1], key=lambda kv: kv[0].id)[0][1]
        if lead != 1:
            return scale(lead, fn('abs', scale(1 / lead, u)))
    return fn('abs', u)


def maxf(a, b):
    if a is b:
        return a
    s = sign(sub(a, b))
    if s in ('+', '0+', '0'):
        return a
    if s in ('-', '0-'):
        return b
    x, y = sorted((a, b), key=lambda t: t.id)
    return fn('max', x, y, sort='I' if x.sort == 'I' and y.sort == 'I' else 'R')


def minf(a, b): return neg(maxf(neg(a), neg(b)))


def floorf(t):
    if t.op == 'num':
        return num(t.args[0].numerator // t.args[0].denominator)
    if t.sort == 'I':
        return t
    c, d = _lin(t)
    whole = {x: k for x, k in d.items() if x.sort == 'I' and k.denominator == 1}
    if whole and len(whole) < len(d):           # whole numbers come out
        r = num(0)
        for x, k in whole.items():
            r = add(r, scale(k, x))
        return add(r, fn('floor', sub(t, r), sort='I'))
    return fn('floor', t, sort='I')


def truncf(t):
    if t.op == 'num':
        v = t.args[0]
        k = abs(v.numerator) // v.denominator
        return num(k if v >= 0 else -k)
    if t.sort == 'I':
        return t
    if sign(t) in ('+', '0+'):
        return floorf(t)
    return fn('trunc', t, sort='I')


# ---------------------------------------------------------------- booleans
def _cmpnorm(t):
    """scale t by a positive constant to a canonical representative"""
    if t.op == 'num':
        return t
    c, d = _lin(t)
    items = sorted(d.items(), key=lambda kv: kv[0].id)
    l = abs(items[0][1])
    return scale(1 / l, t) if l != 1 else t


def _dropos(t):
    """sign-preserving simplification: drop positive factors of a product"""
    if t.op == 'mul':
        keep = []
        for b, e in t.args:
            if sign(b) == '+':
                continue
            if e.denominator == 1 and e.numerator % 2 == 1:
                keep.append((b, Q(1)))
            else:
                keep.append((b, e))
        if len(keep) != len(t.args) or any(k not in t.args for k in keep):
            if not keep:
                return ONE
            c, d = _mulfacs(keep)
            return _mkmul(c, d)
        return t
    if t.op == 'add' and t.args[0] == 0 and len(t.args[1]) == 1:
        k, v = t.args[1][0]
        return scale(1 if v > 0 else -1, _dropos(k))
    return t


def lt0(t):
    if t.op == 'num':
        return TRUE if t.args[0] < 0 else FALSE
    t = _cmpnorm(_dropos(t))
    if t.op == 'num':
        return TRUE if t.args[0] < 0 else FALSE
    s = sign(t)
    if s == '-':
        return TRUE
    if s in ('+', '0+', '0'):
        return FALSE
    if t.sort == 'I' or _intlike(t):
        # t<0 <=> t+1<=0
        return _le0(add(t, ONE))
    return _mk('lt0', (t,), 'B', t.h)


def _intlike(t):
    c, d = _lin(t)
    return c.denominator == 1 and all(k.sort == 'I' and v.denominator == 1 for k, v in d.items())


def _le0(t):
    if t.op == 'num':
        return TRUE if t.args[0] <= 0 else FALSE
    if t.sort == 'I':
        q, x = (1, t) if t.op == 'ite' else (t.args[1][0][1], t.args[1][0][0]) if t.op == 'add' and len(t.args[1]) == 1 else (None, None)
        if x is not None and x.op == 'ite' and (x.args[1].op == 'num' or x.args[2].op == 'num'):
            c0 = t.args[0] if t.op == 'add' else 0
            c, a, b = x.args
            return or_(and_(c, _le0(add(num(c0), scale(q, a)))), and_(not_(c), _le0(add(num(c0), scale(q, b)))))
    s = sign(t)
    if s in ('-', '0-', '0'):
        return TRUE
    if s == '+':
        return FALSE
    return _mk('le0', (t,), 'B', t.h)


def le0(t):
    if t.op == 'num':
        return TRUE if t.args[0] <= 0 else FALSE
    t = _cmpnorm(_dropos(t))
    return _le0(t)


def eq0(t):
    if t.op == 'num':
        return TRUE if t.args[0] == 0 else FALSE
    if t.op == 'mul':
        parts = []
        for b, e in t.args:
            if sign(b) in ('+', '-'):
                continue
            if e > 0:
                parts.append(eq0(b))
            else:
                # b^-k = 0 never (b finite)
                continue
        return or_(*parts)
    if t.op == 'add' and t.args[0] == 0 and len(t.args[1]) == 1:
        return eq0(t.args[1][0][0])
    c, d = _lin(t)
    items = sorted(d.items(), key=lambda kv: kv[0].id)
    l = items[0][1]
    if l != 1:
        t = scale(1 / l, t)
    if sign(t) in ('+', '-'):
        return FALSE
    if t.sort == 'I':
        s = sign(t)
        if s == '0+':
            return le0(t)
        if s == '0-':
            return le0(neg(t))
    return _mk('eq0', (t,), 'B', t.h)


def lt(a, b): return lt0(sub(a, b))
def le(a, b): return le0(sub(a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def eq(a, b):
    if a.sort == 'B' or b.sort == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return eq0(sub(a, b))


def ne(a, b): return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt0':
        return le0(neg(a.args[0]))
    if a.op == 'le0':
        return lt0(neg(a.args[0]))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return _mk('not', (a,), 'B', a.h)


def and_(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.args:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if not_(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    # absorption by literals
    for x in list(s):
        if x.op == 'or':
            if any(y in s for y in x.args):
                del s[x]
                return and_(*s)
            keep = [y for y in x.args if not_(y) not in s]
            if len(keep) != len(x.args):
                del s[x]
                return and_(or_(*keep), *s)
    a = tuple(sorted(s, key=lambda t: t.id))
    return _mk('and', a, 'B', _h(*a))


def or_(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            for y in x.args:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        # `not_` of an and/or may rebuild; only cheap complements matter
        if x.op not in ('and', 'or') and not_(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    for x in list(s):
        if x.op == 'and':
            if any(y in s for y in x.args):
                del s[x]
                return or_(*s)
            keep = [y for y in x.args if not_(y) not in s]
            if len(keep) != len(x.args):
                del s[x]
                return or_(and_(*keep), *s)
    com = None
    for x in s:
        cs = set(x.args) if x.op == 'and' else {x}
        com = cs if com is None else com & cs
        if not com:
            break
    if com:
        rest = [and_(*[y for y in (x.args if x.op == 'and' else (x,)) if y not in com]) for x in s]
        return and_(or_(*rest), *com)
    a = tuple(sorted(s, key=lambda t: t.id))
    return _mk('or', a, 'B', _h(*a))


def implies(a, b): return or_(not_(a), b)


def _spine(t, known):
    """simplify the nested conditionals of t under known literals"""
    if t.op != 'ite':
        return t
    c = t.args[0]
    d = _known(c, known)
    if d is True:
        return _spine(t.args[1], known)
    if d is False:
        return _spine(t.args[2], known)
    a, b = _spine(t.args[1], known), _spine(t.args[2], known)
    if a is t.args[1] and b is t.args[2]:
        return t
    return ite(c, a, b)


def _known(c, known):
    if c in known:
        return True
    if not_(c) in known:
        return False
    if c.op == 'and':
        r = [_known(x, known) for x in c.args]
        if False in r:
            return False
        if all(r):
            return True
    if c.op == 'or':
        r = [_known(x, known) for x in c.args]
        if True in r:
            return True
        if all(x is False for x in r):
            return False
    return None


_PIN = {}


def _pinned(c):
    """values of integer variables forced by the condition c: k == 3, or i + k <= 0 with i, k >= 0"""
    if c.op not in ('le0', 'eq0'):
        return None
    r = _PIN.get(c)
    if r is None:
        r = _PIN[c] = _pinned_(c) or False
    return r


def _pinned_(c):
    t = c.args[0]
    if t.op == 'var':
        if t.sort != 'I' or (c.op == 'le0' and sign(t) not in ('0+',)):
            return None
        return {t: ZERO}
    if t.op != 'add':
        return None
    c0, ts = t.args[0], t.args[1]
    if any(k.op != 'var' or k.sort != 'I' for k, _ in ts):
        return None
    if c.op == 'eq0' and len(ts) == 1:
        k, v = ts[0]
        q = -c0 / v
        if q.denominator == 1:
            return {k: num(q)}
        return None
    if c0 == 0 and all(v > 0 and sign(k) == '0+' for k, v in ts):
        return {k: ZERO for k, _ in ts}
    if c0 == 0 and c.op == 'eq0' and all(v < 0 and sign(k) == '0+' for k, v in ts):
        return {k: ZERO for k, _ in ts}
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite':
        a = _spine(a, frozenset(c.args) if c.op == 'and' else frozenset([c]))
    if b.op == 'ite':
        n = not_(c)
        b = _spine(b, frozenset(n.args) if n.op == 'and' else frozenset([n]))
    if a is b:
        return a
    n = not_(c)
    m = _pinned(c)
    if m:
        a = subst(a, m)
        if a is b or a is subst(b, m):
            return b
    else:
        m = _pinned(n)
        if m:
            b = subst(b, m)
            if a is b or b is subst(a, m):
                return a
    # canonical polarity for comparisons
    if n.op in ('lt0', 'le0', 'eq0') and n.id < c.id:
        c, a, b = n, b, a
    # ite(x==k, k', b) leave
    sort = 'I' if a.sort == 'I' and b.sort == 'I' else 'R'
    return _mk('ite', (c, a, b), sort, _h(c, a, b))


# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op == 'add':
        return [k for k, _ in t.args[1]]
    if op == 'mul':
        return [b for b, _ in t.args]
    if op in ('num', 'var', 'bv', 'true', 'false'):
        return []
    if op in ('sel', 'app', 'fn'):
        return [a for a in t.args[1:] if isinstance(a, T)]
    if op == 'rec':
        return [t.args[1]] + list(t.args[2]) + list(t.args[3])
    return [a for a in t.args if isinstance(a, T)]


def rebuild(t, f):
    """rebuild t with children mapped by f (through the smart constructors)"""
    op = t.op
    if op in ('num', 'var', 'bv', 'true', 'false'):
        return t
    if op == 'add':
        return add(num(t.args[0]), *[scale(v, f(k)) for k, v in t.args[1]])
    if op == 'mul':
        nb = [(f(b), e) for b, e in t.args]
        c, d = _mulfacs(nb)
        return _mkmul(c, d)
    if op == 'sel':
        return sel(t.args[0], *[f(a) for a in t.args[1:]], sort=t.sort)
    if op == 'app':
        return app(t.args[0], *[f(a) if isinstance(a, T) else a for a in t.args[1:]], sort=t.sort)
    if op == 'fn':
        return mkfn(t.args[0], [f(a) for a in t.args[1:]], t.sort)
    if op == 'ite':
        c = f(t.args[0])
        if c is TRUE:
            return f(t.args[1])
        if c is FALSE:
            return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == 'lt0':
        return lt0(f(t.args[0]))
    if op == 'le0':
        return le0(f(t.args[0]))
    if op == 'eq0':
        return eq0(f(t.args[0]))
    if op == 'not':
        return not_(f(t.args[0]))
    if op == 'and':
        return and_(*[f(a) for a in t.args])
    if op == 'or':
        return or_(*[f(a) for a in t.args])
    if op in ('sum', 'first', 'last', 'lam', 'prod'):
        n = f(t.args[0])
        k = fresh('k', 'I')
        body = f(subst(t.args[1], {bv(t.args[2]): k}))
        return {'sum': bsum, 'first': bfirst, 'last': blast, 'lam': blam, 'prod': bprod}[op](n, k, body)
    if op == 'rec':
        i, n, inits, bodies, hh = t.args
        k = fresh('k', 'I')
        vs = [fresh('s') for _ in inits]
        m = {bv(hh): k}
        for j in range(len(inits)):
            m[svar(hh, j)] = vs[j]
        return brec(i, f(n), [f(x) for x in inits], k, vs, [f(subst(b, m)) for b in bodies])
    raise AssertionError(op)


def mkfn(name, a, sort='R'):
    if name == 'exp':
        return exp(a[0])
    if name == 'log':
        return log(a[0])
    if name == 'sin':
        return sin(a[0])
    if name == 'cos':
        return cos(a[0])
    if name == 'arcsin':
        return arcsin(a[0])
    if name == 'abs':
        return absf(a[0])
    if name == 'max':
        return maxf(a[0], a[1])
    if name == 'floor':
        return floorf(a[0])
    if name == 'trunc':
        return truncf(a[0])
    return fn(name, *a, sort=sort)


def _bindheight(body, k):
    """max height of binders containing ... : use max height of all binders in body"""
    return body.h


_MB = {}


def maxbind(t):
    """max binder height occurring in t (bound occurrences included)"""
    r = _MB.get(t)
    if r is not None:
        return r
    m = 0
    if t.op in ('sum', 'first', 'last', 'lam', 'prod'):
        m = t.args[2]
    elif t.op == 'rec':
        m = t.args[4]
    for c in children(t):
        v = maxbind(c)
        if v > m:
            m = v
    _MB[t] = m
    return m


def svar(h, j):
    return _mk('var', ('s#%d_%d' % (h, j), 'R'), 'R')


def fvs(t):
    """free variables (var terms) of t"""
    if t._fv is None:
        if t.op == 'var':
            t._fv = frozenset([t])
        else:
            s = frozenset()
            cs = children(t)
            if cs:
                s = frozenset().union(*[fvs(c) for c in cs])
            t._fv = s
    return t._fv


def subst(t, m, memo=None):
    """simultaneous substitution of terms (keys may be any terms, typically vars)"""
    if not m:
        return t
    if memo is None:
        memo = {}
    onlyvars = all(k.op == 'var' for k in m)
    keys = frozenset(m)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if onlyvars and not (fvs(x) & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        # binder bodies: substitution under binders is safe because replacement terms never contain
        # bound variables that are free (we always open binders with fresh variables)
        r = rebuild(x, go) if x.op not in ('sum', 'first', 'last', 'lam', 'prod', 'rec') else _subst_binder(x, go, m)
        memo[x] = r
        return r
    return go(t)


def _subst_binder(x, go, m):
    if x.op == 'rec':
        i, n, inits, bodies, hh = x.args
        k = fresh('k', 'I')
        vs = [fresh('s') for _ in inits]
        mm = {bv(hh): k}
        for j in range(len(inits)):
            mm[svar(hh, j)] = vs[j]
        return brec(i, go(n), [go(y) for y in inits], k, vs, [go(subst(b, mm)) for b in bodies])
    n, body, hh = x.args
    b = bv(hh)
    if b in m:      # opening this very binder's variable elsewhere: shadowed
        m2 = {kk: vv for kk, vv in m.items() if kk is not b}
        k = fresh('k', 'I')
        body2 = subst(subst(body, {b: k}), m2)
        n2 = go(n)
    else:
        k = fresh('k', 'I')
        body2 = go(subst(body, {b: k}))
        n2 = go(n)
    return {'sum': bsum, 'first': bfirst, 'last': blast, 'lam': blam, 'prod': bprod}[x.op](n2, k, body2)


_FREE = {}


def freebv(t):
    """levels of the bound variables occurring free in t"""
    r = _FREE.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset((t.args[0],))
        else:
            r = frozenset()
            for c in children(t):
                f = freebv(c)
                if f:
                    r |= f
            if t.op in ('sum', 'prod', 'first', 'last', 'lam'):
                n = t.args[0]
                inner = freebv(t.args[1]) - {t.args[2]}
                r = inner | freebv(n)
            elif t.op == 'rec':
                r = r - {t.args[4]}
        _FREE[t] = r
    return r


def _height(n, own, *bodies):
    r = n.h
    for b in bodies:
        for f in freebv(b):
            if f != own and f > r:
                r = f
    return r


def _close(k, body, *others):
    h = max([maxbind(body)] + [maxbind(o) for o in others]) + 1
    return h, subst(body, {k: bv(h)})


def _coef_of(t, k):
    """coefficient of variable k in linear t (None when k occurs nonlinearly)"""
    c, d = _lin(t)
    v = d.get(k, Q(0))
    for a in d:
        if a is not k and k in fvs(a):
            return None
    return v


def _orient(body, k):
    best = None
    seen = set()

    def go(x):
        nonlocal best
        if x in seen or k not in fvs(x):
            return
        seen.add(x)
        if x.op == 'sel' or x.op == 'app':
            for p, a in enumerate(x.args[1:]):
                c = _coef_of(a, k) if isinstance(a, T) else None
                if c:
                    key = (x.args[0], p, abs(c))
                    if best is None or key < best[0]:
                        best = (key, c)
                    elif key == best[0] and c > 0:
                        best = (key, c)
        for c in children(x):
            go(c)
    go(body)
    return -1 if best is not None and best[1] < 0 else 1


def bsum(n, k, body):
    """sum_{k=0}^{n-1} body"""
    n = _unclamp(n)
    if n.op == 'num':
        if n.args[0] <= 0:
            return ZERO
        if n.args[0] <= 12:
            return add(*[subst(body, {k: num(i)}) for i in range(int(n.args[0]))])
    if body is ZERO:
        return ZERO
    if k not in fvs(body):
        return mul(clamp0(n), body)
    if body.op == 'add':
        c, items = body.args
        return add(mul(num(c), clamp0(n)) if c else ZERO, *[scale(v, bsum(n, k, t)) for t, v in items])
    if body.op == 'mul':
        out = [(b, e) for b, e in body.args if k not in fvs(b)]
        if out:
            inn = [(b, e) for b, e in body.args if k in fvs(b)]
            c1, d1 = _mulfacs(inn)
            c2, d2 = _mulfacs(out)
            return mul(_mkmul(c2, d2), bsum(n, k, _mkmul(c1, d1)))
    # restrict the support of a guarded body: ite(k + a >= 0, f, 0) etc.
    if body.op == 'ite':
        c, a, b = body.args
        if k not in fvs(c):
            return ite(c, bsum(n, k, a), bsum(n, k, b))
        if a is ZERO:
            c, a, b = not_(c), b, a
        if b is ZERO:
            conj = list(c.args) if c.op == 'and' else [c]
            lo = None
            hi = None
            rest = []
            for q in conj:
                r = _bound_of(q, k)
                if r is None:
                    rest.append(q)
                elif r[0] == 'lo':
                    lo = r[1] if lo is None else maxf(lo, r[1])
                else:
                    hi = r[1] if hi is None else minf(hi, r[1])
            nb = ite(and_(*rest), a, ZERO)
            if lo is not None and (sign(lo) in ('+', '0+', '0')):
                # k >= lo
                m = n if hi is None else minf(n, hi)
                return bsum(sub(m, lo), k, subst(nb, {k: add(k, lo)}))
            if hi is not None and lo is None:
                return bsum(minf(n, hi), k, nb)
    if _orient(body, k) < 0:
        body = subst(body, {k: sub(sub(n, ONE), k)})
    h, b = _close(k, body, n)
    return _mk('sum', (n, b, h), 'I' if b.sort == 'I' else 'R', _height(n, h, b))


def _bound_of(q, k):
    """q as k>=e ('lo',e) or k<e ('hi',e) when linear with unit coefficient"""
    if q.op == 'le0':
        t = q.args[0]
        c = _coef_of(t, k)
        if c == 1:    # k + r <= 0 -> k < 1 - r
            r = sub(t, k)
            if _intlike(r):
                return ('hi', sub(ONE, r))
        if c == -1:   # -k + r <= 0 -> k >= r
            r = add(t, k)
            if _intlike(r):
                return ('lo', r)
    return None


def clamp0(n):
    if n.op == 'num':
        return num(max(n.args[0], 0))
    if sign(n) in ('+', '0+'):
        return n
    return maxf(n, ZERO)


def _unclamp(n):
    if n.op == 'fn' and n.args[0] == 'max' and ZERO in n.args[1:]:
        return n.args[2] if n.args[1] is ZERO else n.args[1]
    return n


def bprod(n, k, body):
    n = _unclamp(n)
    if n.op == 'num' and n.args[0] <= 12:
        return mul(*[subst(body, {k: num(i)}) for i in range(int(max(0, n.args[0])))]) if n.args[0] > 0 else ONE
    if body.op == 'fn' and body.args[0] == 'exp':
        return exp(bsum(n, k, body.args[1]))
    if body.op == 'mul':
        return mul(*[power(bprod(n, k, b), num(e)) for b, e in body.args])
    if body is ONE:
        return ONE
    h, b = _close(k, body, n)
    return _mk('prod', (n, b, h), 'R', _height(n, h, b))


def _pull(n, k, body):
    """conjuncts of body without k, the value of k they pin (or None), and the remaining conjuncts"""
    cs = list(body.args) if body.op == 'and' else [body]
    out = [c for c in cs if k not in fvs(c)]
    rest = [c for c in cs if k in fvs(c)]
    for p, x in enumerate(rest):
        if x.op == 'eq0' and x.args[0].op in ('add', 'var'):
            q = _coef_of(x.args[0], k)
            if q is not None and abs(q) == 1:
                e = scale(-1 / q, sub(x.args[0], scale(q, k)))
                if k not in fvs(e) and (e.sort == 'I' or _intlike(e)):
                    return out, e, rest[:p] + rest[p + 1:]
    return out, None, rest


def _scan(n, k, body, none, again):
    out, e, rest = _pull(n, k, body)
    if e is not None:
        return ite(and_(*(out + [le0(neg(e)), lt(e, n), subst(and_(*rest), {k: e})])), e, none)
    if out and rest:
        return ite(and_(*out), again(n, k, and_(*rest)), none)
    return None


def bfirst(n, k, body):
    """least 0<=k<n with body, else max(n,0)"""
    n = _unclamp(n)
    if body is FALSE:
        return clamp0(n)
    if body is TRUE:
        return ZERO if sign(n) == '+' else ite(le0(n), ZERO, ZERO)
    if n.op == 'num' and n.args[0] <= 0:
        return ZERO
    if n.op == 'num' and n.args[0] <= 6:
        r = n
        for i in range(int(n.args[0]) - 1, -1, -1):
            r = ite(subst(body, {k: num(i)}), num(i), r)
        return r
    if k not in fvs(body):
        return ite(body, ZERO, clamp0(n))
    r = _scan(n, k, body, clamp0(n), bfirst)
    if r is not None:
        return r
    h, b = _close(k, body, n)
    return _mk('first', (n, b, h), 'I', _height(n, h, b))


def blast(n, k, body):
    """greatest 0<=k<n with body, else -1"""
    n = _unclamp(n)
    if body is FALSE:
        return num(-1)
    if body is TRUE:
        return sub(clamp0(n), ONE)
    if n.op == 'num' and n.args[0] <= 6:
        r = num(-1)
        for i in range(int(max(0, n.args[0]))):
            r = ite(subst(body, {k: num(i)}), num(i), r)
        return r
    if k not in fvs(body):
        return ite(body, sub(clamp0(n), ONE), num(-1))
    r = _scan(n, k, body, num(-1), blast)
    if r is not None:
        return r
    h, b = _close(k, body, n)
    return _mk('last', (n, b, h), 'I', _height(n, h, b))


def blam(n, k, body):
    h, b = _close(k, body, n)
    return _mk('lam', (n, b, h), 'A', _height(n, h, b))


def brec(i, n, inits, k, vs, bodies):
    """component i of the state after n iterations of  s := bodies(k, s), s0 = inits"""
    if n.op == 'num' and n.args[0] <= 0:
        return inits[i]
    hh = max([maxbind(n)] + [maxbind(x) for x in inits] + [maxbind(b) for b in bodies]) + 1
    m = {k: bv(hh)}
    for j, v in enumerate(vs):
        m[v] = svar(hh, j)
    bs = tuple(subst(b, m) for b in bodies)
    return _mk('rec', (i, n, tuple(inits), bs, hh), 'R', _height(n, hh, *(bs + tuple(inits))))


def open_binder(t, k=None):
    """(n, k, body) of a sum/first/last/lam/prod"""
    n, body, hh = t.args
    if k is None:
        k = fresh('k', 'I')
    return n, k, subst(body, {bv(hh): k})


# ---------------------------------------------------------------- display
def show(t, depth=0):
    if depth > 40:
        return '...'
    op = t.op
    d = depth + 1
    if op == 'num':
        q = t.args[0]
        if q.denominator == 1:
            return str(q.numerator)
        f = float(q)
        return repr(f)
    if op == 'var':
        return t.args[0]
    if op == 'bv':
        return 'b%d' % t.args[0]
    if op == 'add':
        parts = [] if t.args[0] == 0 else [show(num(t.args[0]))]
        for k, v in t.args[1]:
            parts.append(show(k, d) if v == 1 else '-' + show(k, d) if v == -1 else show(num(v)) + '*' + show(k, d))
        return '(' + ' + '.join(parts) + ')'
    if op == 'mul':
        return '*'.join(show(b, d) if e == 1 else '%s^%s' % (show(b, d), e) for b, e in t.args)
    if op == 'sel':
        return '%s[%s]' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    if op in ('app', 'fn'):
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d) if isinstance(a, T) else repr(a) for a in t.args[1:]))
    if op == 'ite':
        return 'if(%s, %s, %s)' % tuple(show(a, d) for a in t.args)
    if op == 'lt0':
        return '(%s < 0)' % show(t.args[0], d)
    if op == 'le0':
        return '(%s <= 0)' % show(t.args[0], d)
    if op == 'eq0':
        return '(%s == 0)' % show(t.args[0], d)
    if op == 'not':
        return '!' + show(t.args[0], d)
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(a, d) for a in t.args) + ')'
    if op in ('sum', 'first', 'last', 'lam', 'prod'):
        return '%s[b%d<%s]{%s}' % (op, t.args[2], show(t.args[0], d), show(t.args[1], d))
    if op == 'rec':
        return 'rec%d[b%d<%s]{%s; %s}' % (t.args[0], t.args[4], show(t.args[1], d), ', '.join(show(a, d) for a in t.args[2]),
                                          ', '.join(show(a, d) for a in t.args[3]))
    return op


def size(t):
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        for c in children(x):
            go(c)
    go(t)
    return len(seen)


def subterms(t):
    seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen[x] = 1
        st.extend(children(x))
    return seen
