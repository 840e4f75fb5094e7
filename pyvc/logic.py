"""z3 back end: deciding conditions under path facts."""
import z3
from fractions import Fraction as Q
from . import terms as t_
from .terms import T, TRUE, FALSE, num

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'z3_unknown': 0}


class Tr:
    """translation of terms to z3; atoms that z3 cannot see through become constants.  Translations are cached for the
    whole run: memo[t] = (z3 expression, atoms in it); axiom[atom] = facts about that atom"""

    def __init__(self, nl=False):
        self.nl = nl
        self.memo = {}
        self.axiom = {}
        self.opened = set()
        self.mono = {}      # monotone atom key -> (kind, argument, z3 constant)
        self.mono_memo = {}

    def q(self, v, sort):
        if sort == 'I' and v.denominator == 1:
            return z3.IntVal(v.numerator)
        return z3.RealVal(str(v))

    def real(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def atom(self, t):
        n = 'a%d' % t.id
        ax = self.axiom[t] = []
        if t.sort == 'B':
            c = z3.Bool(n)
        else:
            c = z3.Int(n) if t.sort == 'I' else z3.Real(n)
            s = t_.sign(t)
            if s == '+':
                ax.append(c > 0)
            elif s == '-':
                ax.append(c < 0)
            elif s == '0+':
                ax.append(c >= 0)
            elif s == '0-':
                ax.append(c <= 0)
        return c

    def tr(self, t):
        """z3 expression of t"""
        return self.tra(t)[0]

    def tra(self, t):
        r = self.memo.get(t)
        if r is None:
            self.stack.append(set())
            e = self._tr(t)
            r = (e, frozenset(self.stack.pop()))
            self.memo[t] = r
        if self.stack:
            self.stack[-1].update(r[1])
        return r

    stack = []

    def use(self, key):
        if self.stack:
            self.stack[-1].add(key)

    def _tr(self, t):
        op = t.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'num':
            return self.q(t.args[0], t.sort)
        if op == 'add':
            allint = t.sort == 'I'
            parts = []
            if t.args[0] != 0:
                parts.append(self.q(t.args[0], 'I' if allint else 'R'))
            for k, v in t.args[1]:
                e = self.tr(k)
                if not allint:
                    e = self.real(e)
                parts.append(e if v == 1 else self.q(v, 'I' if allint else 'R') * e)
            return parts[0] if len(parts) == 1 else z3.Sum(parts)
        if op == 'mul':
            if all(e.denominator == 1 and e > 0 for _, e in t.args) and self.nl:
                r = None
                allint = t.sort == 'I'
                for b, e in t.args:
                    x = self.tr(b)
                    if not allint:
                        x = self.real(x)
                    for _ in range(e.numerator):
                        r = x if r is None else r * x
                return r
            if self.nl and all(abs(e) < 12 for _, e in t.args if e.denominator == 1):
                r = None
                for b, e in t.args:
                    if e.denominator != 1:
                        x = self.powatom(b, e)
                        r = x if r is None else r * x
                        continue
                    x = self.real(self.tr(b))
                    if e < 0:
                        x = self.inv(b, x)
                    for _ in range(abs(e.numerator)):
                        r = x if r is None else r * x
                return r
            self.use(t)
            return self.atom(t)
        if op == 'ite':
            a, b = self.tr(t.args[1]), self.tr(t.args[2])
            if a.sort() != b.sort():
                a, b = self.real(a), self.real(b)
            return z3.If(self.tr(t.args[0]), a, b)
        if op == 'lt0':
            return self.tr(t.args[0]) < 0
        if op == 'le0':
            return self.tr(t.args[0]) <= 0
        if op == 'eq0':
            return self.tr(t.args[0]) == 0
        if op == 'not':
            return z3.Not(self.tr(t.args[0]))
        if op == 'and':
            return z3.And(*[self.tr(a) for a in t.args])
        if op == 'or':
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == 'fn':
            n = t.args[0]
            if n == 'max':
                a, b = self.tr(t.args[1]), self.tr(t.args[2])
                if a.sort() != b.sort():
                    a, b = self.real(a), self.real(b)
                return z3.If(a >= b, a, b)
            if n == 'abs':
                a = self.tr(t.args[1])
                return z3.If(a >= 0, a, -a)
            c = self.atom(t)
            self.use(t)
            if n in ('exp', 'log') and self.nl:
                self.tr(t.args[1])
                self.mono[t] = (n, t.args[1], c)
            if n == 'floor':
                x = self.real(self.tr(t.args[1]))
                self.axiom[t].append(z3.And(z3.ToReal(c) <= x, x < z3.ToReal(c) + 1))
            elif n == 'trunc':
                x = self.real(self.tr(t.args[1]))
                self.axiom[t].append(z3.If(x >= 0, z3.And(z3.ToReal(c) <= x, x < z3.ToReal(c) + 1),
                                           z3.And(z3.ToReal(c) >= x, x > z3.ToReal(c) - 1)))
            return c
        if op in ('first', 'last'):
            c = self.atom(t)
            self.use(t)
            n = self.tr(t.args[0])
            if op == 'first':
                self.axiom[t].append(z3.And(c >= 0, z3.If(n >= 0, c <= n, c == 0)))
                if t.h == 0 and t not in self.opened:
                    # the least index is 0 exactly when the body holds there
                    self.opened.add(t)
                    p0 = t_.subst(t.args[1], {t_.bv(t.args[2]): t_.ZERO})
                    if p0.op in ('lt0', 'le0', 'eq0'):
                        z0 = self.tr(p0)
                        self.axiom[t].append(z3.Implies(n > 0, (c == 0) == z0))
            else:
                self.axiom[t].append(z3.And(c >= -1, z3.If(n >= 0, c < n, c == -1)))
            return c
        self.use(t)
        return self.atom(t)

    def powatom(self, b, e):
        key = ('pow', b, e)
        x = self.real(self.tr(b))
        self.use(key)
        if key not in self.mono:
            r = z3.Real('p%d_%d_%d' % (b.id, e.numerator, e.denominator))
            ax = self.axiom[key] = [z3.Implies(x > 0, r > 0)]
            if e > 0:
                ax.append(z3.Implies(x == 0, r == 0))
            self.mono[key] = (e, b, r)
        return self.mono[key][2]

    def monotone(self, keys):
        """instances of the monotonicity of exp, log and powers for the atoms at hand"""
        done = [self.mono[k] for k in keys if k in self.mono]
        if not done or len(done) > 8:
            return []
        out = []
        for i, (k, u, c) in enumerate(done):
            zu = self.real(self.tr(u))
            if k == 'exp':
                out += [z3.Implies(zu > 0, c > 1), z3.Implies(zu < 0, c < 1), c > zu, c > 0]
            elif k == 'log':
                out += [z3.Implies(zu > 1, c > 0), z3.Implies(z3.And(zu > 0, zu < 1), c < 0)]
            elif k > 0:
                out += [z3.Implies(zu > 1, c > 1), z3.Implies(z3.And(zu > 0, zu < 1), c < 1), z3.Implies(zu == 1, c == 1)]
            elif k < 0:
                out += [z3.Implies(zu > 1, c < 1), z3.Implies(z3.And(zu > 0, zu < 1), c > 1), z3.Implies(zu == 1, c == 1)]
            for k2, v, c2 in done[:i]:
                if k2 != k:
                    continue
                zv = self.real(self.tr(v))
                up = True if k in ('exp', 'log') else k > 0
                pos = z3.And(zu > 0, zv > 0) if k != 'exp' else True
                out.append(z3.Implies(z3.And(pos, zu < zv), c < c2 if up else c > c2))
                out.append(z3.Implies(z3.And(pos, zu > zv), c > c2 if up else c < c2))
                out.append(z3.Implies(zu == zv, c == c2))
        return out

    def inv(self, b, x):
        key = ('inv', b)
        self.use(key)
        if key not in self.axiom:
            r = z3.Real('inv%d' % b.id)
            self.axiom[key] = [z3.Implies(x != 0, r * x == 1)]
            s = t_.sign(b)
            if s == '+':
                self.axiom[key].append(r > 0)
            self.mono_memo[key] = r
        return self.mono_memo[key]


_TRS = {False: Tr(False), True: Tr(True)}


def _key(k):
    return k.id if isinstance(k, T) else k[1].id


_MEMO = {}


def check(facts, timeout=300, nl=False):
    """'sat' / 'unsat' / 'unknown' of the conjunction"""
    import time
    t0 = time.time()
    tr = _TRS[nl]
    s = z3.Solver()
    s.set('timeout', timeout)
    used = set()
    for f in facts:
        e, at = tr.tra(f)
        s.add(e)
        used |= at
    keys = sorted(used, key=_key)
    for k in keys:
        for a in tr.axiom.get(k, ()):
            s.add(a)
    if nl:
        for a in tr.monotone(keys):
            s.add(a)
    r = str(s.check())
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if r == 'unknown':
        STATS['z3_unknown'] += 1
    return r


def int_value(facts, t, timeout=300):
    """the only integer value the closed integer term t can take under the facts, or None"""
    tr = _TRS[False]
    s = z3.Solver()
    s.set('timeout', timeout)
    used = set()
    e, at = tr.tra(t)
    used |= at
    for f in facts:
        x, at = tr.tra(f)
        s.add(x)
        used |= at
    for k in sorted(used, key=_key):
        for a in tr.axiom.get(k, ()):
            s.add(a)
    if s.check() != z3.sat:
        return None
    v = s.model().eval(e, model_completion=True)
    if not z3.is_int_value(v):
        return None
    s.add(e != v)
    return v.as_long() if s.check() == z3.unsat else None


def _relevant(facts, cond, nl=False):
    """facts connected with cond: through the z3 constants of the linear translation (complete for that theory), or, in
    nonlinear mode, through the variables"""
    if nl:
        vs = set(t_.fvs(cond)) | atoms_of(cond)
        rest = [(f, t_.fvs(f) | atoms_of(f)) for f in facts]
    else:
        tr = _TRS[False]
        vs = set(tr.tra(cond)[1])
        rest = [(f, tr.tra(f)[1]) for f in facts]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f, fv in rest:
            if not fv or not vs.isdisjoint(fv):
                out.append(f)
                vs |= fv
                ch = True
            else:
                nr.append((f, fv))
        rest = nr
    return out


_AT = {}


def atoms_of(t):
    r = _AT.get(t)
    if r is None:
        if t.op in ('sel', 'app'):
            r = frozenset([t.args[0]])
        else:
            r = frozenset()
        for c in t_.children(t):
            r = r | atoms_of(c)
        _AT[t] = r
    return r


def entails(facts, cond, timeout=300, nl=False):
    """True when facts imply cond"""
    if cond is TRUE:
        return True
    for f in facts:
        if f is cond or f is FALSE:
            return True
    fs = tuple(_relevant(facts, cond, nl))
    key = (fs, cond, nl)
    r = _MEMO.get(key)
    if r is None:
        r = check(list(fs) + [t_.not_(cond)], timeout, nl) == 'unsat'
        _MEMO[key] = r
    return r


def decide(facts, cond, timeout=300, nl=False):
    """True / False / None"""
    if cond is TRUE:
        return True
    if cond is FALSE:
        return False
    n = t_.not_(cond)
    for f in facts:
        if f is cond:
            return True
        if f is n:
            return False
    if entails(facts, cond, timeout, nl):
        return True
    if entails(facts, n, timeout, nl):
        return False
    return None


def inconsistent(facts, timeout=500, nl=False):
    return check(list(facts), timeout, nl) == 'unsat'
