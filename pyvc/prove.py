"""Equality and entailment of terms under facts: the prover behind every obligation.

All steps are equality-preserving rewrites over the reals; z3 decides the (mostly linear) side conditions, poly the
rational-function identities.  Random evaluation is only ever used to *refute* or to choose which atoms to compare.
"""
import os
import random
import time
import math
from fractions import Fraction as Q
from . import terms as t_
from . import logic, quant, poly, evalt
from .terms import T, TRUE, FALSE, ZERO, ONE, num

STATS = {'eq': 0, 'splits': 0, 'unify': 0, 'poly': 0}


class Timeout(Exception):
    pass


# ------------------------------------------------------------------ sampling environments
RANGE = {}      # name -> range hint of the domain
KIND = {}       # array name -> 'incr' / 'decr' hint


def export_env(env):
    """values of a refuting assignment: {name: number}, {array: {"i,j": number}}"""
    if env is None:
        return None
    try:
        v = {k: x for k, x in dict.items(env.vars) if isinstance(x, (int, float, bool)) and '!' not in k}
        c = {}
        for n, f in dict.items(env.arrays):
            cells = getattr(f, 'cells', None)
            if cells:
                c[n] = {','.join(map(str, ix)): float(x) for ix, x in cells.items()}
        return {'vars': v, 'cells': c}
    except Exception:
        return None


class LazyEnv(evalt.Env):
    """variables and array cells get random values of their declared sort and sign on first use"""

    def __init__(self, rng, style=0):
        evalt.Env.__init__(self)
        self.rng = rng
        self.style = style
        self.vars = _LazyVars(self)
        self.arrays = _LazyArrays(self)

    def copy(self):
        e = LazyEnv(self.rng, self.style)
        for k, v in self.vars.items():
            dict.__setitem__(e.vars, k, v)
        for k, f in dict.items(self.arrays):
            cells = getattr(f, 'cells', None)
            if cells is not None:
                e.arrays.get(k).cells.update(cells)
        return e

    def draw(self, name, sort, ix=None):
        r = self.rng
        s = t_.SIGN.get(name)
        if sort == 'I':
            v = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
            if s == '+':
                v = max(v, 1)
            if s is None and r.random() < 0.15:
                v = -v
            return v
        if sort == 'B':
            return r.random() < 0.5
        st = self.style
        if st == 3 and name in RANGE:
            lo, hi = RANGE[name]
            kd = KIND.get(name)
            if kd and ix is not None:
                u = (ix[0] + r.uniform(0.05, 0.95)) / 8.0
                return lo + (hi - lo) * (u if kd == 'incr' else 1.0 - u)
            return r.uniform(lo, hi)
        if st == 0:
            v = r.uniform(0.3, 2.5)
        elif st == 1:
            v = r.uniform(0.5, 40.0)
        else:
            v = math.exp(r.uniform(-2, 5.5))
        if s in ('-', '0-'):
            v = -v
        elif s is None and r.random() < 0.4:
            v = -v
        if s in (None, '0+', '0-') and r.random() < 0.04:
            v = 0.0
        return v


class _LazyVars(dict):
    def __init__(self, env):
        dict.__init__(self)
        self.env = env

    def __contains__(self, k):
        return dict.__contains__(self, k)


class _LazyArrays(dict):
    def __init__(self, env):
        dict.__init__(self)
        self.env = env

    def get(self, name, default=None):
        f = dict.get(self, name)
        if f is None:
            cells = {}
            env = self.env

            def f(*ix):
                if ix not in cells:
                    cells[ix] = env.draw(name, ARRSORT.get(name, 'R'), ix)
                return cells[ix]
            f.cells = cells
            self[name] = f
        return f


ARRSORT = {}


def _assign_vars(env, terms_):
    for t in terms_:
        for v in t_.fvs(t):
            n = v.args[0]
            if n in ('pi', 'nan', 'inf') or n in env.vars:
                continue
            env.vars[n] = env.draw(n, v.sort)


def _flat(fs):
    for f in fs:
        if f.op == 'and':
            for x in _flat(f.args):
                yield x
        else:
            yield f


def _fix_eq(env, f):
    """try to satisfy eq0(linear) by setting a plain variable or array cell"""
    t = f.args[0]
    if t.op == 'add':
        items = t.args[1]
        c = t.args[0]
    else:
        items = ((t, Q(1)),)
        c = Q(0)
    for k, v in items:
        if k.op in ('var', 'sel'):
            try:
                rest = evalt.evalt(t_.sub(t, t_.scale(v, k)), env)
            except evalt.EvalError:
                continue
            val = -rest / float(v)
            if k.sort == 'I':
                if abs(val - round(val)) > 1e-9:
                    continue
                val = int(round(val))
            s = t_.SIGN.get(k.args[0])
            if s == '+' and val <= 0 or s == '0+' and val < 0:
                continue
            if k.op == 'var':
                env.vars[k.args[0]] = val
                return True
            try:
                ix = tuple(int(evalt.evalt(a, env)) for a in k.args[1:])
            except evalt.EvalError:
                continue
            env.arrays.get(k.args[0]).cells[ix] = val
            return True
    return False


class Sampler:
    def __init__(self, seed=7):
        self.rng = random.Random(seed)
        self.pool = []
        self.bad = {}

    def env_for(self, facts, extra=(), tries=60):
        facts = tuple(facts)
        for i in range(len(facts), max(0, len(facts) - 4), -1):
            if self.bad.get(facts[:i], 0) >= 2:
                return None
        fs = list(_flat(facts))
        r = self.rng
        t0 = time.time()
        pool = list(self.pool)
        r.shuffle(pool)
        for env in pool[:4]:
            if r.random() < 0.4:
                continue
            e = env.copy()
            if self.satisfy(e, fs, list(facts) + list(extra), 2):
                return e
        for a in range(tries):
            env = LazyEnv(r, r.choice([0, 1, 2, 3, 3, 3] if RANGE else [0, 0, 1, 2]))
            if self.satisfy(env, fs, list(facts) + list(extra), 4):
                self.pool.append(env)
                if len(self.pool) > 10:
                    self.pool.pop(0)
                return env
            if a > 6 and time.time() - t0 > 0.3:
                break
        self.bad[facts] = self.bad.get(facts, 0) + 1
        return None

    def satisfy(self, env, fs, allterms, rounds):
        _assign_vars(env, allterms)
        for rnd in range(rounds):
            ok = True
            for f in fs:
                try:
                    v = evalt.evalt(f, env)
                except evalt.EvalError:
                    return False
                if not v:
                    ok = False
                    if f.op == 'eq0' and _fix_eq(env, f):
                        continue
                    if f.op in ('le0', 'lt0') and self.nudge(env, f):
                        continue
                    return False
            if ok:
                return True
        return False

    def nudge(self, env, f):
        """satisfy a linear inequality by moving one plain variable or cell"""
        t = f.args[0]
        items = t.args[1] if t.op == 'add' else ((t, Q(1)),)
        cand = [(k, v) for k, v in items if k.op in ('var', 'sel')]
        if not cand:
            return False
        k, v = self.rng.choice(cand)
        try:
            rest = evalt.evalt(t_.sub(t, t_.scale(v, k)), env)
        except evalt.EvalError:
            return False
        lim = -rest / float(v)     # v*k + rest <= 0
        if k.sort == 'I':
            val = math.floor(lim) - (f.op == 'lt0' and lim == math.floor(lim)) - self.rng.choice([0, 0, 1, 2]) if v > 0 else \
                math.ceil(lim) + (f.op == 'lt0' and lim == math.ceil(lim)) + self.rng.choice([0, 0, 1, 2])
            val = int(val)
        else:
            d = self.rng.uniform(0.01, 1.0) * (1 + abs(lim) * 0.3)
            val = lim - d if v > 0 else lim + d
        s = t_.SIGN.get(k.args[0])
        if s == '+' and val <= 0 or s == '0+' and val < 0:
            return False
        if k.op == 'var':
            env.vars[k.args[0]] = val
        else:
            try:
                ix = tuple(int(evalt.evalt(a, env)) for a in k.args[1:])
            except evalt.EvalError:
                return False
            env.arrays.get(k.args[0]).cells[ix] = val
        return True


# ------------------------------------------------------------------ prover
COMPOUND = ('sum', 'prod', 'first', 'last', 'lam', 'rec', 'app', 'fn', 'ite', 'sel')


class Ctx:
    """representatives valid under a set of facts (children contexts see their parents' ones)"""

    def __init__(self, facts, parent=None):
        self.facts = tuple(facts)
        self.parent = parent
        self.reps = []
        self.memo = {}
        self.envs = None

    def allreps(self):
        c = self
        while c is not None:
            for r in c.reps:
                yield r
            c = c.parent


class Prover:
    def __init__(self, deadline=None, seed=11):
        self.deadline = deadline
        self.sampler = Sampler(seed)
        self.counter = None      # environment refuting the last failed goal
        self.why = ''
        self.refute = True

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Timeout()

    # -------------------------------------------------- simplification under facts
    def simp(self, t, facts, memo=None):
        """resolve the conditions of t decided by the facts (conditions already taken included)"""
        if memo is None:
            memo = {}

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            self.tick()
            op = x.op
            if op in ('num', 'var', 'bv', 'true', 'false'):
                r = x
            elif op == 'ite':
                c = self.scond(go(x.args[0]), facts)
                if c is TRUE:
                    r = go(x.args[1])
                elif c is FALSE:
                    r = go(x.args[2])
                else:
                    a = self.simp(x.args[1], facts + tuple(_flat([c]))) if self.hasite(x.args[1]) else x.args[1]
                    b = self.simp(x.args[2], facts + tuple(_flat([t_.not_(c)]))) if self.hasite(x.args[2]) else x.args[2]
                    r = t_.ite(c, a, b)
            elif op == 'fn' and x.args[0] in ('max', 'abs'):
                r = t_.rebuild(x, go)
                if r.op == 'fn' and r.args[0] == 'max':
                    d = logic.decide(facts, t_.le(r.args[1], r.args[2]))
                    if d is True:
                        r = r.args[2]
                    elif d is False:
                        r = r.args[1]
                elif r.op == 'fn' and r.args[0] == 'abs':
                    d = logic.decide(facts, t_.le0(r.args[1]))
                    if d is True:
                        r = t_.neg(r.args[1])
                    elif d is False:
                        r = r.args[1]
            elif op in ('sum', 'prod', 'first', 'last', 'lam'):
                n = go(x.args[0])
                _, k, body = t_.open_binder(x)
                f2 = facts + (t_.le0(t_.neg(k)), t_.lt(k, n))
                b2 = self.simp(body, f2) if self.hasite(body) else body
                r = {'sum': t_.bsum, 'first': t_.bfirst, 'last': t_.blast, 'lam': t_.blam, 'prod': t_.bprod}[op](n, k, b2)
            elif not self.hasite(x):
                r = x
            else:
                r = t_.rebuild(x, go)
            memo[x] = r
            return r
        return go(t)

    _hi = {}

    def hasite(self, t):
        r = self._hi.get(t)
        if r is None:
            r = t.op in ('ite', 'lt0', 'le0', 'eq0', 'first', 'last') or t.op == 'fn' and t.args[0] in ('max', 'abs') or \
                any(self.hasite(c) for c in t_.children(t))
            self._hi[t] = r
        return r

    def scond(self, c, facts):
        if c is TRUE or c is FALSE:
            return c
        d = logic.decide(facts, c)
        if d is None:
            if c.op == 'and':
                out = []
                for a in c.args:
                    q = self.scond(a, facts)
                    if q is FALSE:
                        return FALSE
                    if q is not TRUE:
                        out.append(q)
                return t_.and_(*out)
            if c.op == 'or':
                out = []
                for a in c.args:
                    q = self.scond(a, facts)
                    if q is TRUE:
                        return TRUE
                    if q is not FALSE:
                        out.append(q)
                return t_.or_(*out)
        return TRUE if d is True else FALSE if d is False else c

    # -------------------------------------------------- canonicalisation / atom unification
    def canon(self, t, ctx):
        memo = ctx.memo

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            self.tick()
            op = x.op
            if op in ('num', 'var', 'bv', 'true', 'false'):
                return x
            if op in ('sum', 'prod', 'first', 'last', 'lam'):
                n = go(x.args[0])
                _, k, body = t_.open_binder(x)
                sub = Ctx(ctx.facts + (t_.le0(t_.neg(k)), t_.lt(k, n)), ctx)
                b2 = self.canon(self.simp(body, sub.facts), sub)
                r = {'sum': t_.bsum, 'first': t_.bfirst, 'last': t_.blast, 'lam': t_.blam, 'prod': t_.bprod}[op](n, k, b2)
                if r.op == op:
                    r = self.unify(r, ctx)
                elif r is not x:
                    r = self.unify_all(r, ctx)
            elif op == 'rec':
                i, n, inits, bodies, hh = x.args
                k = t_.fresh('k', 'I')
                vs = [t_.fresh('s') for _ in inits]
                m = {t_.bv(hh): k}
                for j in range(len(inits)):
                    m[t_.svar(hh, j)] = vs[j]
                n = go(n)
                sub = Ctx(ctx.facts + (t_.le0(t_.neg(k)), t_.lt(k, n)), ctx)
                bs = [self.canon(self.simp(t_.subst(b, m), sub.facts), sub) for b in bodies]
                r = t_.brec(i, n, [go(y) for y in inits], k, vs, bs)
                r = self.unify(r, ctx)
            elif op == 'ite':
                c = go(x.args[0])
                if c is TRUE:
                    r = go(x.args[1])
                elif c is FALSE:
                    r = go(x.args[2])
                else:
                    a = self.canon(x.args[1], Ctx(ctx.facts + tuple(_flat([c])), ctx))
                    b = self.canon(x.args[2], Ctx(ctx.facts + tuple(_flat([t_.not_(c)])), ctx))
                    r = t_.ite(c, a, b)
            elif op in ('app', 'sel', 'fn'):
                r = t_.rebuild(x, go)
                if r.op == op and op != 'sel':
                    r = self.unify(r, ctx)
            elif op in ('lt0', 'le0', 'eq0'):
                r = t_.rebuild(x, go)
            elif op == 'mul':
                r = t_.rebuild(x, go)
                # powers of sums with non-integer or negative exponents: unify the base
            else:
                r = t_.rebuild(x, go)
            memo[x] = r
            return r
        return go(t)

    def unify_all(self, t, ctx):
        """unify the binder atoms a smart constructor produced"""
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            if x.op in ('sum', 'prod', 'first', 'last', 'lam', 'rec'):
                r = self.unify(x, ctx)
            elif x.op in ('add', 'mul', 'ite', 'fn'):
                r = t_.rebuild(x, go)
            else:
                r = x
            memo[x] = r
            return r
        return go(t)

    def head(self, t):
        if t.op in ('app', 'fn'):
            return (t.op, t.args[0], len(t.args))
        if t.op == 'rec':
            return ('rec', len(t.args[2]))
        return (t.op,)

    def unify(self, u, ctx):
        h = self.head(u)
        for r in ctx.allreps():
            if r is u:
                return u
        for r in ctx.allreps():
            if r[0] != h if isinstance(r, tuple) else self.head(r) != h:
                continue
            if not self.fp_match(u, r):
                continue
            STATS['unify'] += 1
            v = self.related(u, r, ctx)
            if v is not None:
                return v
        ctx.reps.append(u)
        return u

    # -------------------------------------------------- fingerprints: which atoms are worth comparing
    fpe = None

    def fp_setup(self, F, ts):
        if self.fpe is not None:
            return
        F = tuple(F)
        envs = []
        G = tuple(f for f in _flat(F) if f.op == 'eq0' or f.op in ('le0', 'lt0') and f.args[0].sort == 'I' and not self.hasite(f.args[0]))
        for i in range(3):
            e = self.sampler.env_for(F, ts, tries=20) or self.sampler.env_for(G, ts, tries=20)
            if e is not None:
                envs.append((e, {}))
        self.fpe = envs

    def fp(self, t):
        out = []
        for e, memo in self.fpe or ():
            try:
                _assign_vars(e, (t,))
                v = evalt.evalt(t, e, memo=memo)
                if callable(v) or v != v or v in (math.inf, -math.inf):
                    v = None
            except (evalt.EvalError, RecursionError, ValueError, TypeError, OverflowError, ZeroDivisionError):
                v = None
            out.append(v)
        return out

    def fp_match(self, u, r):
        if not self.fpe:
            return True
        if u.op not in ('app', 'fn', 'first', 'last', 'sum', 'prod') or u.op in ('sum', 'prod') and u.args[0] is not r.args[0]:
            return True
        if u.h or r.h:
            return True
        bad = 0
        for x, y in zip(self.fp(u), self.fp(r)):
            if x is None or y is None:
                if (x is None) != (y is None):
                    bad += 0
                continue
            if abs(x - y) > 1e-6 * max(abs(x), abs(y)) + 1e-250:
                bad += 1
        return bad < 2

    def related(self, u, r, ctx):
        """a term equal to u expressed with the representative r, or None"""
        F = ctx.facts
        op = u.op
        if op in ('app', 'fn'):
            for a, b in zip(u.args[1:], r.args[1:]):
                if isinstance(a, T) != isinstance(b, T):
                    return None
                if not isinstance(a, T):
                    if a != b:
                        return None
                    continue
                if a is b:
                    continue
                if a.op == 'lam' and b.op == 'lam':
                    if self.lam_eq(a, b, ctx):
                        continue
                    return None
                if a.sort == 'B':
                    if self.iff(a, b, F):
                        continue
                    return None
                if not self.quick_eq(a, b, F):
                    return None
            return r
        if op == 'sel':
            return None
        if op == 'rec':
            if u.args[0] != r.args[0] or len(u.args[2]) != len(r.args[2]):
                return None
            if not self.quick_eq(u.args[1], r.args[1], F):
                return None
            for a, b in zip(u.args[2], r.args[2]):
                if not self.quick_eq(a, b, F):
                    return None
            k = t_.fresh('k', 'I')
            vs = [t_.fresh('s') for _ in u.args[2]]

            def inst(x):
                m = {t_.bv(x.args[4]): k}
                for j in range(len(vs)):
                    m[t_.svar(x.args[4], j)] = vs[j]
                return [t_.subst(b, m) for b in x.args[3]]
            F2 = F + (t_.le0(t_.neg(k)), t_.lt(k, u.args[1]))
            for a, b in zip(inst(u), inst(r)):
                if not self.quick_eq(a, b, F2):
                    return None
            return r
        # binders
        nu, nr = u.args[0], r.args[0]
        diff = t_.sub(nu, nr)
        if diff.op != 'num':
            diff = self.simp(diff, F)
        if diff.op != 'num':
            try:
                if poly.is_zero(diff, 4000):
                    diff = ZERO
            except poly.TooBig:
                pass
        if diff.op != 'num':
            if logic.entails(F, t_.eq(nu, nr)):
                diff = ZERO
            else:
                return None
        c = diff.args[0]
        if c.denominator != 1:
            return None
        c = int(c)
        k = t_.fresh('k', 'I')
        _, _, bu = t_.open_binder(u, k)
        _, _, br = t_.open_binder(r, k)
        rng = (t_.le0(t_.neg(k)), t_.lt(k, nu if c <= 0 else nr))
        F2 = F + rng
        if c == 0:
            if op in ('first', 'last'):
                return r if self.iff(bu, br, F2) else None
            return r if self.quick_eq(bu, br, F2) else None
        if op not in ('sum', 'prod') or abs(c) > 3:
            return None
        # different lengths: peel |c| terms of the longer one, at the end or at the front
        comb = (t_.add, t_.sub) if op == 'sum' else (t_.mul, t_.div)
        longer, shorter = (bu, br) if c > 0 else (br, bu)
        m = nr if c > 0 else nu
        if not logic.entails(F, t_.le(ZERO, m)):
            return None

        def result(peeled):
            if c > 0:
                return comb[0](r, *peeled)
            # r (longer) = u + peeled  ->  u = r - peeled
            return comb[1](r, comb[0](*peeled) if len(peeled) > 1 else peeled[0])
        if self.quick_eq(longer, shorter, F2):
            return result([t_.subst(longer, {k: t_.add(m, num(j))}) for j in range(abs(c))])
        if self.quick_eq(t_.subst(longer, {k: t_.add(k, num(abs(c)))}), shorter, F2):
            return result([t_.subst(longer, {k: num(j)}) for j in range(abs(c))])
        return None

    def lam_eq(self, a, b, ctx):
        F = ctx.facts
        if not self.quick_eq(a.args[0], b.args[0], F):
            return False
        k = t_.fresh('k', 'I')
        _, _, ba = t_.open_binder(a, k)
        _, _, bb = t_.open_binder(b, k)
        return self.quick_eq(ba, bb, F + (t_.le0(t_.neg(k)), t_.lt(k, a.args[0])))

    relaxed = False

    def quick_eq(self, a, b, F):
        saved = self.relaxed, self.splits_first
        self.relaxed = True
        self.splits_first = False
        try:
            return self.quick_eq_(a, b, F)
        finally:
            self.relaxed, self.splits_first = saved

    def quick_eq_(self, a, b, F):
        if a is b:
            return True
        if a.sort == 'B' or b.sort == 'B':
            return self.iff(a, b, F)
        if a.op == 'num' and b.op == 'num':
            return a.args[0] == b.args[0]
        if a.op == 'lam' or b.op == 'lam':
            return a.op == b.op and self.lam_eq(a, b, Ctx(F))
        if not self.maybe_equal(a, b, F):
            return False
        return self.eq(a, b, F)

    # -------------------------------------------------- numeric refutation
    def maybe_equal(self, a, b, F, n=4):
        got = 0
        for i in range(n):
            env = self.sampler.env_for(F, (a, b), tries=25)
            if env is None:
                continue
            v = self.num_cmp(a, b, env)
            if v is None:
                continue
            if v is False:
                self.counter = env
                return False
            got += 1
            if got >= 3:
                break
        if not got and self.relaxed and not self.hasite(a) and not self.hasite(b):
            G = tuple(f for f in _flat(F) if f.op == 'eq0' or f.op in ('le0', 'lt0') and f.args[0].sort == 'I' and not self.hasite(f.args[0]))
            n = 0
            for i in range(3):
                env = self.sampler.env_for(G, (a, b), tries=25)
                if env is None:
                    break
                v = self.num_cmp(a, b, env)
                if v is False:
                    n += 1
                elif v is True:
                    break
                if n >= 2:
                    return False
        return True

    def num_cmp(self, a, b, env):
        try:
            x = evalt.evalt(a, env)
            y = evalt.evalt(b, env)
        except (evalt.EvalError, RecursionError, ValueError, TypeError):
            return None
        if callable(x) or callable(y):
            return None
        if isinstance(x, bool) or isinstance(y, bool):
            return bool(x) == bool(y)
        if x != x or y != y or abs(x) == math.inf or abs(y) == math.inf:
            return None
        if abs(x - y) <= 1e-6 * max(abs(x), abs(y)) + 1e-280:
            return True
        # cancellation? recompute in high precision
        try:
            import mpmath
            with mpmath.workdps(60):
                x = evalt.evalt(a, env, mp=True)
                y = evalt.evalt(b, env, mp=True)
                return bool(abs(x - y) <= mpmath.mpf(10) ** -25 * max(abs(x), abs(y)))
        except Exception:
            return None

    # -------------------------------------------------- boolean
    def iff(self, a, b, F):
        if a is b:
            return True
        a = self.bnorm(a, F)
        b = self.bnorm(b, F)
        if a is b:
            return True
        F = tuple(F)
        if not self.maybe_equal(a, b, F):
            return False
        return self.entails(F + (a,), b) and self.entails(F + (b,), a)

    def bnorm(self, c, F):
        c = self.scond(self.simp(c, F), F)
        return c

    def entails(self, F, c, nl=True, depth=0):
        """facts imply c"""
        if c is TRUE:
            return True
        if logic.entails(F, c):
            return True
        if c.op == 'and':
            return all(self.entails(F, x, nl, depth) for x in c.args)
        ctx = Ctx(F)
        fs = []
        for f in F:
            fs.append(self.canon(f, ctx))
        c2 = self.canon(self.simp(c, F), ctx)
        if c2 is TRUE or logic.entails(tuple(fs), c2):
            return True
        # syntactic: equality goals by the equality prover
        if c2.op == 'eq0' and depth < 2:
            if self.eq(c2.args[0], ZERO, F):
                return True
        if c2.op == 'or' and depth < 2:
            for x in c2.args:
                rest = [t_.not_(y) for y in c2.args if y is not x]
                if x.op == 'eq0' and self.entails(tuple(F) + tuple(rest), x, nl, depth + 1):
                    return True
        if nl and logic.entails(tuple(fs), c2, timeout=2000, nl=True):
            return True
        # sign of differences through expansion
        try:
            if c2.op in ('lt0', 'le0'):
                u = poly.expand(c2.args[0], 2000)
                c3 = t_.lt0(u) if c2.op == 'lt0' else t_.le0(u)
                if c3 is TRUE or c3 is not c2 and logic.entails(tuple(fs), c3, timeout=1500, nl=True):
                    return True
        except poly.TooBig:
            pass
        # case split
        if depth < 3:
            s = self.split_cond(c2, F)
            if s is not None:
                STATS['splits'] += 1
                return self.entails(tuple(F) + (s,), self.simp(c2, tuple(F) + (s,)), nl, depth + 1) and \
                    self.entails(tuple(F) + (t_.not_(s),), self.simp(c2, tuple(F) + (t_.not_(s),)), nl, depth + 1)
        return False

    # -------------------------------------------------- equality
    def eq(self, a, b, F, depth=0):
        self.tick()
        STATS['eq'] += 1
        F = tuple(F)
        if a is b:
            return True
        if a.sort == 'B' or b.sort == 'B':
            return self.iff(a, b, F)
        memo = {}
        a = self.simp(a, F, memo)
        b = self.simp(b, F, memo)
        if a is b:
            return True
        d = t_.sub(a, b)
        if d is ZERO:
            return True
        if self.zero(d):
            return True
        if d.op == 'num':
            return False
        if depth == 0 and self.refute and not self.maybe_equal(a, b, F):
            self.why = 'refuted numerically'
            return False
        self.fp_setup(F, (a, b))
        if depth == 0 and self.splits_first:
            r = self.eq_split(a, b, F)
            if r:
                return True
            self.refute_done = True
        ctx = Ctx(F)
        a = self.canon(a, ctx)
        b = self.canon(b, ctx)
        d = t_.sub(a, b)
        if d is ZERO or self.zero(d):
            return True
        d2 = self.merge_sums(d, F)
        if d2 is not d:
            if d2 is ZERO or self.zero(d2):
                return True
            d = d2
        if 14 < depth < 100 or depth > 106:
            self.why = 'split depth'
            return False
        c = self.split_cond(d, F)
        if c is None:
            if logic.entails(F, t_.eq0(d)) or logic.inconsistent(F, nl=False):
                return True
            if self.eqsub(d, F):
                return True
            pins = {}
            for x in t_.subterms(d):
                if x.op == 'fn' and x.args[0] in ('floor', 'trunc') and x.h == 0:
                    v = logic.int_value(F, x)
                    if v is not None:
                        pins[x] = t_.num(v)
            if pins:
                return self.eq(t_.subst(a, pins), t_.subst(b, pins), F, depth + 1)
            if depth < 100:
                extra = quant.instances(F, (d,))
                if extra:
                    if logic.inconsistent(F + extra):
                        return True
                    return self.eq(a, b, F + extra, 100)
            self.why = 'residual: ' + str(d)[:400]
            return False
        STATS['splits'] += 1
        for g in (c, t_.not_(c)):
            if logic.decide(F, g) is False:
                continue
            F2 = F + tuple(_flat([g]))
            m = self.forced(F, g)
            if m:
                F2 = tuple(y for y in (t_.subst(x, m) for x in F2) if y is not TRUE)
                if FALSE in F2:
                    continue
                ok = self.eq(t_.subst(a, m), t_.subst(b, m), F2, depth + 1)
            else:
                ok = self.eq(a, b, F2, depth if c.op == 'eq0' and g is not c else depth + 1)
            if not ok and not self.inconsistent(F2):
                return False
        return True

    splits_first = True

    def eq_split(self, a, b, F):
        """case analysis first: unify the index operators occurring in conditions, split on every closed condition, and
        compare the (mostly condition-free) leaves"""
        ctx = Ctx(F)
        m = {}
        for x in sorted(set(t_.subterms(a)) | set(t_.subterms(b)), key=lambda t: t.id):
            if x.op in ('first', 'last') and x.h == 0:
                y = self.canon(x, ctx)
                if y is not x:
                    m[x] = y
        if m:
            a, b = t_.subst(a, m), t_.subst(b, m)
            F = tuple(t_.subst(f, m) for f in F)
        self.leaves = 0
        saved = self.splits_first
        self.splits_first = False
        try:
            return self.eq_leaf(a, b, F, 0)
        finally:
            self.splits_first = saved

    def eq_leaf(self, a, b, F, depth):
        self.tick()
        if a is b:
            return True
        a = self.simp(a, F)
        b = self.simp(b, F)
        if a is b:
            return True
        d = t_.sub(a, b)
        if d is ZERO:
            return True
        c = self.split_outer((a, b), F, True) if depth < 14 else None
        if c is None and depth < 14:
            # only real-valued conditions are left: they often agree literally
            if self.zero(d):
                return True
            c = self.split_outer((a, b), F)
        if os.environ.get('PYVC_DEBUG'):
            print('leaf', depth, t_.size(d), str(c)[:120], flush=True)
            if c is not None and not all(x.sort != 'R' for x in t_.children(c)):
                print('   ', str(d)[:1500])
        if c is None:
            self.leaves += 1
            if self.leaves > 200:
                return False
            if d.op == 'num':
                return self.inconsistent(F) or self.inconsistent(F + quant.instances(F, ()))
            if self.zero(d):
                return True
            return self.eq(a, b, F, 1) or self.inconsistent(F)
        STATS['splits'] += 1
        for g in (c, t_.not_(c)):
            if logic.decide(F, g) is False:
                continue
            F2 = F + tuple(_flat([g]))
            m = self.forced(F, g)
            x, y = a, b
            if m:
                F2 = tuple(y for y in (t_.subst(x, m) for x in F2) if y is not TRUE)
                if FALSE in F2:
                    continue
                x, y = t_.subst(a, m), t_.subst(b, m)
            if not self.eq_leaf(x, y, F2, depth if c.op == 'eq0' and g is not c else depth + 1):
                return False
        return True

    def forced(self, F, g):
        """substitution {integer variable: term} when the new fact g turns a bound into an equality"""
        for f in _flat([g]):
            if f.op == 'eq0':
                t = f.args[0]
            elif f.op == 'le0' and f.args[0].sort == 'I' and logic.entails(F, t_.le0(t_.neg(f.args[0]))):
                t = f.args[0]
            else:
                continue
            items = t.args[1] if t.op == 'add' else ((t, Q(1)),)
            cand = [(k, v) for k, v in items if k.op == 'var' and k.sort == 'I' and abs(v) == 1]
            cand.sort(key=lambda kv: (0 if '!' in kv[0].args[0] else 1, -kv[0].id))
            for k, v in cand:
                e = t_.scale(Q(-1) / v, t_.sub(t, t_.scale(v, k)))
                if e.sort == 'I' and k not in t_.fvs(e):
                    return {k: e}
        return None

    def inconsistent(self, F):
        return logic.inconsistent(F, nl=True)

    def eqsub(self, d, F):
        """use equality facts: rewrite with x = e for facts eq0(x - e)"""
        for f in F:
            if f.op == 'eq0':
                t = f.args[0]
                items = t.args[1] if t.op == 'add' else ((t, Q(1)),)
                for k, v in items:
                    if k.op in ('var', 'sel', 'app', 'sum', 'fn', 'first', 'last'):
                        e = t_.scale(Q(-1) / v, t_.sub(t, t_.scale(v, k)))
                        if k.op == 'var' and k in t_.fvs(e):
                            continue
                        try:
                            d2 = t_.subst(d, {k: e})
                        except ZeroDivisionError:
                            continue
                        if d2 is not d:
                            d2 = self.simp(d2, F)
                            ctx = Ctx(F)
                            d2 = self.canon(d2, ctx)
                            if d2 is ZERO or self.zero(d2):
                                return True
                            d = d2
                            break
        return False

    def zero(self, d):
        STATS['poly'] += 1
        try:
            return poly.is_zero(d, 30000)
        except poly.TooBig:
            return False
        except ZeroDivisionError:
            return False

    def merge_sums(self, d, F):
        """combine sums over the same range occurring linearly in the (expanded) difference"""
        try:
            p = poly.to_poly(d, 4000)
        except poly.TooBig:
            return d
        groups = []
        rest = {}
        for m, c in p.items():
            ss = [(a, e) for a, e in m if a.op == 'sum']
            if len(ss) == 1 and ss[0][1] == 1:
                s = ss[0][0]
                others = poly._mono({a: e for a, e in m if a is not s})
                cc = poly.from_poly({others: c})
                for g in groups:
                    if g[0] is s.args[0] or t_.sub(g[0], s.args[0]) is ZERO:
                        g[1].append((cc, s))
                        break
                else:
                    groups.append((s.args[0], [(cc, s)]))
            else:
                rest[m] = c
        if not groups or len(groups) == 1 and len(groups[0][1]) < 2:
            return d
        if len(groups) == 2:
            if self.tail_zero(groups, F):
                return poly.from_poly(rest) if rest else ZERO
        out = [poly.from_poly(rest)] if rest else []
        changed = False
        for n, items in groups:
            if len(items) < 2:
                out += [t_.mul(c, s) for c, s in items]
                continue
            k = t_.fresh('k', 'I')
            tot = t_.add(*[t_.mul(c, t_.open_binder(s, k)[2]) for c, s in items])
            F2 = F + (t_.le0(t_.neg(k)), t_.lt(k, n))
            if self.maybe_equal(tot, ZERO, F2) and self.eq(tot, ZERO, F2, 3):
                changed = True
                continue
            out += [t_.mul(c, s) for c, s in items]
        return t_.add(*out) if changed and out else ZERO if changed else d

    def tail_zero(self, groups, F):
        """c1*sum[k<n1] b1 + c2*sum[k<n2] b2 == 0 because the terms cancel below n2 <= n1 and b1 vanishes from n2 on"""
        (n1, i1), (n2, i2) = groups
        if logic.entails(F, t_.le(n1, n2)):
            n1, i1, n2, i2 = n2, i2, n1, i1
        elif not logic.entails(F, t_.le(n2, n1)):
            return False
        k = t_.fresh('k', 'I')
        t_.SIGN[k.args[0]] = '0+'
        tot = t_.add(*[t_.mul(c, t_.open_binder(s, k)[2]) for c, s in i1 + i2])
        F2 = F + (t_.lt(k, n2),)
        F2 += quant.instances(F2, (tot,))
        if not self.eq(tot, ZERO, F2, 3):
            return False
        tail = t_.add(*[t_.mul(c, t_.open_binder(s, k)[2]) for c, s in i1])
        F2 = F + (t_.le(n2, k), t_.lt(k, n1))
        F2 += quant.instances(F2, (tail, n2))
        return self.eq(tail, ZERO, F2, 3)

    def split_outer(self, ts, F, ints=False):
        """the undecided condition of an outermost closed conditional (smallest first among equals)"""
        level = list(ts)
        seen = set()
        while level:
            best = None
            nxt = []
            for x in level:
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'ite' and x.args[0].h == 0:
                    for y in self.batoms(x.args[0]):
                        if ints and (y.op not in ('lt0', 'le0', 'eq0') or y.args[0].sort != 'I'):
                            continue
                        if y.h == 0 and logic.decide(F, y) is None:
                            key = (t_.size(y), y.id)
                            if best is None or key < best[0]:
                                best = (key, y)
                nxt += t_.children(x)
            if best:
                return best[1]
            level = nxt
        return None

    def batoms(self, c):
        if c.op in ('and', 'or', 'not'):
            for x in c.args:
                yield from self.batoms(x)
        elif c.op in ('lt0', 'le0', 'eq0', 'var', 'sel', 'app'):
            yield c

    def split_cond(self, d, F):
        """an undecided condition of d without bound variables"""
        best = None
        seen = set()
        stack = [d]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite' and x.args[0].h == 0:
                c = x.args[0]
                while c.op in ('and', 'or', 'not'):
                    c = c.args[0]
                cc = c
                if logic.decide(F, cc) is None:
                    key = (t_.size(cc), cc.id)
                    if best is None or key < best[0]:
                        best = (key, cc)
                else:
                    # the atom is decided: the whole condition must simplify; take another atom
                    for y in t_.subterms(x.args[0]):
                        if y.op in ('lt0', 'le0', 'eq0') and y.h == 0 and logic.decide(F, y) is None:
                            key = (t_.size(y), y.id)
                            if best is None or key < best[0]:
                                best = (key, y)
                            break
            elif x.op == 'fn' and x.args[0] in ('max', 'abs') and x.h == 0:
                cc = t_.le(x.args[1], x.args[2]) if x.args[0] == 'max' else t_.le0(x.args[1])
                if logic.decide(F, cc) is None:
                    key = (t_.size(cc) + 3, cc.id)
                    if best is None or key < best[0]:
                        best = (key, cc)
            for c in t_.children(x):
                stack.append(c)
        return best[1] if best else None
