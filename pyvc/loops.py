"""Loop summaries: closed forms (sums, products, last writes, recurrences) for the state after k
iterations, found by solving the transition of one symbolic iteration; early exits through
first-index terms. No bound on the trip count is used."""
import ast
from . import terms as t_
from .terms import T, TRUE, FALSE, ZERO, ONE, num, and_, or_, not_, ite
from .values import *
from . import values as V
from . import seqlib


class GrowList:
    """a list being appended to by the loop under analysis; only appends are allowed"""

    def __init__(self, key, items=()):
        self.key, self.items = key, list(items)

    def _no(self, *a):
        raise Unsupported('list used while a loop is growing it')
    __len__ = __iter__ = __getitem__ = _no

    def append(self, x):
        return GrowList(self.key, self.items + [(TRUE, x)])

    def merge_grown(self, c, o, sa, sb, out):
        """self when c, else o"""
        if o.key != self.key:
            raise V.NotMergeable()
        a, b = self.items, o.items
        p = 0
        while p < min(len(a), len(b)) and a[p] is b[p]:
            p += 1
        ra, rb = a[p:], b[p:]
        if len(ra) == len(rb) == 1 and ra[0][0] is rb[0][0]:
            return GrowList(self.key, a[:p] + [(ra[0][0], V.merge_val(c, ra[0][1], rb[0][1], sa, sb, out))])
        return GrowList(self.key, a[:p] + [(and_(c, g), x) for g, x in ra] + [(and_(not_(c), g), x) for g, x in rb])


class SymList:
    """a python list of symbolic length"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def _no(self, *a):
        raise Unsupported('list of symbolic length')
    __len__ = __iter__ = __getitem__ = _no


def transform(t, pre, memo):
    """rebuild t bottom-up, pre(x, go) may supply a replacement for x"""
    def go(x):
        r = memo.get(x)
        if r is None:
            r = pre(x, go)
            if r is None:
                r = t_.rebuild(x, go) if t_.children(x) else x
            memo[x] = r
        return r
    return go(t)


def sels_of(t, names, acc=None, seen=None):
    acc = acc if acc is not None else set()
    seen = seen if seen is not None else set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == 'sel' and t.args[0] in names:
        acc.add(t)
    for c in t_.children(t):
        sels_of(c, names, acc, seen)
    return acc


_SELN = {}


def selnames(t):
    r = _SELN.get(t)
    if r is None:
        r = frozenset([t.args[0]]) if t.op == 'sel' else frozenset()
        for c in t_.children(t):
            r = r | selnames(c)
        _SELN[t] = r
    return r


# ------------------------------------------------------------------ locations
def getloc(st, key):
    if key[0] == 'env':
        return st.env.get(key[1], UNDEF)
    if key[0] == 'heap':
        return st.heap.get(key[1], UNDEF)
    return st.heap[key[1]].get(key[2], UNDEF)


def setloc(st, key, v):
    if key[0] == 'env':
        if v is UNDEF:
            st.env.pop(key[1], None)
        else:
            st.env[key[1]] = v
    elif key[0] == 'heap':
        st.heap[key[1]] = v
    else:
        d = dict(st.heap[key[1]])
        if v is UNDEF:
            d.pop(key[2], None)
        else:
            d[key[2]] = v
        st.heap[key[1]] = d


def modified(head, out):
    """locations of head whose value differs in out"""
    ch = []
    for n in list(out.env) + [n for n in head.env if n not in out.env]:
        a, b = head.env.get(n, UNDEF), out.env.get(n, UNDEF)
        if a is POISON and b is POISON:
            continue
        if not same(a, b):
            ch.append(('env', n))
    for l, a in head.heap.items():
        b = out.heap.get(l)
        if a is b:
            continue
        if isinstance(a, dict) and isinstance(b, dict):
            for k in list(b) + [k for k in a if k not in b]:
                x, y = a.get(k, UNDEF), b.get(k, UNDEF)
                if x is POISON and y is POISON:
                    continue
                if not same(x, y):
                    ch.append(('attr', l, k))
        elif isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
                ch.append(('heap', l))
        elif isinstance(a, (Buf, GrowList, SymList)):
            ch.append(('heap', l))
        elif not same(a, b):
            ch.append(('heap', l))
    return ch


class Loc:
    def __init__(self, key):
        self.key = key
        self.kind = None       # scalar / complex / buf / arr / list / temp / df
        self.sort = 'I'
        self.syms = None
        self.names = None
        self.ndim = 0


def kind_of(pre, posts):
    vals = [pre] + posts
    if isinstance(pre, DF):
        return 'df'
    if all(isinstance(v, T) for v in vals):
        if all(v.sort == 'B' for v in vals):
            return 'bool'
        if any(v.sort == 'B' for v in vals):
            return 'temp'
        return 'scalar'
    if all(isinstance(v, (T, C)) for v in vals):
        return 'complex'
    if all(isinstance(v, Buf) for v in vals):
        return 'buf'
    if all(isinstance(v, Arr) for v in vals) and all(v.shape == pre.shape for v in posts):
        return 'arr'
    if isinstance(pre, (list, GrowList)) and all(isinstance(v, (list, GrowList)) for v in posts):
        if isinstance(pre, list) and all(isinstance(v, list) and len(v) == len(pre) for v in posts):
            return 'cells'
        return 'list'
    return 'temp'


def summarise(I, st, n, bind, body, orelse, mod, precond=None):
    """outcomes of a loop running body for k=0..n-1 (precond(st)->'exit' support for while)"""
    H = {}
    rounds = 0
    while True:
        rounds += 1
        if rounds > 12:
            raise Unsupported('loop analysis does not stabilise')
        k = t_.fresh('k', 'I')
        t_.SIGN[k.args[0]] = '0+'
        head = st.copy()
        for key, L in H.items():
            havoc(st, head, L)
        head.assume(t_.le0(t_.neg(k)))
        head.assume(t_.lt(k, n))
        base = head.pc
        h0 = head.copy()

        def h(s):
            return [(s, bind(s, k) or V_NEXT, None)]
        outs = []
        for o in I.run_forked(head, h):
            if o[1] == V_NEXT:
                outs += I.exec_block(o[0], body, mod)
            else:
                outs.append(o)
        nxt = [(o[0], V_NEXT, None) for o in outs if o[1] in ('next', 'continue')]
        exits = [o for o in outs if o[1] not in ('next', 'continue')]
        nxt = I.merge_next(nxt)
        if len(nxt) > 1:
            # a list appended to on some paths only: once it is known to grow, the paths merge
            grown = {key for o in nxt for key in modified(h0, o[0])
                     if key not in H and isinstance(getloc(st, key), list) and kind_of(getloc(st, key), [getloc(o[0], key)]) == 'list'}
            if grown:
                for key in grown:
                    L = H[key] = Loc(key)
                    L.kind = 'list'
                continue
            raise Unsupported('loop body paths do not merge: ' + getattr(I, 'last_nomerge', ''))
        new = False
        allouts = nxt
        for o in allouts:
            for key in modified(h0, o[0]):
                L = H.get(key)
                pre = getloc(st, key)
                post = getloc(o[0], key)
                if L is None:
                    L = H[key] = Loc(key)
                    L.kind = kind_of(pre, [post])
                    new = True
                else:
                    kd = kind_of(pre, [post])
                    if kd != L.kind and L.kind not in ('temp',):
                        if {kd, L.kind} == {'scalar', 'complex'}:
                            if L.kind == 'scalar':
                                L.kind = 'complex'
                                new = True
                        else:
                            L.kind = 'temp'
                            new = True
                if L.kind in ('scalar', 'complex', 'buf', 'arr'):
                    s = sort_of(I, pre, post, L, st, o[0])
                    if s == 'R' and L.sort == 'I':
                        L.sort = 'R'
                        new = True
        if not new:
            break
    if not nxt:
        # the body never completes normally: at most one iteration
        return one_shot(I, st, n, k, base, exits, orelse, mod, head=h0, H=H)
    return solve(I, st, n, k, base, h0, nxt[0][0], exits, H, orelse, mod)


V_NEXT = 'next'


def sort_of(I, pre, post, L, st, so):
    if L.kind == 'scalar':
        return 'R' if pre.sort == 'R' or post.sort == 'R' else 'I'
    if L.kind == 'complex':
        return 'R'
    if L.kind == 'buf':
        return 'I' if pre.dtype == 'I' else 'R'
    return 'R'


def havoc(st, head, L):
    pre = getloc(st, L.key)
    if L.kind == 'scalar':
        s = t_.fresh('v', L.sort)
        L.syms = [s]
        setloc(head, L.key, s)
    elif L.kind == 'bool':
        s = t_.fresh('v', 'B')
        L.syms = [s]
        setloc(head, L.key, s)
    elif L.kind == 'complex':
        L.syms = [t_.fresh('v', 'R'), t_.fresh('v', 'R')]
        setloc(head, L.key, C(*L.syms))
    elif L.kind in ('buf', 'arr'):
        nm = t_.fresh('A').args[0]
        if L.kind == 'buf':
            shape, dt = pre.shape, pre.dtype
        else:
            shape, dt = pre.shape, pre.dtype
            if dt == 'I':
                dt = 'R'
        L.ndim = len(shape)
        L.dtype = dt
        if dt == 'C':
            L.names = [nm + 're', nm + 'im']
            fn = lambda idx: C(t_.sel(L.names[0], *idx), t_.sel(L.names[1], *idx))
        else:
            L.names = [nm]
            fn = lambda idx: t_.sel(nm, *idx, sort=dt)
        if L.kind == 'buf':
            head.heap[L.key[1]] = Buf(shape, fn, dt, pre.merged)
        else:
            setloc(head, L.key, head.new_arr(shape, fn, dt, pre.islist))
    elif L.kind == 'list':
        head.heap[L.key[1]] = GrowList(L.key)
    elif L.kind == 'cells':
        items = []
        L.syms = []
        for x in pre:
            if not isinstance(x, T):
                raise Unsupported('list cells')
            s = t_.fresh('v', 'R')
            L.syms.append(s)
            items.append(s)
        head.heap[L.key[1]] = items
    elif L.kind == 'df':
        L.base = DF(pre.cols, t_.fresh('nb', 'I'), pre.rows)
        setloc(head, L.key, L.base)
    else:
        if L.key[0] == 'heap' and isinstance(pre, (Buf, list)):
            raise Unsupported('loop-carried heap value')
        setloc(head, L.key, POISON)


# ------------------------------------------------------------------ scalar recurrences
def guard(F, v):
    """condition under which F is not the unchanged v"""
    if F is v:
        return FALSE
    if F.op == 'ite' and (v in t_.fvs(F)):
        return or_(and_(F.args[0], guard(F.args[1], v)), and_(not_(F.args[0]), guard(F.args[2], v)))
    return TRUE


def leaves(F, out, depth=0):
    if F.op == 'ite' and F.sort != 'B':
        leaves(F.args[1], out)
        leaves(F.args[2], out)
    else:
        out.append(F)


def map_leaves(F, f, v):
    if F.op == 'ite' and (v is None or v in t_.fvs(F) and v not in t_.fvs(F.args[0])):
        return ite(F.args[0], map_leaves(F.args[1], f, v), map_leaves(F.args[2], f, v))
    return f(F)


def delta(F, v):
    """F - v when every leaf is v + g with g free of v; None otherwise"""
    class No(Exception):
        pass

    def leaf(x):
        d = t_.sub(x, v)
        if v in t_.fvs(d):
            if x.op == 'ite' and v in t_.fvs(x.args[0]):
                raise No()
            # one try at pulling the variable out of nested ites inside a sum
            d2 = pull(d, v)
            if d2 is None:
                raise No()
            return d2
        return d
    try:
        return map_leaves(F, leaf, v)
    except No:
        return None


def pull(d, v):
    if d.op == 'add':
        c, items = d.args
        for t, q in items:
            if t.op == 'ite' and v in t_.fvs(t) and v not in t_.fvs(t.args[0]):
                rest = t_.sub(d, t_.scale(q, t))
                a = t_.add(rest, t_.scale(q, t.args[1]))
                b = t_.add(rest, t_.scale(q, t.args[2]))
                a = a if v not in t_.fvs(a) else pull(a, v)
                b = b if v not in t_.fvs(b) else pull(b, v)
                if a is None or b is None:
                    return None
                return ite(t.args[0], a, b)
    if d.op == 'mul' or d.op == 'add':
        from . import poly
        try:
            e = poly.expand(d)
        except Exception:
            return None
        if v not in t_.fvs(e):
            return e
    return None


def factor(F, v):
    """g with every leaf = v*g, g free of v; None otherwise"""
    class No(Exception):
        pass

    def leaf(x):
        if x is v:
            return ONE
        d = t_.div(x, v)
        if v in t_.fvs(d):
            raise No()
        return d
    try:
        return map_leaves(F, leaf, v)
    except No:
        return None


def conj(c):
    return list(c.args) if c.op == 'and' else [c]


def solve_point(c, i):
    """conjunct set containing i == e: (e, rest)"""
    cs = conj(c)
    for p, x in enumerate(cs):
        if x.op == 'eq0':
            q = t_._coef_of(x.args[0], i)
            if q is not None and abs(q) == 1:
                e = t_.scale(-1 / q, t_.sub(x.args[0], t_.scale(q, i)))
                if t_._intlike(e) or e.sort == 'I':
                    rest = and_(*(cs[:p] + cs[p + 1:]))
                    return e, rest
    return None


def inrange(e, n):
    return and_(t_.le0(t_.neg(e)), t_.lt(e, n))


def hsum(n, i, b):
    """sum over i<n of b, points resolved"""
    if b.op == 'ite':
        c, x, y = b.args
        if y is ZERO or x is ZERO:
            if x is ZERO:
                c, x = not_(c), y
            p = solve_point(c, i)
            if p is not None:
                e, rest = p
                s = {i: e}
                return ite(and_(inrange(e, n), t_.subst(rest, s)), t_.subst(x, s), ZERO)
    return t_.bsum(n, i, b)


def indep(t, v):
    return v not in t_.fvs(t)


def solve_scalar(v, init, F, k, kk, sort):
    """closed form (term in kk) of v before iteration kk; None when no rule applies"""
    i = t_.fresh('i', 'I')
    t_.SIGN[i.args[0]] = '0+'
    if F is v:
        return init
    if indep(F, v):
        g1 = t_.subst(F, {k: t_.sub(kk, ONE)})
        g0 = t_.subst(F, {k: num(-1)})
        if g0 is init:
            return g1
        if k not in t_.fvs(F) and F is init:
            return init
        return ite_val(t_.eq0(kk), init, g1)
    if sort != 'B':
        d = delta(F, v)
        if d is not None:
            return t_.add(init, hsum(kk, i, t_.subst(d, {k: i})))
    g = guard(F, v)
    if indep(g, v) and g is not TRUE:
        G = prune(F, v)
        if G is not None and indep(G, v):
            p = solve_point(g, k)
            if p is not None:
                e, rest = p
                s = {k: e}
                return ite(and_(inrange(e, kk), t_.subst(rest, s)), t_.subst(G, s), init)
            if k not in t_.fvs(g):
                return ite(and_(g, t_.lt(ZERO, kk)), t_.subst(G, {k: t_.sub(kk, ONE)}), init)
            # range guard  a <= k < b : the last such k below kk
            r = range_last(g, k, kk)
            if r is not None:
                cond, last = r
                return ite(cond, t_.subst(G, {k: last}), init)
            gi = t_.subst(g, {k: i})
            if k not in t_.fvs(G):
                return ite(t_.lt(t_.bfirst(kk, i, gi), t_.clamp0(kk)), G, init)
            L = t_.blast(kk, i, gi)
            return ite(t_.le0(t_.neg(L)), t_.subst(G, {k: L}), init)
    if sort != 'B':
        f = factor(F, v)
        if f is not None:
            return t_.mul(init, t_.bprod(kk, i, t_.subst(f, {k: i})))
    if sort == 'B':
        # v' = (c0 or v) and c1 with one of them trivial
        f1, f0 = t_.subst(F, {v: TRUE}), t_.subst(F, {v: FALSE})
        if f1 is TRUE and f0 is not FALSE:
            return or_(init, t_.lt(t_.bfirst(kk, i, t_.subst(f0, {k: i})), t_.clamp0(kk)))
        if f0 is FALSE and f1 is not TRUE:
            return and_(init, t_.eq(t_.bfirst(kk, i, not_(t_.subst(f1, {k: i}))), t_.clamp0(kk)))
        # v' = v and c  /  v or c
        for op, want in (('and', False), ('or', True)):
            if F.op == op and v in F.args:
                rest = [x for x in F.args if x is not v]
                if all(indep(x, v) for x in rest):
                    c = and_(*rest) if op == 'and' else or_(*rest)
                    c = t_.subst(c, {k: i})
                    if op == 'and':
                        return and_(init, t_.eq(t_.bfirst(kk, i, not_(c)), t_.clamp0(kk)))
                    return or_(init, t_.lt(t_.bfirst(kk, i, c), t_.clamp0(kk)))
    return split_point(v, init, F, k, kk, sort)


def split_point(v, init, F, k, kk, sort):
    """one iteration k == c differs: solve the loop before it, apply it, solve the rest"""
    cond, c = None, None
    seen = set()
    todo = [F]
    while todo:
        x = todo.pop()
        if x in seen or k not in t_.fvs(x):
            continue
        seen.add(x)
        if x.op == 'eq0':
            m = t_._pinned(x)
            if m and list(m) == [k] and m[k].args[0] > 0 and (c is None or m[k].args[0] < c):
                cond, c = x, m[k].args[0]
        todo += t_.children(x)
    if cond is None:
        return None
    F0 = t_.subst(F, {cond: FALSE})
    before = solve_scalar(v, init, F0, k, kk, sort)
    if before is None:
        return None
    at = t_.subst(F, {k: num(c)})
    w = t_.subst(F0, {k: num(c)})
    if w is not v and not w.op == 'num':
        at = t_.subst(at, {w: t_.subst(before, {kk: num(c + 1)})})      # reuse the regular iteration where it appears
    at = t_.subst(at, {v: t_.subst(before, {kk: num(c)})})
    after = solve_scalar(v, at, t_.subst(F0, {k: t_.add(k, num(c + 1))}), k, kk, sort)
    if after is None:
        return None
    return ite(t_.le(kk, num(c)), before, t_.subst(after, {kk: t_.sub(kk, num(c + 1))}))


def prune(F, v):
    """F without its unchanged leaves"""
    if F is v:
        return None
    if F.op == 'ite' and v in t_.fvs(F):
        a, b = prune(F.args[1], v), prune(F.args[2], v)
        if a is None:
            return b
        if b is None:
            return a
        return ite(F.args[0], a, b)
    return F


def range_last(g, k, kk):
    """g a conjunction of linear bounds on k: (condition that some k<kk satisfies g, the greatest)"""
    lo, hi, rest = None, None, []
    for q in conj(g):
        r = t_._bound_of(q, k)
        if r is None:
            if k in t_.fvs(q):
                return None
            rest.append(q)
        elif r[0] == 'lo':
            lo = r[1] if lo is None else t_.maxf(lo, r[1])
        else:
            hi = r[1] if hi is None else t_.minf(hi, r[1])
    top = kk if hi is None else t_.minf(kk, hi)
    low = ZERO if lo is None else t_.maxf(lo, ZERO)
    last = t_.sub(top, ONE)
    return and_(*(rest + [t_.le(low, last)])), last


# ------------------------------------------------------------------ the system
class Sys:
    pass


def rewrite_self(TJ, names, js):
    """under a condition js==e, reads at e are reads at js"""
    memo = {}

    def go(t, eqs):
        if t.op == 'ite':
            es = []
            for c in conj(t.args[0]):
                if c.op == 'eq0':
                    for d, j in enumerate(js):
                        q = t_._coef_of(c.args[0], j)
                        if q is not None and q != 0:
                            es.append((d, t_.scale(-1 / q, t_.sub(c.args[0], t_.scale(q, j)))))
            return ite(t.args[0], go(t.args[1], eqs + es), go(t.args[2], eqs))
        if not eqs or not (selnames(t) & names):
            return t
        dm = {}
        for d, e in eqs:
            dm.setdefault(d, []).append(e)

        def pre(x, rec):
            if x.op == 'sel' and x.args[0] in names:
                ix = list(x.args[1:])
                for d in range(len(ix)):
                    if ix[d] is not js[d] and any(e is ix[d] for e in dm.get(d, [])):
                        ix[d] = js[d]
                return t_.sel(x.args[0], *ix, sort=x.sort)
            return None
        return transform(t, pre, {})
    return go(TJ, [])


def solve(I, st, n, k, base, head, out, exits, H, orelse, mod):
    kk = t_.fresh('K', 'I')
    t_.SIGN[kk.args[0]] = '0+'
    scal = {}        # sym -> (init, F, sort)
    arrs = {}        # name -> dict(ndim, init(idx), js, TJ, dtype)
    order_locs = list(H.values())
    for L in order_locs:
        pre = getloc(st, L.key)
        post = getloc(out, L.key)
        if L.kind in ('scalar', 'bool'):
            scal[L.syms[0]] = (pre, post, 'B' if L.kind == 'bool' else 'R')
        elif L.kind == 'complex':
            pr = pre if isinstance(pre, C) else C(pre, ZERO)
            po = post if isinstance(post, C) else C(post, ZERO)
            scal[L.syms[0]] = (pr.re, po.re, 'R')
            scal[L.syms[1]] = (pr.im, po.im, 'R')
        elif L.kind == 'cells':
            for s, a, b in zip(L.syms, pre, post):
                scal[s] = (a, b, 'R')
        elif L.kind in ('buf', 'arr'):
            js = [t_.fresh('j', 'I') for _ in range(L.ndim)]
            for j in js:
                t_.SIGN[j.args[0]] = '0+'
            if L.kind == 'buf':
                f0 = pre.at
                f1 = post.at
            else:
                f0 = st.arr_fn(pre)
                f1 = out.arr_fn(post)
            v1 = f1(tuple(js))
            if L.dtype == 'C':
                v1 = v1 if isinstance(v1, C) else C(v1, ZERO)
                arrs[L.names[0]] = dict(nd=L.ndim, init=lambda ix, f0=f0: cre(f0(ix)), js=js, TJ=v1.re, sort='R')
                arrs[L.names[1]] = dict(nd=L.ndim, init=lambda ix, f0=f0: cim(f0(ix)), js=js, TJ=v1.im, sort='R')
            else:
                if isinstance(v1, C):
                    raise Unsupported('complex value in a real array')
                arrs[L.names[0]] = dict(nd=L.ndim, init=f0, js=js, TJ=v1, sort=L.dtype)
    names = frozenset(arrs)
    for nm, a in arrs.items():
        a['TJ'] = rewrite_self(a['TJ'], frozenset([nm]), a['js'])
    exitpcs = [and_(*o[0].pc[len(base):]) for o in exits]
    # arrays with reads of other cells of themselves: point-write analysis
    extra = {}
    reads = {}
    for nm, a in arrs.items():
        others = [s for s in sels_of(a['TJ'], {nm}) if list(s.args[1:]) != list(a['js'])]
        a['cell'] = not others
    consumers = [x[1] for x in scal.values()] + [a['TJ'] for a in arrs.values()] + exitpcs
    for nm, a in arrs.items():
        if a['cell']:
            continue
        setup_point(nm, a, k)
    # carried reads
    repl = {}

    def classify(s):
        nm = s.args[0]
        a = arrs[nm]
        if a['cell']:
            return None
        js = a['js']
        if list(s.args[1:]) == js:
            return None
        d, w, sg = a['d'], a['w'], a['sg']
        e = s.args[1 + d]
        diff = t_.sub(w, e)
        if diff.op != 'num':
            a['late'] = True
            return None
        m = diff.args[0] * sg
        idx = list(s.args[1:])
        if m <= 0:
            return a['init'](tuple(idx))
        m = int(m)
        if any(x is not y and (k in t_.fvs(x)) for q, (x, y) in enumerate(zip(idx, js)) if q != d):
            raise Unsupported('carried read with moving indices')
        # chain of carried values r1 .. rm
        prev = None
        for q in range(1, m + 1):
            eq = list(idx)
            eq[d] = t_.sub(w, num(q * sg))
            key = t_.sel(nm, *eq)
            if key not in extra:
                r = t_.fresh('r', 'R' if a['sort'] != 'B' else 'B')
                i0 = a['init'](tuple(t_.subst(x, {k: ZERO}) for x in eq))
                if q == 1:
                    ix = list(idx)
                    ix[d] = w
                    F = t_.subst(a['TJ'], dict(zip(js, ix)))
                    cell = t_.sel(nm, *ix, sort=a['sort'])
                    F = t_.subst(F, {cell: a['init'](tuple(ix))}) if cell in sels_of(F, {nm}) else F
                else:
                    F = extra[prev][0]
                extra[key] = [r, i0, F]
            prev = key
        return extra[prev][0]

    def resolve(t, depth=0):
        if not (selnames(t) & names):
            return t

        def pre(x, go):
            if x.op == 'sel' and x.args[0] in names:
                ix = [go(y) for y in x.args[1:]]
                y = t_.sel(x.args[0], *ix, sort=x.sort)
                r = classify(y)
                return r if r is not None else y
            return None
        return transform(t, pre, {})
    scal = {s: (i0, resolve(F), so) for s, (i0, F, so) in scal.items()}
    for nm, a in arrs.items():
        a['TJ'] = resolve(a['TJ'])
    exitpcs = [resolve(e) for e in exitpcs]
    done = set()
    while True:
        todo = [q for q in extra if q not in done]
        if not todo:
            break
        for q in todo:
            done.add(q)
            r, i0, F = extra[q]
            scal[r] = (i0, resolve(F), 'B' if r.sort == 'B' else 'R')
    # ---------------- dependency order
    nodes = {}
    for s, (i0, F, so) in scal.items():
        nodes[s] = {x for x in t_.fvs(F) if x in scal} | (selnames(F) & names)
    for nm, a in arrs.items():
        nodes[nm] = {x for x in t_.fvs(a['TJ']) if x in scal} | ((selnames(a['TJ']) & names) - {nm})
        if nm in selnames(a['TJ']) and any(list(s.args[1:]) != a['js'] for s in sels_of(a['TJ'], {nm})):
            raise Unsupported('array recurrence out of reach')
    sccs = tarjan(nodes)
    sol = {}       # sym -> term in kk ; name -> closure(kterm, idx)

    def close(t, kt):
        """replace solved symbols by their value before iteration kt (k itself untouched)"""
        if not (t_.fvs(t) & sol.keys()) and not (selnames(t) & names):
            return t

        def pre(x, go):
            if x.op == 'var' and x in sol:
                return t_.subst(sol[x], {kk: kt})
            if x.op == 'sel' and x.args[0] in sol:
                ix = tuple(go(y) for y in x.args[1:])
                return sol[x.args[0]](kt, ix)
            return None
        return transform(t, pre, {})
    for comp in sccs:
        if len(comp) == 1 and comp[0] not in names:
            s = comp[0]
            i0, F, so = scal[s]
            F = close(F, k)
            r = solve_scalar(s, i0, F, k, kk, so)
            if r is None:
                if so == 'B':
                    raise Unsupported('boolean recurrence')
                r = t_.brec(0, kk, [i0], k, [s], [F])
            sol[s] = r
        elif len(comp) == 1:
            nm = comp[0]
            a = arrs[nm]
            js = a['js']
            cell = t_.sel(nm, *js, sort=a['sort'])
            v = t_.fresh('c', a['sort'] if a['sort'] == 'B' else 'R')
            F = t_.subst(a['TJ'], {cell: v})
            F = close(F, k)
            i0 = a['init'](tuple(js))
            r = solve_scalar(v, i0, F, k, kk, a['sort'])
            if r is None:
                r = t_.brec(0, kk, [i0], k, [v], [F])
            sol[nm] = (lambda r, js: (lambda kt, ix: t_.subst(r, dict([(kk, kt)] + list(zip(js, ix))))))(r, js)
        else:
            # mutual recursion over scalars only
            if any(x in names for x in comp):
                r = solve_mixed(comp, scal, arrs, names)
                if r is None:
                    raise Unsupported('mutually recursive arrays')
            vs = list(comp)
            Fs = [close(scal[s][1], k) for s in vs]
            i0 = [scal[s][0] for s in vs]
            for q, s in enumerate(vs):
                sol[s] = t_.brec(q, kk, i0, k, vs, Fs)
    # ---------------- outcomes
    E = or_(*[close(e, k) for e in exitpcs]) if exits else FALSE
    i = t_.fresh('i', 'I')
    t_.SIGN[i.args[0]] = '0+'
    nn = n if I.decide(st, t_.le0(t_.neg(n))) is True else t_.clamp0(n)
    K = nn
    if E is not FALSE:
        K = t_.bfirst(nn, i, t_.subst(E, {k: i}))

    def subst_all(t, kt):
        """value at iteration kt"""
        r = close(resolve(t), k)
        return t_.subst(r, {k: kt})
    obls = list(st.obls)
    seen = set(st.obls)
    for o in [(out, 0, 0)] + exits:
        for ob in o[0].obls:
            if ob in seen:
                continue
            seen.add(ob)
            pc, c, lab = ob
            c2 = close(resolve(c), k)
            pc2 = tuple(x for x in (close(resolve(p), k) for p in pc))
            if E is not FALSE:
                pc2 = pc2 + (t_.le(k, K),)
            obls.append((pc2, c2, lab))
    results = []
    # normal completion
    fin = st.copy()
    fin.obls = tuple(obls)
    if E is not FALSE:
        fin.assume(t_.eq(K, nn))
        fin.assume(t_.eq(nn, K))
    tr = Translator(I, st, head, lambda t, kt: subst_all(t, kt))
    for L in order_locs:
        pre = getloc(st, L.key)
        post = getloc(out, L.key)
        if L.kind in ('scalar', 'bool'):
            setloc(fin, L.key, t_.subst(sol[L.syms[0]], {kk: nn}))
        elif L.kind == 'complex':
            setloc(fin, L.key, C(t_.subst(sol[L.syms[0]], {kk: nn}), t_.subst(sol[L.syms[1]], {kk: nn})))
        elif L.kind == 'cells':
            fin.heap[L.key[1]] = [t_.subst(sol[s], {kk: nn}) for s in L.syms]
        elif L.kind in ('buf', 'arr'):
            if L.dtype == 'C':
                fn = lambda ix, L=L: C(sol[L.names[0]](nn, ix), sol[L.names[1]](nn, ix))
            else:
                fn = lambda ix, L=L: sol[L.names[0]](nn, ix)
            if L.kind == 'buf':
                fin.heap[L.key[1]] = Buf(pre.shape, fn, L.dtype, pre.merged)
            else:
                setloc(fin, L.key, fin.new_arr(pre.shape, fn, L.dtype, pre.islist))
        elif L.kind == 'list':
            if not isinstance(post, GrowList) or post.key != L.key:
                raise Unsupported('list rebuilt in a loop')
            m = len(post.items)
            base_items = list(pre)
            if m != 1:
                raise Unsupported('several appends per iteration')
            g, x = post.items[0]
            nb = len(base_items)
            if g is not TRUE:
                if nb:
                    raise Unsupported('conditional appends to a list that is not empty')
                fin.heap[L.key[1]] = seqlib.Picked(nn, lambda q, g=g: subst_all(g, q), lambda q, x=x: tr.value(x, q, fin, out))
                continue

            def item(ix, x=x, nb=nb, base_items=base_items):
                v = tr.value(x, t_.sub(ix, num(nb)), fin, out)
                for q in range(nb - 1, -1, -1):
                    v = ite_val(t_.eq(ix, num(q)), base_items[q], v)
                return v
            fin.heap[L.key[1]] = SymList(t_.add(nn, num(nb)), item)
        elif L.kind == 'df':
            setloc(fin, L.key, df_blocks(L, pre, post, nn, lambda t, kt: subst_all(t, kt)))
        else:
            last = t_.sub(nn, ONE)
            pos = I.decide(st, t_.lt(ZERO, nn))
            if pos is False:
                continue
            try:
                v = tr.value(post, last, fin, out)
            except Unsupported:
                v = POISON
            if pos is not True:
                if pre is UNDEF and v is not POISON:
                    v = Maybe(t_.lt(ZERO, nn), v)
                else:
                    v = POISON
            setloc(fin, L.key, v)
    # heap entries allocated in the body but reachable through temps are translated on demand
    if orelse:
        results += I.exec_block(fin, orelse, mod)
    else:
        results.append((fin, V_NEXT, None))
    # early exits
    for o, e in zip(exits, exitpcs):
        s = st.copy()
        s.obls = tuple(obls)
        s.assume(t_.lt(K, nn))
        if len(exits) > 1:
            # with a single exit its condition holds at the first index by definition
            for c in o[0].pc[len(base):]:
                s.assume(subst_all(c, K))
        tr2 = Translator(I, st, head, lambda t, kt: subst_all(t, kt))
        for L in order_locs:
            if L.kind == 'list':
                tr2.grown[L.key] = getloc(st, L.key), getloc(out, L.key)
        tr2.out = out
        tr2.state(o[0], s, K)
        v = tr2.value(o[2], K, s, o[0]) if o[1] != 'raise' else o[2]
        kind = {'break': V_NEXT}.get(o[1], o[1])
        results.append((s, kind, v if kind != V_NEXT else None))
    return results


def solve_mixed(comp, scal, arrs, names):
    return None


def cre(x):
    return x.re if isinstance(x, C) else x


def cim(x):
    return x.im if isinstance(x, C) else ZERO


def one_shot(I, st, n, k, base, exits, orelse, mod, head, H):
    """every iteration leaves the loop: the first one decides"""
    if H:
        pass
    results = []
    pos = I.decide(st, t_.lt(ZERO, n))
    if pos is not True:
        s = st.copy()
        s.assume(t_.le0(n))
        results += I.exec_block(s, orelse, mod) if orelse else [(s, V_NEXT, None)]
    if pos is False:
        return results

    def sub(t, kt):
        return t_.subst(t, {k: kt})
    for o in exits:
        s = st.copy()
        s.obls = st.obls + tuple(x for x in o[0].obls if x not in st.obls)
        s.assume(t_.lt(ZERO, n))
        for c in o[0].pc[len(base):]:
            s.assume(sub(c, ZERO))
        tr = Translator(I, st, head, sub)
        tr.state(o[0], s, ZERO)
        v = tr.value(o[2], ZERO, s, o[0]) if o[1] != 'raise' else o[2]
        kind = {'break': V_NEXT}.get(o[1], o[1])
        results.append((s, kind, v if kind != V_NEXT else None))
    return results


def setup_point(nm, a, k):
    """point writes a[w(k), ...] with w = k + c or -k + c"""
    js = a['js']
    cell = t_.sel(nm, *js, sort=a['sort'])
    v = t_.fresh('c', a['sort'] if a['sort'] == 'B' else 'R')
    # guards must not look at the content
    g = guard(t_.subst(a['TJ'], {cell: v}), v)
    for d, j in enumerate(js):
        for c in conj(g):
            if c.op == 'eq0':
                qj = t_._coef_of(c.args[0], j)
                qk = t_._coef_of(c.args[0], k)
                if qj and qk and abs(qj) == abs(qk):
                    w = t_.scale(-1 / qj, t_.sub(c.args[0], t_.scale(qj, j)))
                    a['d'], a['w'], a['sg'] = d, w, int(-qk / qj)
                    return
    raise Unsupported('array recurrence without point writes')


def tarjan(nodes):
    index = {}
    low = {}
    stack = []
    on = set()
    out = []
    cnt = [0]
    import sys
    sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))

    def go(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        stack.append(v)
        on.add(v)
        for w in nodes[v]:
            if w == v:
                continue
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in nodes:
        if v not in index:
            go(v)
    return out


# ------------------------------------------------------------------ translating states
class Translator:
    """values of the state reached inside iteration k, rewritten for k := kt"""

    def __init__(self, I, st, head, sub):
        self.I, self.st, self.head, self.sub = I, st, head, sub
        self.done = {}
        self.grown = {}

    def left(self, h, kt, dst, src):
        """list grown in the iterations before kt and in the one that left the loop"""
        if h.key not in self.grown:
            raise Unsupported('list being grown leaves the loop')
        pre, post = self.grown[h.key]
        if len(pre) or not isinstance(post, GrowList) or post.key != h.key or len(post.items) > 1 or len(h.items) > 1:
            raise Unsupported('list being grown leaves the loop')
        get = lambda x, q, s: seqlib.map_val(x, lambda t: self.sub(t, q))
        g, x = post.items[0] if post.items else (FALSE, None)
        e, y = h.items[0] if h.items else (FALSE, None)
        e = self.sub(e, kt)
        if e is not FALSE and self.I.decide(dst, e) is False:
            e = FALSE
        if e is FALSE:
            if g is TRUE:
                return SymList(kt, lambda ix: get(x, ix, self.out))
            return seqlib.Picked(kt, lambda q: self.sub(g, q), lambda q: get(x, q, self.out))
        last = lambda q: t_.eq(q, kt)
        top = t_.add(kt, ONE)
        if g is FALSE:
            return seqlib.Picked(top, lambda q: and_(last(q), e), lambda q: get(y, kt, src))
        return seqlib.Picked(top, lambda q: ite(last(q), e, self.sub(g, q)),
                             lambda q: seqlib.merge_items(last(q), get(y, kt, src), get(x, q, self.out)))

    def value(self, v, kt, dst, src):
        f = lambda t: self.sub(t, kt)
        if isinstance(v, T):
            return f(v)
        if isinstance(v, C):
            return C(f(v.re), f(v.im))
        if isinstance(v, tuple):
            return tuple(self.value(x, kt, dst, src) for x in v)
        if isinstance(v, Maybe):
            return Maybe(f(v.cond), self.value(v.val, kt, dst, src))
        if isinstance(v, Arr):
            self.heapval(v.loc, kt, dst, src)
            l = self.done.get((v.loc, kt), v.loc)
            im = v.imap
            if im is not None:
                im = type(im)([(d[0], f(d[1])) if d[0] == 'fix' else (d[0], d[1], f(d[2]), d[3]) for d in im.dims],
                              [f(x) for x in im.vshape], [f(x) for x in im.bshape])
            return Arr(l, [f(x) for x in v.shape], im, v.dtype, v.islist)
        if isinstance(v, (PList, PDict)):
            self.heapval(v.loc, kt, dst, src)
            l = self.done.get((v.loc, kt), v.loc)
            return PList(l) if isinstance(v, PList) else PDict(l)
        if isinstance(v, Obj):
            self.heapval(v.loc, kt, dst, src)
            return Obj(self.done.get((v.loc, kt), v.loc), v.cls)
        if isinstance(v, (Masked,)):
            return Masked([f(x) for x in v.shape], lambda ix: f(v.mask(ix)), lambda ix: self.value(v.fn(ix), kt, dst, src), v.dtype)
        if isinstance(v, IdxSet):
            return IdxSet([f(x) for x in v.shape], lambda ix: f(v.mask(ix)))
        if isinstance(v, (Rng, Seq, seqlib.Picked)):
            raise Unsupported('iterator carried out of a loop')
        if isinstance(v, DF):
            return df_subst(v, f)
        if isinstance(v, Comp):
            return v.map(f)
        return v

    def heapval(self, l, kt, dst, src):
        """make sure location l (allocated or changed in the iteration) exists in dst, translated"""
        if (l, kt) in self.done:
            return
        if l in self.st.heap:
            if self.st.heap[l] is src.heap.get(l):
                return
            if l in dst.heap and dst.heap[l] is not self.st.heap[l]:
                return
            # changed pre-existing location: only meaningful for exit states (handled by state())
            return
        nl = newloc()
        self.done[(l, kt)] = nl
        h = src.heap[l]
        dst.heap[nl] = self.hv(h, kt, dst, src)

    def hv(self, h, kt, dst, src):
        f = lambda t: self.sub(t, kt)
        if isinstance(h, Buf):
            def fn(ix, h=h):
                x = h.at(ix)
                return C(f(x.re), f(x.im)) if isinstance(x, C) else f(x)
            return Buf([f(x) for x in h.shape], fn, h.dtype, h.merged)
        if isinstance(h, list):
            return [self.value(x, kt, dst, src) for x in h]
        if isinstance(h, dict):
            return {a: self.value(x, kt, dst, src) for a, x in h.items()}
        if isinstance(h, GrowList):
            return self.left(h, kt, dst, src)
        if isinstance(h, seqlib.Picked):
            raise Unsupported('filtered sequence leaves a loop')
        return self.value(h, kt, dst, src)

    def state(self, src, dst, kt):
        for l, h in src.heap.items():
            if l in self.st.heap:
                if h is self.st.heap[l]:
                    continue
                dst.heap[l] = self.hv(h, kt, dst, src)
        for nme, v in src.env.items():
            if v is self.st.env.get(nme):
                continue
            dst.env[nme] = self.value(v, kt, dst, src)


def df_subst(d, f):
    def col(g):
        def h(p, q):
            x = g(p, q)
            return C(f(x.re), f(x.im)) if isinstance(x, C) else f(x)
        return h
    return DF({k: col(g) for k, g in d.cols.items()}, f(scalar(d.nblocks)), f(scalar(d.rows)), attrs=d.attrs)


def df_blocks(L, pre, post, n, sub):
    """post = pre blocks followed by one block per iteration"""
    if not isinstance(post, DF):
        raise Unsupported('data frame rebuilt in a loop')
    if post.added is None or post.base is not L.base or post.added.nblocks is not ONE:
        raise Unsupported('data frame columns change in a loop')
    add = post.added
    kv = t_.fresh('k', 'I')
    rows = sub(scalar(add.rows), kv)
    if kv in t_.fvs(rows):
        raise Unsupported('data frame blocks of varying length')
    if pre.cols and pre.nblocks is not ZERO:
        raise Unsupported('data frame growth from a non-empty frame')

    def col(g):
        def h(p, q):
            x = g(ZERO, q)
            return C(sub(x.re, p), sub(x.im, p)) if isinstance(x, C) else sub(x, p)
        return h
    return DF({k: col(g) for k, g in add.cols.items()}, n, rows)
