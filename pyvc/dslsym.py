"""Logical meaning of the specification operators (specs/dsl.py)."""
from . import terms as t_
from .terms import T, TRUE, FALSE, ZERO, ONE, num
from .values import *
from .interp import Oracle, RET, RAISE
from . import filelib
from . import frames


def apply_in(I, st, f, args, facts=()):
    """value of f(*args) in a copy of st extended with facts; forks are merged into conditional values"""
    base = st.copy()
    for c in facts:
        base.assume(c)

    def h(s):
        return [(s, RET, I.call(s, f, list(args), {}))]
    outs = I.run_forked(base, h)
    outs = [o for o in outs]
    if any(o[1] != RET for o in outs):
        raise Unsupported('exception inside a specification operator')
    outs = I.merge_returns(outs)
    if len(outs) != 1:
        raise Unsupported('unmergeable value inside a specification operator')
    s, _, v = outs[0]
    ob = [o for o in s.obls if o not in st.obls]
    return s, v, ob


def as_term(v):
    v = scalar(v) if not isinstance(v, (T, C)) else v
    if v is None:
        raise Unsupported('specification operator over a non-scalar')
    return v


def toint(v):
    return scalar(v)


def length_of(I, st, v, axis=0):
    if isinstance(v, Arr):
        return v.shape[axis]
    return I.call(st, I.builtin('len'), [v], {})


def install(I):
    ext = I.ext

    def P(name):
        def deco(f):
            ext['specs.dsl.' + name] = Prim(name, f)
            return f
        return deco

    def binder(name, build, isbool=False):
        def g(I, st, args, kw):
            if len(args) == 3:
                lo, hi, f = toint(args[0]), toint(args[1]), args[2]
            else:
                lo, hi, f = ZERO, toint(args[0]), args[1]
            n = t_.sub(hi, lo)
            k = t_.fresh('k', 'I')
            s, v, ob = apply_in(I, st, f, [t_.add(lo, k)], (t_.le0(t_.neg(k)), t_.lt(k, n)))
            for o in ob:
                st.obls = st.obls + (o,)
            v = as_term(v)
            if isbool:
                v = I.truth(s, v)
            if isinstance(v, C):
                return C(build(n, k, v.re), build(n, k, v.im))
            return build(n, k, v)
        ext['specs.dsl.' + name] = Prim(name, g)
    binder('Sum', t_.bsum)
    binder('Prod', t_.bprod)
    binder('First', t_.bfirst, True)
    binder('Last', t_.blast, True)
    binder('All', lambda n, k, b: t_.eq(t_.bfirst(n, k, t_.not_(b)), t_.clamp0(n)), True)
    binder('Any', lambda n, k, b: t_.lt(t_.bfirst(n, k, b), t_.clamp0(n)), True)

    @P('Array')
    def _array(I, st, args, kw):
        shape, f = args
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(toint(x) for x in shape)
        ks = [t_.fresh('k', 'I') for _ in shape]
        facts = []
        for k, n in zip(ks, shape):
            facts += [t_.le0(t_.neg(k)), t_.lt(k, n)]
        s, v, ob = apply_in(I, st, f, ks, facts)
        for o in ob:
            st.obls = st.obls + (o,)
        v = as_term(v)

        def at(idx):
            m = {k: i for k, i in zip(ks, idx) if k is not i}
            if isinstance(v, C):
                return C(t_.subst(v.re, m), t_.subst(v.im, m))
            return t_.subst(v, m)
        dt = 'C' if isinstance(v, C) else v.sort
        return st.new_arr(shape, at, dt)

    @P('size')
    def _size(I, st, args, kw):
        ax = 0
        if len(args) > 1:
            ax = int(scalar(args[1]).args[0])
        return length_of(I, st, args[0], ax)

    @P('UF')
    def _uf(I, st, args, kw):
        return t_.app(args[0], *[scalar(a) if not isinstance(a, str) else a for a in args[1:]])

    @P('Interp')
    def _interp(I, st, args, kw):
        x, n, xp, fp = args
        n = toint(n)
        out = []
        for f in (xp, fp):
            k = t_.fresh('k', 'I')
            s, v, ob = apply_in(I, st, f, [k], (t_.le0(t_.neg(k)), t_.lt(k, n)))
            out.append(t_.blam(n, k, as_term(v)))
        return t_.app('interp', scalar(x), out[0], out[1])
    ext['specs.dsl.memo'] = Prim('memo', lambda I, st, args, kw: args[0])

    @P('Frame')
    def _frame(I, st, args, kw):
        blocks, rows, cols = toint(args[0]), toint(args[1]), args[2]
        out = {}
        for name, f in st.heap[cols.loc].items():
            p, q = t_.fresh('k', 'I'), t_.fresh('k', 'I')
            s, v, ob = apply_in(I, st, f, [p, q], (t_.le0(t_.neg(p)), t_.lt(p, blocks), t_.le0(t_.neg(q)), t_.lt(q, rows)))
            for o in ob:
                st.obls = st.obls + (o,)
            v = as_term(v)

            def at(x, y, v=v, p=p, q=q):
                m = {a: b for a, b in ((p, x), (q, y)) if a is not b}
                if isinstance(v, C):
                    return C(t_.subst(v.re, m), t_.subst(v.im, m))
                return t_.subst(v, m)
            out[name] = at
        return DF(out, blocks, rows, attrs=st.alloc({}))

    @P('Kept')
    def _kept(I, st, args, kw):
        rows, keep, cols = toint(args[0]), args[1], args[2]

        def at(f):
            q = t_.fresh('k', 'I')
            s, v, ob = apply_in(I, st, f, [q], (t_.le0(t_.neg(q)), t_.lt(q, rows)))
            for o in ob:
                st.obls = st.obls + (o,)
            if v is None or isinstance(v, (str, SText, Opq)):
                return lambda x: v
            v = as_term(v)
            return lambda x: t_.subst(v, {q: x}) if x is not q else v
        k = at(keep)
        return frames.new(st, {name: at(f) for name, f in st.heap[cols.loc].items()}, rows,
                          None if k(t_.ZERO) is TRUE and k(t_.fresh('k', 'I')) is TRUE else k)

    @P('Table')
    def _table(I, st, args, kw):
        return filelib.table(I, st, filelib.ROOT + '/pyrtlib/' + args[0])

    @P('Catalogue')
    def _catalogue(I, st, args, kw):
        p, g, v = filelib.ROOT + '/pyrtlib/' + args[0], args[1], args[2]
        if v not in filelib.groups(filelib.real(I, p)).get(g, {}):
            raise PyRaise(Exc(ExtCls('KeyError')))
        return filelib.variable(I, st, p, g, v)
    @P('Variable')
    def _variable(I, st, args, kw):
        return filelib.memory(st, args[0], args[1])
    ext['specs.dsl'] = ModV('specs.dsl')
