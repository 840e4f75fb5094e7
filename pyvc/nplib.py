"""Builtins, operators and numpy models (trusted semantics of the external library)."""
from fractions import Fraction as Q
from . import terms as t_
from .terms import T, TRUE, FALSE, ZERO, ONE, num, and_, or_, not_
from .values import *
from .loops import SymList, GrowList
from . import textlib
from . import frames
from . import seqlib


class IMap:
    """view index -> base index. dims[d] = ('fix', term) | ('var', viewdim, a, s)"""

    def __init__(self, dims, vshape, bshape):
        self.dims, self.vshape, self.bshape = dims, tuple(vshape), tuple(bshape)

    def __call__(self, idx):
        out = []
        for d in self.dims:
            if d[0] == 'fix':
                out.append(d[1])
            else:
                i = idx[d[1]]
                out.append(t_.add(d[2], i) if d[3] == 1 else t_.add(d[2], t_.mul(num(d[3]), i)))
        return tuple(out)

    def inv(self, bidx):
        ok = TRUE
        v = [ZERO] * len(self.vshape)
        for d, b, bn in zip(self.dims, bidx, self.bshape):
            if d[0] == 'fix':
                ok = and_(ok, t_.eq(b, d[1]))
            elif abs(d[3]) == 1:
                w = t_.sub(b, d[2]) if d[3] == 1 else t_.sub(d[2], b)
                v[d[1]] = w
                n = self.vshape[d[1]]
                full = n is bn and ((d[3] == 1 and d[2] is ZERO) or (d[3] == -1 and d[2] is t_.sub(bn, ONE)))
                if not full:
                    lo_ok = (d[3] == 1 and d[2] is ZERO) or (d[3] == -1 and t_.add(d[2], ONE) is bn)
                    hi_ok = (d[3] == 1 and t_.add(d[2], n) is bn) or (d[3] == -1 and t_.sub(t_.add(d[2], ONE), n) is ZERO)
                    if not lo_ok:
                        ok = and_(ok, t_.le0(t_.neg(w)))
                    if not hi_ok:
                        ok = and_(ok, t_.lt(w, n))
            else:
                raise Unsupported('store through a strided view')
        return ok, tuple(v)


def identity_dims(n):
    return [('var', i, ZERO, 1) for i in range(n)]


# ------------------------------------------------------------------ scalar ops
def cparts(x):
    if isinstance(x, C):
        return x.re, x.im
    return x, ZERO


def tonum(x):
    if isinstance(x, T):
        return t_.ite(x, ONE, ZERO) if x.sort == 'B' else x
    if isinstance(x, C):
        return x
    raise Unsupported('number expected: %r' % (x,))


def cmul(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return t_.mul(a, b)
    ar, ai = cparts(a)
    br, bi = cparts(b)
    return C(t_.sub(t_.mul(ar, br), t_.mul(ai, bi)), t_.add(t_.mul(ar, bi), t_.mul(ai, br)))


def cdiv(a, b):
    if isinstance(b, T):
        if isinstance(a, T):
            return t_.div(a, b)
        return C(t_.div(a.re, b), t_.div(a.im, b))
    ar, ai = cparts(a)
    br, bi = cparts(b)
    d = t_.add(t_.mul(br, br), t_.mul(bi, bi))
    return C(t_.div(t_.add(t_.mul(ar, br), t_.mul(ai, bi)), d), t_.div(t_.sub(t_.mul(ai, br), t_.mul(ar, bi)), d))


def cadd(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return t_.add(a, b)
    ar, ai = cparts(a)
    br, bi = cparts(b)
    return C(t_.add(ar, br), t_.add(ai, bi))


def cneg(a):
    return C(t_.neg(a.re), t_.neg(a.im)) if isinstance(a, C) else t_.neg(a)


def cpow(a, b):
    if isinstance(a, C):
        if isinstance(b, T) and b.op == 'num' and b.args[0].denominator == 1:
            n = int(b.args[0])
            if n < 0:
                return cdiv(ONE, cpow(a, num(-n)))
            r = ONE
            for _ in range(n):
                r = cmul(r, a)
            return r
        if isinstance(b, T) and b is num(0.5):
            return csqrt(a)
        raise Unsupported('complex power')
    if isinstance(b, C):
        raise Unsupported('complex exponent')
    return t_.power(a, b)


def csqrt(a):
    if isinstance(a, T):
        return t_.sqrt(a)
    return C(t_.fn('csqrt_re', a.re, a.im), t_.fn('csqrt_im', a.re, a.im))


def cabs(a):
    if isinstance(a, C):
        return t_.sqrt(t_.add(t_.mul(a.re, a.re), t_.mul(a.im, a.im)))
    return t_.absf(a)


def arith(op, a, b):
    if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, T) and isinstance(b, T) and a.sort == 'B' and b.sort == 'B':
        if op == 'BitAnd':
            return and_(a, b)
        if op == 'BitOr':
            return or_(a, b)
        return not_(t_.eq(a, b))
    a, b = tonum(a), tonum(b)
    if op == 'Add':
        return cadd(a, b)
    if op == 'Sub':
        return cadd(a, cneg(b))
    if op == 'Mult':
        return cmul(a, b)
    if op == 'Div':
        return cdiv(a, b)
    if op == 'Pow':
        return cpow(a, b)
    if op == 'FloorDiv':
        return t_.floorf(t_.div(a, b))
    if op == 'Mod':
        return t_.sub(a, t_.mul(b, t_.floorf(t_.div(a, b))))
    raise Unsupported('operator ' + op)


def cmp(op, a, b):
    if isinstance(a, C) or isinstance(b, C):
        ar, ai = cparts(a)
        br, bi = cparts(b)
        if op == 'Eq':
            return and_(t_.eq(ar, br), t_.eq(ai, bi))
        if op == 'NotEq':
            return not_(and_(t_.eq(ar, br), t_.eq(ai, bi)))
        raise Unsupported('complex comparison')
    if a is t_.NAN or b is t_.NAN:
        return TRUE if op == 'NotEq' else FALSE
    if a.sort == 'B' and b.sort == 'B' and op in ('Eq', 'NotEq'):
        r = t_.eq(a, b)
        return r if op == 'Eq' else not_(r)
    if a.sort == 'B':
        return t_.ite(a, cmp(op, ONE, b), cmp(op, ZERO, b)) if b.sort != 'B' else cmp(op, tonum(a), tonum(b))
    if b.sort == 'B':
        return t_.ite(b, cmp(op, a, ONE), cmp(op, a, ZERO))
    if op == 'Lt':
        return t_.lt(a, b)
    if op == 'LtE':
        return t_.le(a, b)
    if op == 'Gt':
        return t_.lt(b, a)
    if op == 'GtE':
        return t_.le(b, a)
    if op == 'Eq':
        return t_.eq(a, b)
    if op == 'NotEq':
        return t_.ne(a, b)
    raise Unsupported('comparison ' + op)


def isnan(x):
    if x is t_.NAN:
        return TRUE
    if isinstance(x, T) and x.op == 'ite':
        return t_.ite(x.args[0], isnan(x.args[1]), isnan(x.args[2]))
    if isinstance(x, T) and t_.NAN in t_.fvs(x):
        ys = [k for k, _ in x.args[1]] if x.op == 'add' else [b for b, _ in x.args] if x.op == 'mul' else \
            x.args[1:] if x.op == 'fn' or x.op == 'app' and x.args[0] == 'round' else None
        if ys is not None:
            return or_(*[isnan(y) for y in ys if isinstance(y, T)])
        raise Unsupported('isnan of a compound: ' + x.op)
    return FALSE


# ------------------------------------------------------------------ arrays
def bshape(interp, st, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        dims = [s[len(s) - n + i] for s in shapes if len(s) - n + i >= 0]
        d = ONE
        for x in dims:
            if x is ONE or x is d:
                continue
            if d is ONE:
                d = x
                continue
            if x.op == 'num' and d.op == 'num':
                raise PyRaise(Exc(ExtCls('ValueError')))
            dec = interp.decide(st, t_.eq(x, d))
            if dec is False:
                raise PyRaise(Exc(ExtCls('ValueError')))
            if dec is None:
                interp.oblige(st, t_.eq(x, d), 'operands broadcast')
            if x.op == 'num':
                d = x
        out.append(d)
    return tuple(out)


def bidx(shape, idx):
    k = len(shape)
    idx = idx[len(idx) - k:]
    return tuple(ZERO if s is ONE else i for s, i in zip(shape, idx))


def getf(interp, st, v):
    """(shape, closure) of an array-like"""
    if isinstance(v, Arr):
        f = st.arr_fn(v)
        return v.shape, f
    if isinstance(v, (T, C)):
        return (), lambda idx: v
    if isinstance(v, Masked):
        v = elements(interp, st, v)
        return v.shape, st.arr_fn(v)
    if isinstance(v, PList) or isinstance(v, tuple):
        a = as_array(interp, st, v)
        return a.shape, st.arr_fn(a)
    raise Unsupported('array expected: %r' % (v,))


def dtype_of(v):
    if isinstance(v, C):
        return 'C'
    if isinstance(v, T):
        return v.sort
    if isinstance(v, (Arr, Masked)):
        return v.dtype
    return 'R'


def mapn(interp, st, f, *vs, dtype=None):
    """elementwise application with broadcasting"""
    if any(isinstance(v, Masked) for v in vs):
        m = next(v for v in vs if isinstance(v, Masked))
        fs = []
        for v in vs:
            if isinstance(v, Masked):
                if v.mask is not m.mask and not same_mask(v, m):
                    raise Unsupported('masked selections of different masks')
                fs.append(v.fn)
            elif isinstance(v, (T, C)):
                fs.append(lambda idx, v=v: v)
            else:
                raise Unsupported('masked with array')
        return Masked(m.shape, m.mask, lambda idx: f(*[g(idx) for g in fs]), dtype or 'R')
    if not any(isinstance(v, (Arr, PList, tuple)) for v in vs):
        return f(*vs)
    sf = [getf(interp, st, v) for v in vs]
    shape = bshape(interp, st, [s for s, _ in sf])

    def g(idx):
        return f(*[h(bidx(s, idx)) for s, h in sf])
    if dtype is None:
        p = g(tuple(t_.fresh('i', 'I') for _ in shape))
        dtype = dtype_of(p)
    return st.new_arr(shape, g, dtype)


def symkey(k):
    return isinstance(k, SStr) or isinstance(k, T) and k.op not in ('num', 'true', 'false')


def keyed(I, k, d):
    """conditions under which the symbolic key k is each key of d"""
    out = []
    for x in d:
        if isinstance(x, str) and x[:1] == '\0':
            raise Unsupported('symbolic key of this mapping')
        if isinstance(k, SStr) and isinstance(x, str):
            out.append((k.is_(x), x))
        elif isinstance(k, T) and k.sort in ('I', 'R') and isinstance(x, T) and x.op == 'num':
            out.append((t_.eq(k, x), x))
    return out


def pick_key(I, st, d, k):
    if not symkey(k):
        return I.key(k)
    alts = keyed(I, k, d)
    return I.choose(st, alts + [(and_(*[not_(c) for c, _ in alts]), UNDEF)])


def same_mask(a, b):
    idx = tuple(t_.var('idx?%d' % i, 'I') for i in range(len(a.shape)))
    return a.shape == b.shape and a.mask(idx) is b.mask(idx)


def as_array(interp, st, v, copy=False):
    if isinstance(v, Arr):
        if copy:
            f = st.arr_fn(v)
            return st.new_arr(v.shape, f, v.dtype)
        if v.islist:
            return Arr(v.loc, v.shape, v.imap, v.dtype)
        return v
    if isinstance(v, Opq) and v.name.startswith('ncdata|'):
        return interp.opq_attrs['ncdata|'](interp, st, v, 'data')
    if isinstance(v, PList) and isinstance(st.heap[v.loc], SymList):
        h = st.heap[v.loc]
        p = h.item(t_.fresh('i', 'I'))
        if not isinstance(p, (T, C)):
            raise Unsupported('array of a symbolic list')
        return st.new_arr((h.n,), lambda ix: h.item(ix[0]), dtype_of(p))
    if isinstance(v, (PList, tuple)):
        items = st.heap[v.loc] if isinstance(v, PList) else list(v)
        items = [scalar(x) if scalar(x) is not None else x for x in items]
        if not items:
            return st.new_arr((ZERO,), lambda idx: ZERO, 'R')
        if all(isinstance(x, (T, C)) for x in items):
            vals = list(items)
            dt = 'C' if any(isinstance(x, C) for x in vals) else 'B' if all(x.sort == 'B' for x in vals) else \
                'I' if all(x.sort == 'I' for x in vals) else 'R'
            return st.new_arr((num(len(vals)),), cells1(vals), dt)
        if all(isinstance(x, (PList, tuple, Arr)) for x in items):
            subs = [as_array(interp, st, x) for x in items]
            sh = subs[0].shape
            fs = [st.arr_fn(x) for x in subs]

            def g(idx):
                i = idx[0]
                if i.op == 'num':
                    return fs[int(i.args[0])](idx[1:])
                r = fs[-1](idx[1:])
                for k in range(len(fs) - 2, -1, -1):
                    r = ite_val(t_.eq(i, num(k)), fs[k](idx[1:]), r)
                return r
            for x in subs[1:]:
                interp.check_dims(st, x.shape, sh)
            return st.new_arr((num(len(items)),) + sh, g, subs[0].dtype)
        raise Unsupported('array of mixed items')
    if isinstance(v, Seq):
        return st.new_arr((v.n,), lambda idx: v.item(idx[0]), 'R')
    if isinstance(v, Rng):
        n = interp.range_len(st, v)
        return st.new_arr((n,), lambda idx: t_.add(v.a, t_.mul(v.s, idx[0])), 'I')
    if isinstance(v, (T, C)):
        return v
    raise Unsupported('np.array of %r' % (v,))


def cells1(vals):
    def g(idx):
        i = idx[0]
        if i.op == 'num':
            return vals[int(i.args[0])]
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = ite_val(t_.eq(i, num(k)), vals[k], r)
        return r
    return g


def norm_index(interp, st, i, n, check=True):
    if i.sort == 'B':
        i = tonum(i)
    if i.op == 'num':
        v = i.args[0]
        if v < 0:
            if check:
                dec = interp.decide(st, t_.le(t_.neg(i), n))
                if dec is False:
                    raise PyRaise(Exc(ExtCls('IndexError')))
                if dec is None:
                    interp.oblige(st, t_.le(t_.neg(i), n), 'index in bounds')
            return t_.add(n, i)
        if check:
            chk_upper(interp, st, i, n)
        return i
    neg = interp.decide(st, t_.lt0(i))
    if neg is True:
        i = t_.add(i, n)
        return i
    if neg is None:
        # the wrap-around branch stays explicit
        if check:
            c = and_(t_.le(t_.neg(n), i), t_.lt(i, n))
            dec = interp.decide(st, c)
            if dec is None:
                interp.oblige(st, c, 'index in bounds')
            if dec is False:
                raise PyRaise(Exc(ExtCls('IndexError')))
        return t_.ite(t_.lt0(i), t_.add(i, n), i)
    if check:
        chk_upper(interp, st, i, n)
    return i


def chk_upper(interp, st, i, n):
    dec = interp.decide(st, t_.lt(i, n))
    if dec is False:
        raise PyRaise(Exc(ExtCls('IndexError')))
    if dec is None:
        interp.oblige(st, t_.lt(i, n), 'index in bounds')


def slice_bounds(interp, st, s, n):
    """(a, len, step) of a slice on a dimension of size n"""
    step = 1
    if s.s is not None:
        if not (isinstance(s.s, T) and s.s.op == 'num'):
            raise Unsupported('symbolic slice step')
        step = int(s.s.args[0])

    def clampb(v):
        if v.op == 'num':
            if v.args[0] < 0:
                r = t_.add(n, v)
                d = interp.decide(st, t_.le0(t_.neg(r)))
                return r if d is True else t_.maxf(r, ZERO)
            d = interp.decide(st, t_.le(v, n))
            return v if d is True else t_.minf(v, n)
        d = interp.decide(st, t_.lt0(v))
        if d is True:
            r = t_.add(n, v)
            return r if interp.decide(st, t_.le0(t_.neg(r))) is True else t_.maxf(r, ZERO)
        if d is None:
            v2 = t_.ite(t_.lt0(v), t_.maxf(t_.add(v, n), ZERO), v)
            return t_.minf(v2, n)
        d = interp.decide(st, t_.le(v, n))
        return v if d is True else t_.minf(v, n)
    if step > 0:
        a = ZERO if s.a is None else clampb(s.a)
        b = n if s.b is None else clampb(s.b)
        ln = t_.sub(b, a)
        if interp.decide(st, t_.le0(t_.neg(ln))) is not True:
            ln = t_.clamp0(ln)
        if step != 1:
            ln = t_.floorf(t_.div(t_.add(ln, num(step - 1)), num(step)))
        return a, ln, step
    if s.a is None and s.b is None and step == -1:
        return t_.sub(n, ONE), n, -1
    if step == -1:
        a = t_.sub(n, ONE) if s.a is None else norm_index(interp, st, s.a, n)
        b = num(-1) if s.b is None else norm_index(interp, st, s.b, n)
        ln = t_.sub(a, b)
        if interp.decide(st, t_.le0(t_.neg(ln))) is not True:
            ln = t_.clamp0(ln)
        return a, ln, -1
    raise Unsupported('slice step')


def is_intlist(st, x):
    if isinstance(x, PList):
        return True
    return isinstance(x, Arr) and x.dtype != 'B'


def get_arr(interp, st, a, i, checked=False, collapse=True):
    idx = i if isinstance(i, tuple) else (i,)
    if len(idx) == 1 and isinstance(idx[0], tuple):
        idx = idx[0]
    # masks
    if len(idx) == 1 and isinstance(idx[0], (IdxSet,)):
        m = idx[0]
        f = st.arr_fn(a)
        if len(a.shape) == 1:
            return Masked(a.shape, m.mask, f, a.dtype)
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dtype == 'B':
        mf = st.arr_fn(idx[0])
        if len(idx[0].shape) != len(a.shape):
            raise Unsupported('partial mask')
        return Masked(a.shape, mf, st.arr_fn(a), a.dtype)
    if any(is_intlist(st, x) for x in idx):
        # one integer-array index, the rest full slices or ints
        return fancy(interp, st, a, idx)
    dims = a.imap.dims if a.imap else identity_dims(len(a.shape))
    base = st.heap[a.loc]
    if Ellipsis in idx:
        p = idx.index(Ellipsis)
        k = len(a.shape) - sum(1 for x in idx if x is not None and x is not Ellipsis)
        idx = idx[:p] + (Slice(None, None, None),) * k + idx[p + 1:]
    used = sum(1 for x in idx if x is not None)
    if used > len(a.shape):
        raise PyRaise(Exc(ExtCls('IndexError')))
    idx = tuple(idx) + (Slice(None, None, None),) * (len(a.shape) - used)
    newshape = []
    sub = []
    vd = 0
    collapsed = False
    for x in idx:
        if x is None:
            newshape.append(ONE)
            continue
        n = a.shape[vd]
        if isinstance(x, Slice):
            s0, ln, stp = slice_bounds(interp, st, x, n)
            sub.append(('var', len(newshape), s0, stp))
            newshape.append(ln)
        elif isinstance(x, T):
            if x.sort == 'R' and not (x.op == 'num' and x.args[0].denominator == 1):
                raise PyRaise(Exc(ExtCls('IndexError')))
            sub.append(('fix', norm_index(interp, st, x, n, not checked)))
            collapsed = True
        else:
            raise Unsupported('index %r' % (x,))
        vd += 1
    nd = []
    for d in dims:
        if d[0] == 'fix':
            nd.append(d)
            continue
        w = sub[d[1]]
        if w[0] == 'fix':
            nd.append(('fix', t_.add(d[2], t_.mul(num(d[3]), w[1]))))
        else:
            nd.append(('var', w[1], t_.add(d[2], t_.mul(num(d[3]), w[2])), d[3] * w[3]))
    if not newshape:
        return base.at(tuple(d[1] for d in nd))
    r = Arr(a.loc, newshape, IMap(nd, newshape, base.shape), a.dtype)
    if collapse and collapsed and all(s is ONE for s in newshape):
        return st.arr_at(r, (ZERO,) * len(newshape))     # size-1 results behave as scalars
    if a.islist:
        r = st.new_arr(newshape, st.arr_fn(r), a.dtype, islist=True)
    return r


def fancy(interp, st, a, idx):
    pos = [p for p, x in enumerate(idx) if is_intlist(st, x)]
    idx = tuple(idx) + (Slice(None, None, None),) * (len(a.shape) - len(idx))
    if len(pos) != 1:
        raise Unsupported('several index arrays')
    p = pos[0]
    ia = as_array(interp, st, idx[p])
    inf = st.arr_fn(ia)
    n = a.shape[p]
    f = st.arr_fn(a)
    shape = []
    for q, x in enumerate(idx):
        if q == p:
            if len(ia.shape) != 1:
                raise Unsupported('nd index array')
            shape.append(ia.shape[0])
        elif isinstance(x, Slice) and x.a is None and x.b is None and x.s is None:
            shape.append(a.shape[q])
        elif isinstance(x, T):
            pass
        else:
            raise Unsupported('mixed fancy index')

    def g(ix):
        out = []
        vi = 0
        for q, x in enumerate(idx):
            if q == p:
                e = inf((ix[vi],))
                out.append(norm_index(interp, st, e, n, False))
                vi += 1
            elif isinstance(x, Slice):
                out.append(ix[vi])
                vi += 1
            else:
                out.append(norm_index(interp, st, x, a.shape[q], False))
        return f(tuple(out))
    return st.new_arr(shape, g, a.dtype)


def set_arr(interp, st, a, i, v):
    idx = i if isinstance(i, tuple) else (i,)
    if idx and idx[0] is None:      # leading new axes: the stored value may carry as many leading axes of length one
        while idx and idx[0] is None:
            idx = idx[1:]
        idx = i = idx or (Slice(None, None, None),)
    buf = st.heap[a.loc]
    if buf.merged:
        raise Unsupported('write through a merged reference')
    m = None
    if len(idx) == 1 and isinstance(idx[0], IdxSet):
        m = idx[0].mask
    if len(idx) == 1 and isinstance(idx[0], tuple) and len(idx[0]) == 1 and isinstance(idx[0][0], IdxSet):
        m = idx[0][0].mask
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dtype == 'B':
        m = st.arr_fn(idx[0])
    if m is not None:
        old = st.arr_fn(a)
        if isinstance(v, Masked):
            pm = tuple(t_.var('idx?%d' % k, 'I') for k in range(len(a.shape)))
            if v.mask(pm) is not m(pm):
                raise Unsupported('masked store from another mask')
            vf = v.fn
        elif isinstance(v, (T, C)):
            vf = lambda ix: v
        else:
            raise Unsupported('masked store of an array')
        interp.store_view(st, a, lambda ix: ite_val(m(ix), interp.cast(a.dtype, vf(ix)), old(ix)))
        return
    # store a single element or a sub-view
    tgt = None
    dims = None
    if any(is_intlist(st, x) for x in idx):
        raise Unsupported('store with index array')
    probe = get_arr_view(interp, st, a, i)
    if isinstance(probe, tuple):
        cell = probe
        if isinstance(v, Arr):
            if not all(s is ONE for s in v.shape):
                raise PyRaise(Exc(ExtCls('ValueError')))
            v = st.arr_at(v, (ZERO,) * len(v.shape))
        if v is None:
            v = t_.NAN        # float(None) -> nan in a float array
        if not isinstance(v, (T, C)):
            raise Unsupported('store of %r' % (v,))
        v = interp.cast(a.dtype, v)

        def g(ix):
            c = TRUE
            for x, y in zip(ix, cell):
                c = and_(c, t_.eq(x, y))
            if c is TRUE:
                return v
            return ite_val(c, v, buf.at(ix))
        st.heap[a.loc] = Buf(buf.shape, g, buf.dtype)
        return
    if isinstance(v, (PList, tuple)):
        v = as_array(interp, st, v)
    if isinstance(v, (T, C)):
        w = interp.cast(a.dtype, v)
        interp.store_view(st, probe, lambda ix: w)
    elif isinstance(v, Arr):
        sh, f = getf(interp, st, v)
        if len(sh) > len(probe.shape):
            if all(x is ONE for x in sh[:len(sh) - len(probe.shape)]):
                f0 = f
                ex = len(sh) - len(probe.shape)
                f = lambda ix: f0((ZERO,) * ex + tuple(ix))
                sh = sh[ex:]
            else:
                raise PyRaise(Exc(ExtCls('ValueError')))
        bs = bshape(interp, st, [probe.shape, sh])
        if len(bs) != len(probe.shape):
            raise PyRaise(Exc(ExtCls('ValueError')))
        interp.store_view(st, probe, lambda ix: interp.cast(a.dtype, f(bidx(sh, ix))))
    else:
        raise Unsupported('store of %r' % (v,))


def get_arr_view(interp, st, a, i):
    """view Arr, or base index tuple for a single cell"""
    idx = i if isinstance(i, tuple) else (i,)
    dims = a.imap.dims if a.imap else identity_dims(len(a.shape))
    base = st.heap[a.loc]
    if Ellipsis in idx:
        p = idx.index(Ellipsis)
        k = len(a.shape) - (len(idx) - 1)
        idx = idx[:p] + (Slice(None, None, None),) * k + idx[p + 1:]
    if len(idx) > len(a.shape):
        raise PyRaise(Exc(ExtCls('IndexError')))
    idx = tuple(idx) + (Slice(None, None, None),) * (len(a.shape) - len(idx))
    newshape, sub = [], []
    for x, n in zip(idx, a.shape):
        if isinstance(x, Slice):
            s0, ln, stp = slice_bounds(interp, st, x, n)
            sub.append(('var', len(newshape), s0, stp))
            newshape.append(ln)
        elif isinstance(x, T):
            if x.sort == 'R' and not (x.op == 'num' and x.args[0].denominator == 1):
                raise PyRaise(Exc(ExtCls('IndexError')))
            sub.append(('fix', norm_index(interp, st, x, n)))
        else:
            raise Unsupported('index %r' % (x,))
    nd = []
    for d in dims:
        if d[0] == 'fix':
            nd.append(d)
            continue
        w = sub[d[1]]
        if w[0] == 'fix':
            nd.append(('fix', t_.add(d[2], t_.mul(num(d[3]), w[1]))))
        else:
            nd.append(('var', w[1], t_.add(d[2], t_.mul(num(d[3]), w[2])), d[3] * w[3]))
    if not newshape:
        return tuple(d[1] for d in nd)
    return Arr(a.loc, newshape, IMap(nd, newshape, base.shape), a.dtype)


# ------------------------------------------------------------------ reductions
def reduce1(interp, st, v, f):
    """apply f(n, closure over k) on a flattened 1-d array-like"""
    if isinstance(v, (PList, tuple)):
        v = as_array(interp, st, v)
    if isinstance(v, T):
        return f(ONE, lambda k: v)
    if not isinstance(v, Arr):
        raise Unsupported('reduction of %r' % (v,))
    if len(v.shape) == 1:
        g = st.arr_fn(v)
        return f(v.shape[0], lambda k: g((k,)))
    big = [d for d in v.shape if d is not ONE]
    if len(big) <= 1:
        g = st.arr_fn(v)
        p = [i for i, d in enumerate(v.shape) if d is not ONE]
        def h(k):
            ix = [ZERO] * len(v.shape)
            if p:
                ix[p[0]] = k
            return g(tuple(ix))
        return f(big[0] if big else ONE, h)
    raise Unsupported('reduction of nd array')


def axis_reduce(interp, st, v, axis, f):
    if axis is None:
        return reduce1(interp, st, v, f)
    ax = int(axis.args[0])
    if ax < 0:
        ax += len(v.shape)
    if len(v.shape) == 1:
        return reduce1(interp, st, v, f)
    g = st.arr_fn(v)
    sh = v.shape[:ax] + v.shape[ax + 1:]
    return st.new_arr(sh, lambda ix: f(v.shape[ax], lambda k: g(tuple(ix[:ax]) + (k,) + tuple(ix[ax:]))), 'R')


def mk_sum(n, g):
    k = t_.fresh('k', 'I')
    b = g(k)
    if isinstance(b, C):
        return C(t_.bsum(n, k, b.re), t_.bsum(n, k, b.im))
    return t_.bsum(n, k, tonum(b))


def mk_lam(n, g):
    k = t_.fresh('k', 'I')
    return t_.blam(n, k, tonum(g(k)))


def mk_all(n, g):
    k = t_.fresh('k', 'I')
    return t_.eq(t_.bfirst(n, k, not_(boolt(g(k)))), t_.clamp0(n))


def mk_any(n, g):
    k = t_.fresh('k', 'I')
    return t_.lt(t_.bfirst(n, k, boolt(g(k))), t_.clamp0(n))


def boolt(x):
    if x.sort == 'B':
        return x
    return not_(t_.eq0(x))


def mk_ext(name):
    def f(n, g):
        if n.op == 'num' and n.args[0] <= 6:
            vs = [tonum(g(num(i))) for i in range(int(n.args[0]))]
            if name in ('amin', 'amax'):
                r = vs[0]
                for x in vs[1:]:
                    r = t_.minf(r, x) if name == 'amin' else t_.maxf(r, x)
                return r
        return t_.app(name, mk_lam(n, g), sort='I' if name.startswith('arg') else 'R')
    return f


def forall(I, st, lo, hi, g):
    """g(i) is provable for every lo <= i < hi"""
    from . import logic, quant
    i = t_.fresh('i', 'I')
    F = tuple(I.facts) + tuple(st.pc) + (t_.le(lo, i), t_.lt(i, hi))
    goal = g(i)
    if logic.entails(F, goal):
        return True
    for _ in range(2):
        F = F + quant.instances(F, (goal,))
        if logic.entails(F, goal, 1500):
            return True
    return False


def elements(I, st, m):
    """the selected elements of x[mask] as an array"""
    if len(m.shape) != 1:
        raise Unsupported('elements of a masked n-d array')
    n = m.shape[0]
    k = t_.fresh('k', 'I')
    body = boolt(m.mask((k,)))
    cand = []
    for x in t_.subterms(body):         # limits of the segments of the array
        if x.op in ('lt0', 'le0'):
            c = t_.add(x.args[0], k)
            for s in (c, t_.sub(k, x.args[0])):
                if k not in t_.fvs(s) and s.sort == 'I':
                    cand += [s, t_.add(s, ONE)] if x.op == 'le0' else [s]
    cand.append(t_.bfirst(n, k, body))
    for s in cand:                      # the mask is exactly i >= s
        if s.op != 'first' and not forall(I, st, ZERO, s, lambda i: not_(t_.subst(body, {k: i}))):
            continue
        if forall(I, st, s, n, lambda i: t_.subst(body, {k: i})):
            if s.op != 'first' and I.decide(st, t_.le(s, n)) is not True or I.decide(st, t_.le0(t_.neg(s))) is not True:
                continue
            return st.new_arr((t_.sub(n, s),), lambda ix: m.fn((t_.add(s, ix[0]),)), m.dtype)
    # general: element j is at the first position with more than j selected elements up to it
    count = lambda e: t_.bsum(e, k, t_.ite(body, ONE, ZERO))  # noqa: E731
    j = t_.fresh('j', 'I')
    return st.new_arr((count(n),), lambda ix: m.fn((t_.bfirst(n, j, t_.lt(ix[0], count(t_.add(j, ONE)))),)), m.dtype)


# ------------------------------------------------------------------ install
def install(I):
    cls = type(I)

    def binop(self, st, op, a, b):
        if isinstance(a, (str, SText)) and isinstance(b, (str, SText)) and op == 'Add' and not (isinstance(a, str) and isinstance(b, str)):
            return SText((a.chars if isinstance(a, SText) else tuple(a)) + (b.chars if isinstance(b, SText) else tuple(b)))
        if isinstance(a, str) and isinstance(b, str) and op == 'Add':
            return a + b
        if isinstance(a, str) and op == 'Mod':
            vals = [int(x.args[0]) if isinstance(x, T) and x.op == 'num' and x.args[0].denominator == 1 else x for x in (b if isinstance(b, tuple) else (b,))]
            if all(isinstance(x, (str, int)) for x in vals):
                try:
                    return a % tuple(vals)
                except (TypeError, ValueError) as e:
                    raise PyRaise(Exc(ExtCls(type(e).__name__)))
            return Opq('str')
        if isinstance(a, str) and isinstance(b, T) and b.op == 'num' and op == 'Mult':
            return a * int(b.args[0])
        if isinstance(a, (str, Opq)) and isinstance(b, (str, Opq)) and op == 'Add':
            return Opq('str')
        if isinstance(a, PList) and op in ('Add', 'Mult'):
            if op == 'Add' and isinstance(b, PList):
                return PList(st.alloc(list(st.heap[a.loc]) + list(st.heap[b.loc])))
            if op == 'Mult' and isinstance(b, T):
                if b.op == 'num':
                    return PList(st.alloc(list(st.heap[a.loc]) * int(b.args[0])))
                items = st.heap[a.loc]
                if len(items) == 1 and isinstance(items[0], (T, C)):
                    x = items[0]
                    return st.new_arr((t_.clamp0(b),), lambda ix: x, dtype_of(x), islist=True)
        if isinstance(b, PList) and op == 'Mult' and isinstance(a, T):
            return binop(self, st, op, b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, Arr) and a.islist and op == 'Add' and (isinstance(b, PList) or (isinstance(b, Arr) and b.islist)):
            r = concat(self, st, [a, b])
            return Arr(r.loc, r.shape, r.imap, r.dtype, True)
        if isinstance(b, Arr) and b.islist and op == 'Add' and isinstance(a, PList):
            r = concat(self, st, [a, b])
            return Arr(r.loc, r.shape, r.imap, r.dtype, True)
        for x in (a, b):
            if x is None or isinstance(x, (str, Obj, Cls, PDict)):
                if isinstance(x, Obj):
                    raise Unsupported('operator on object')
                raise PyRaise(Exc(ExtCls('TypeError')))
        return mapn(self, st, lambda x, y: arith(op, x, y), a, b)
    cls.binop = binop

    def map1(self, st, v, f):
        return mapn(self, st, f, v)
    cls.map1 = map1

    def compare(self, st, op, a, b):
        if op in ('Is', 'IsNot'):
            if isinstance(a, Opq) and isinstance(b, Opq):
                r = a.name == b.name
            elif isinstance(a, T) and isinstance(b, T):
                if a.sort == 'B' and b.sort == 'B':
                    c = t_.eq(a, b)
                    return c if op == 'Is' else not_(c)
                r = a is b
            else:
                r = same(a, b)
            return TRUE if r == (op == 'Is') else FALSE
        if isinstance(a, Comp) and a.order:
            return a.order(op, b)
        if isinstance(b, Comp) and b.order:
            return b.order({'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op), a)
        if op in ('In', 'NotIn'):
            r = self.contains(st, a, b)
            return r if op == 'In' else not_(r)
        if (isinstance(a, SText) or isinstance(b, SText)) and op in ('Eq', 'NotEq'):
            r = textlib.eq(a, b) if isinstance(a, (str, SText)) and isinstance(b, (str, SText)) else FALSE
            return r if op == 'Eq' else not_(r)
        if (isinstance(a, SStr) or isinstance(b, SStr)) and op in ('Eq', 'NotEq'):
            x, y = (a, b) if isinstance(a, SStr) else (b, a)
            if isinstance(y, str):
                r = x.is_(y)
            elif isinstance(y, SStr):
                if (x.name, x.case) != (y.name, y.case):
                    raise Unsupported('comparison of two arbitrary strings')
                r = TRUE
            elif isinstance(y, (T, C, PList, PDict, tuple, Obj)) or y is None:
                r = FALSE
            else:
                raise Unsupported('comparison with an arbitrary string')
            return r if op == 'Eq' else not_(r)
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if isinstance(a, (Arr, Masked, Opq, T)) and isinstance(b, str) or isinstance(b, (Arr, Masked, Opq, T)) and isinstance(a, str):
                if isinstance(a, T) or isinstance(b, T):
                    if op == 'Eq':
                        return FALSE
                    if op == 'NotEq':
                        return TRUE
                raise Unsupported('comparison with string')
            if op == 'Eq':
                return TRUE if type(a) == type(b) and a == b else FALSE
            if op == 'NotEq':
                return FALSE if type(a) == type(b) and a == b else TRUE
            if isinstance(a, str) and isinstance(b, str):
                r = {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
                return TRUE if r else FALSE
            raise PyRaise(Exc(ExtCls('TypeError')))
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PList) and isinstance(b, PList):
            x = list(a) if isinstance(a, tuple) else st.heap[a.loc]
            y = list(b) if isinstance(b, tuple) else st.heap[b.loc]
            if op in ('Eq', 'NotEq'):
                if len(x) != len(y):
                    r = FALSE
                else:
                    r = and_(*[self.truth(st, self.compare(st, 'Eq', p, q)) for p, q in zip(x, y)])
                return r if op == 'Eq' else not_(r)
        if isinstance(a, (Obj, Cls, Fn)) or isinstance(b, (Obj, Cls, Fn)):
            if op in ('Eq', 'NotEq'):
                r = same(a, b)
                return TRUE if r == (op == 'Eq') else FALSE
        return mapn(self, st, lambda x, y: cmp(op, x, y), a, b, dtype='B')
    cls.compare = compare

    def contains(self, st, a, b):
        if isinstance(b, Opq) and b.name == 'loaded modules':
            return TRUE
        if isinstance(b, str):
            if isinstance(a, str):
                return TRUE if a in b else FALSE
            raise Unsupported('in str')
        if isinstance(b, SText) and isinstance(a, str) and not any(c.isdigit() for c in a):
            return TRUE if textlib.find(b.chars, a) >= 0 else FALSE
        if isinstance(b, Opq) and b.name.startswith('ncgroups|'):
            return self.contains(st, a, tuple(self.iter_of(st, b)))
        if isinstance(b, Opq) and b.name.startswith('page:'):
            return self.call(st, self.getattr_(st, b, '__contains__'), [a], {})
        if isinstance(b, PFrame):
            return TRUE if a in frames.rec(st, b).cols else FALSE
        if isinstance(b, PDict):
            if symkey(a):
                return or_(*[c for c, _ in keyed(self, a, st.heap[b.loc])])
            v = st.heap[b.loc].get(self.key(a), UNDEF)
            return v.cond if isinstance(v, Maybe) else FALSE if v is UNDEF else TRUE
        if isinstance(b, (tuple, PList)):
            items = list(b) if isinstance(b, tuple) else st.heap[b.loc]
            r = FALSE
            for x in items:
                c = self.compare(st, 'Eq', a, x)
                r = or_(r, self.truth(st, c))
            return r
        if isinstance(b, Arr):
            f = st.arr_fn(b)
            if len(b.shape) == 1 and isinstance(a, T):
                return mk_any(b.shape[0], lambda k: t_.eq(a, f((k,))))
        raise Unsupported('in %r' % (b,))
    cls.contains = contains

    def getitem(self, st, o, i, checked=False):
        if isinstance(o, Arr):
            return get_arr(self, st, o, i, checked)
        if isinstance(o, PList) and isinstance(st.heap[o.loc], SymList):
            h = st.heap[o.loc]
            if isinstance(i, T):
                return h.item(norm_index(self, st, i, h.n, not checked))
            o = as_array(self, st, o)
            return get_arr(self, st, o, i, checked)
        if isinstance(o, (PList, tuple, str)):
            items = st.heap[o.loc] if isinstance(o, PList) else o
            if isinstance(i, T):
                if i.op == 'num':
                    try:
                        return items[int(i.args[0])]
                    except IndexError:
                        raise PyRaise(Exc(ExtCls('IndexError')))
                if isinstance(o, str):
                    raise Unsupported('symbolic string index')
                ok = all(isinstance(x, (T, C)) for x in items)
                if ok:
                    a = as_array(self, st, o)
                    return get_arr(self, st, a, i, checked)
                alts = [(or_(t_.eq(i, num(k)), t_.eq(i, num(k - len(items)))), items[k]) for k in range(len(items))]
                oob = and_(*[not_(c) for c, _ in alts])
                r = self.choose(st, alts + [(oob, UNDEF)])
                if r is UNDEF:
                    raise PyRaise(Exc(ExtCls('IndexError')))
                return r
            if isinstance(i, Slice):
                def cv(x):
                    if x is None:
                        return None
                    if isinstance(x, T) and x.op == 'num':
                        return int(x.args[0])
                    raise Unsupported('symbolic slice of list')
                r = items[slice(cv(i.a), cv(i.b), cv(i.s))]
                return PList(st.alloc(list(r))) if isinstance(o, PList) else r
            if isinstance(i, (str,)):
                raise PyRaise(Exc(ExtCls('TypeError')))
            raise Unsupported('index %r' % (i,))
        if isinstance(o, PDict):
            d = st.heap[o.loc]
            k = pick_key(self, st, d, i)
            if k in d:
                v = d[k]
                if isinstance(v, Maybe):
                    if self.choose(st, [(v.cond, True), (not_(v.cond), False)]):
                        return v.val
                    raise PyRaise(Exc(ExtCls('KeyError')))
                return v
            h = d.get('\0missing')
            if h is not None:
                return h(self, st, o, k)
            raise PyRaise(Exc(ExtCls('KeyError')))
        if isinstance(o, Masked):
            if isinstance(i, T) and i.op == 'num' and i.args[0] == 0 and len(o.shape) == 1:
                k = t_.fresh('k', 'I')
                f = t_.bfirst(o.shape[0], k, o.mask((k,)))
                self.oblige(st, t_.lt(f, o.shape[0]), 'selection not empty')
                return o.fn((f,))
            raise Unsupported('index of a masked selection')
        if isinstance(o, IdxSet):
            if isinstance(i, T) and i.op == 'num':
                k = t_.fresh('k', 'I')
                if i.args[0] == 0:
                    f = t_.bfirst(o.shape[0], k, o.mask((k,)))
                    self.oblige(st, t_.lt(f, o.shape[0]), 'selection not empty')
                    return f
                if i.args[0] == -1:
                    f = t_.blast(o.shape[0], k, o.mask((k,)))
                    self.oblige(st, t_.le0(t_.neg(f)), 'selection not empty')
                    return f
            raise Unsupported('index of an index set')
        if o is None:
            raise PyRaise(Exc(ExtCls('TypeError')))
        if isinstance(o, DF) and isinstance(i, str):
            if i not in o.cols:
                raise PyRaise(Exc(ExtCls('KeyError')))
            return Opq('column')
        if isinstance(o, SText):
            return textlib.item(self, st, o, i)
        if isinstance(o, PFrame):
            return frames.item(self, st, o, i)
        if isinstance(o, Comp) and o.item:
            return o.item(self, st, i)
        h = self.getitem_ext(st, o, i)
        return h
    cls.getitem = getitem

    def getitem_ext(self, st, o, i):
        if isinstance(o, Opq):
            for pre, h in self.opq_items.items():
                if o.name.startswith(pre):
                    return h(self, st, o, i)
        if isinstance(o, (ExtCls, Cls)):
            return o                         # generic alias in annotations
        raise Unsupported('subscript of %r' % (o,))
    cls.getitem_ext = getitem_ext

    def setitem(self, st, o, i, v):
        if isinstance(o, Arr):
            set_arr(self, st, o, i, v)
            return
        if isinstance(o, PList):
            l = list(st.heap[o.loc])
            if isinstance(i, T) and i.op == 'num':
                try:
                    l[int(i.args[0])] = v
                except IndexError:
                    raise PyRaise(Exc(ExtCls('IndexError')))
                st.heap[o.loc] = l
                return
            raise Unsupported('list store')
        if isinstance(o, PDict):
            d = dict(st.heap[o.loc])
            d[self.key(i)] = v
            st.heap[o.loc] = d
            return
        if isinstance(o, tuple):
            raise PyRaise(Exc(ExtCls('TypeError')))
        if isinstance(o, PFrame):
            return frames.setcol(self, st, o, i, v)
        if isinstance(o, DF) and isinstance(i, str) and o.base is None and t_.eq(o.nblocks, ONE) is TRUE and i not in o.cols \
                and [x for x in st.env.values() if x is o]:
            from . import pdlib
            return pdlib.add_column(self, st, o, i, v)
        raise Unsupported('store into %r' % (o,))
    cls.setitem = setitem

    cls.attr_prim = attr_prim
    I.opq_items = {}
    I.opq_attrs = {}
    I.extclass = {}
    I.builtins = make_builtins()
    cls.builtin = lambda self, name: _builtin(self, name)
    make_numpy(I)


def _builtin(self, name):
    v = self.builtins.get(name)
    if v is None and name not in self.builtins:
        raise PyRaise(Exc(ExtCls('NameError')))
    return v


# ------------------------------------------------------------------ attributes of primitive values
def attr_prim(self, st, o, name):
    if isinstance(o, Comp) and o.attr:
        return o.attr(self, st, name)
    if isinstance(o, Arr):
        if name == 'shape':
            return tuple(o.shape)
        if name == 'size':
            return t_.mul(*o.shape)
        if name == 'ndim':
            return num(len(o.shape))
        if name == 'T':
            n = len(o.shape)
            if n <= 1:
                return o
            dims = o.imap.dims if o.imap else identity_dims(n)
            nd = [d if d[0] == 'fix' else ('var', n - 1 - d[1], d[2], d[3]) for d in dims]
            sh = tuple(reversed(o.shape))
            return Arr(o.loc, sh, IMap(nd, sh, st.heap[o.loc].shape), o.dtype)
        if name == 'real':
            return self.map1(st, o, lambda x: cparts(x)[0])
        if name == 'imag':
            return self.map1(st, o, lambda x: cparts(x)[1])
        if name == 'dtype':
            return Opq('dtype:' + o.dtype)
        if name == 'values':
            return o
        if o.islist and name in ('append', 'extend'):
            def app(I, st, args, kw):
                raise Unsupported('append to a symbolic list')
            return Prim(name, app)
        m = ARR_METHODS.get(name)
        if m:
            return Prim('ndarray.' + name, lambda I, st, args, kw: m(I, st, [o] + list(args), kw))
        m = frames.series_attr(self, st, o, name) if name in ('isna', 'isnull', 'notna', 'notnull', 'round') else None
        if m is not None:
            return m
        if name in ('values', 'to_numpy', 'iloc'):
            raise Unsupported('array attribute ' + name)
        raise PyRaise(Exc(ExtCls('AttributeError')))
    if isinstance(o, (T, C)):
        if name == 'real':
            return cparts(o)[0]
        if name == 'imag':
            return cparts(o)[1]
        if name == 'shape':
            return ()
        if name == 'size':
            return ONE
        if name == 'ndim':
            return ZERO
        if name in ('any', 'all'):
            return Prim(name, lambda I, st, args, kw: boolt(o))
        if name in ('copy', 'item', 'conjugate', 'conj', 'squeeze', 'flatten'):
            if name in ('conjugate', 'conj'):
                return Prim(name, lambda I, st, args, kw: C(o.re, t_.neg(o.im)) if isinstance(o, C) else o)
            return Prim(name, lambda I, st, args, kw: o)
        if name in ('sum', 'max', 'min', 'mean'):
            return Prim(name, lambda I, st, args, kw: o)
        if name == 'is_integer' and isinstance(o, T):
            return Prim(name, lambda I, st, args, kw: t_.eq(o, t_.floorf(o)))
        if name in ('astype',):
            return Prim(name, lambda I, st, args, kw: NP['astype'](I, st, [o] + list(args), kw))
        if name == 'dtype':
            return Opq('dtype:' + dtype_of(o))
        raise PyRaise(Exc(ExtCls('AttributeError')))
    if isinstance(o, SText):
        return textlib.attr(self, st, o, name)
    if isinstance(o, SStr):
        if name in ('upper', 'lower', 'casefold'):
            return Prim(name, lambda I, st, args, kw: SStr(o.name, 'upper' if name == 'upper' else 'lower'))
        if name not in dir(str):
            raise PyRaise(Exc(ExtCls('AttributeError')))
        raise Unsupported('str.%s of an arbitrary string' % name)
    if isinstance(o, str):
        def smeth(I, st, args, kw):
            if name == 'format':
                return frames.fmt(I, st, o, args, kw)
            if name == 'join' and len(args) == 1 and not isinstance(args[0], (str, tuple)):
                r = seqlib.join(I, st, o, args[0])
                if r is not None:
                    return r
            vals = []
            for a in args:
                if isinstance(a, T) and a.op == 'num' and a.args[0].denominator == 1:
                    vals.append(int(a.args[0]))
                elif isinstance(a, (str, type(None))):
                    vals.append(a)
                elif isinstance(a, tuple) and all(isinstance(x, str) for x in a):
                    vals.append(a)
                elif name == 'format':
                    return Opq('str')
                elif name == 'join' and isinstance(a, (PList,)):
                    vals.append(st.heap[a.loc])
                else:
                    raise Unsupported('str.%s' % name)
            if name == 'format' and kw:
                return Opq('str')
            if not hasattr(o, name):
                raise PyRaise(Exc(ExtCls('AttributeError')))
            r = getattr(o, name)(*vals)
            if isinstance(r, bool):
                return TRUE if r else FALSE
            if isinstance(r, int):
                return num(r)
            if isinstance(r, list):
                return PList(st.alloc(r))
            if isinstance(r, (str, tuple)):
                return r
            raise Unsupported('str.%s' % name)
        if not hasattr('', name):
            raise PyRaise(Exc(ExtCls('AttributeError')))
        return Prim('str.' + name, smeth)
    if isinstance(o, PList):
        return list_attr(self, st, o, name)
    if isinstance(o, PDict):
        return dict_attr(self, st, o, name)
    if isinstance(o, tuple):
        if name == 'index':
            return Prim('index', lambda I, st, args, kw: _index_of(I, st, list(o), args[0]))
        if name == 'count':
            raise Unsupported('tuple.count')
        if name == 'shape' or name == 'T':
            raise PyRaise(Exc(ExtCls('AttributeError')))
    if isinstance(o, Fn) and name == '__name__':
        return o.name
    if isinstance(o, Exc):
        if name == 'args':
            return tuple(o.args)
        return Opq('excattr')
    if isinstance(o, PFrame):
        return frames.attr(self, st, o, name)
    if isinstance(o, DF) and name == 'attrs' and o.attrs is not None:
        return PDict(o.attrs)
    if isinstance(o, Masked):
        m = frames.series_attr(self, st, o, name)
        if m is not None:
            return m
        if name == 'size':
            k = t_.fresh('k', 'I')
            return t_.bsum(o.shape[0], k, t_.ite(o.mask((k,)), ONE, ZERO))
    if isinstance(o, Opq):
        for pre, h in self.opq_attrs.items():
            if o.name.startswith(pre):
                return h(self, st, o, name)
    if isinstance(o, Prim) and ('prim:' + o.name + '.' + name) in self.ext:
        return self.ext['prim:' + o.name + '.' + name]
    if isinstance(o, ExtCls) and ('ext:' + o.name + '.' + name) in self.ext:
        return self.ext['ext:' + o.name + '.' + name]
    if o is None:
        raise PyRaise(Exc(ExtCls('AttributeError')))
    raise Unsupported('attribute %s of %r' % (name, o))


def _index_of(I, st, items, x):
    for k, y in enumerate(items):
        c = I.truth(st, I.compare(st, 'Eq', x, y))
        if I.choose(st, [(c, True), (not_(c), False)]):
            return num(k)
    raise PyRaise(Exc(ExtCls('ValueError')))


def list_attr(self, st, o, name):
    def append(I, st, args, kw):
        if isinstance(st.heap[o.loc], GrowList):
            st.heap[o.loc] = st.heap[o.loc].append(args[0])
            return
        st.heap[o.loc] = list(st.heap[o.loc]) + [args[0]]

    def extend(I, st, args, kw):
        st.heap[o.loc] = list(st.heap[o.loc]) + I.to_pylist(st, args[0])

    def insert(I, st, args, kw):
        l = list(st.heap[o.loc])
        if not (isinstance(args[0], T) and args[0].op == 'num'):
            raise Unsupported('insert')
        l.insert(int(args[0].args[0]), args[1])
        st.heap[o.loc] = l

    def index(I, st, args, kw):
        return _index_of(I, st, st.heap[o.loc], args[0])

    def copy(I, st, args, kw):
        return PList(st.alloc(list(st.heap[o.loc])))

    def reverse(I, st, args, kw):
        st.heap[o.loc] = list(reversed(st.heap[o.loc]))

    def sort(I, st, args, kw):
        l = st.heap[o.loc]
        if all(isinstance(x, str) for x in l) and not kw:
            st.heap[o.loc] = sorted(l)
            return None
        if all(isinstance(x, T) and x.op == 'num' for x in l) and not kw:
            st.heap[o.loc] = sorted(l, key=lambda x: x.args[0])
            return None
        raise Unsupported('sort')

    def pop(I, st, args, kw):
        l = list(st.heap[o.loc])
        p = int(args[0].args[0]) if args else -1
        v = l.pop(p)
        st.heap[o.loc] = l
        return v
    d = dict(append=append, extend=extend, insert=insert, index=index, copy=copy, reverse=reverse, sort=sort, pop=pop)
    if name in d:
        return Prim('list.' + name, d[name])
    if name in ('count', 'remove', 'clear'):
        raise Unsupported('list.' + name)
    raise PyRaise(Exc(ExtCls('AttributeError')))


def dict_attr(self, st, o, name):
    def keys(I, st, args, kw):
        return tuple(st.heap[o.loc].keys())

    def values(I, st, args, kw):
        return tuple(st.heap[o.loc].values())

    def items(I, st, args, kw):
        return tuple((k, v) for k, v in st.heap[o.loc].items())

    def get(I, st, args, kw):
        d = st.heap[o.loc]
        k = pick_key(I, st, d, args[0])
        if k in d:
            v = d[k]
            if not isinstance(v, Maybe):
                return v
            if I.choose(st, [(v.cond, True), (not_(v.cond), False)]):
                return v.val
        return args[1] if len(args) > 1 else None

    def copy(I, st, args, kw):
        return PDict(st.alloc(dict(st.heap[o.loc])))

    def update(I, st, args, kw):
        d = dict(st.heap[o.loc])
        for a in args:
            d.update(st.heap[a.loc])
        d.update(kw)
        st.heap[o.loc] = d

    def pop(I, st, args, kw):
        d = dict(st.heap[o.loc])
        k = I.key(args[0])
        if k not in d:
            if len(args) > 1:
                return args[1]
            raise PyRaise(Exc(ExtCls('KeyError')))
        v = d.pop(k)
        st.heap[o.loc] = d
        return v

    def setdefault(I, st, args, kw):
        d = dict(st.heap[o.loc])
        k = I.key(args[0])
        if k not in d:
            d[k] = args[1]
            st.heap[o.loc] = d
        return d[k]

    def clear(I, st, args, kw):
        st.heap[o.loc] = {}
    m = dict(keys=keys, values=values, items=items, get=get, copy=copy, update=update, pop=pop, setdefault=setdefault,
             clear=clear)
    if name in m:
        return Prim('dict.' + name, m[name])
    raise PyRaise(Exc(ExtCls('AttributeError')))


# ------------------------------------------------------------------ builtins
def make_builtins():
    B = {}

    def p(name):
        def d(f):
            B[name] = Prim(name, f)
            return f
        return d

    @p('len')
    def _len(I, st, args, kw):
        v = args[0]
        if isinstance(v, SText):
            return num(len(v.chars))
        if isinstance(v, Arr):
            if not v.shape:
                raise PyRaise(Exc(ExtCls('TypeError')))
            return v.shape[0]
        if isinstance(v, (tuple, str)):
            return num(len(v))
        if isinstance(v, PList) and isinstance(st.heap[v.loc], SymList):
            return st.heap[v.loc].n
        if isinstance(v, PList) and isinstance(st.heap[v.loc], seqlib.Picked):
            return st.heap[v.loc].length()
        if isinstance(v, (PList, PDict)):
            return num(len(st.heap[v.loc]))
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Rng):
            return I.range_len(st, v)
        if isinstance(v, (T, C)) or v is None:
            raise PyRaise(Exc(ExtCls('TypeError')))
        if isinstance(v, Masked):
            k = t_.fresh('k', 'I')
            return t_.bsum(v.shape[0], k, t_.ite(v.mask((k,)), ONE, ZERO))
        if isinstance(v, DF):
            return t_.mul(v.nblocks, v.rows)
        raise Unsupported('len of %r' % (v,))

    @p('range')
    def _range(I, st, args, kw):
        for a in args:
            if not isinstance(a, T):
                raise PyRaise(Exc(ExtCls('TypeError')))
        if len(args) == 1:
            return Rng(ZERO, args[0], ONE)
        return Rng(args[0], args[1], args[2] if len(args) > 2 else ONE)

    @p('enumerate')
    def _enum(I, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        it = I.iter_of(st, args[0])
        if isinstance(it, seqlib.Picked):
            raise Unsupported('enumeration of a filtered sequence')
        if isinstance(it, list):
            return [(t_.add(start, num(i)), x) for i, x in enumerate(it)]
        v = args[0]
        s = Seq(it.n, lambda k: (t_.add(start, k), it.item(k)))
        return s

    @p('zip')
    def _zip(I, st, args, kw):
        its = [I.iter_of(st, a) for a in args]
        if any(isinstance(i, seqlib.Picked) for i in its):
            return seqlib.zipped(I, st, its)
        if all(isinstance(i, list) for i in its):
            return list(zip(*its))
        n = None
        for i in its:
            m = num(len(i)) if isinstance(i, list) else i.n
            if n is None or n is m:
                n = m
            else:
                d = I.decide(st, t_.le(n, m))
                n = n if d is True else m if d is False else t_.minf(n, m)
        def item(k):
            out = []
            for a, i in zip(args, its):
                if isinstance(i, list):
                    out.append(I.getitem(st, PList(st.alloc(i)), k))
                else:
                    out.append(i.item(k))
            return tuple(out)
        return Seq(n, item)

    @p('reversed')
    def _rev(I, st, args, kw):
        it = I.iter_of(st, args[0])
        if isinstance(it, seqlib.Picked):
            raise Unsupported('reversal of a filtered sequence')
        if isinstance(it, list):
            return list(reversed(it))
        return Seq(it.n, lambda k: it.item(t_.sub(t_.sub(it.n, ONE), k)))

    @p('list')
    def _list(I, st, args, kw):
        if not args:
            return PList(st.alloc([]))
        v = args[0]
        if isinstance(v, Arr):
            return st.new_arr(v.shape, st.arr_fn(v), v.dtype, islist=True)
        it = I.iter_of(st, v)
        if isinstance(v, PList) and isinstance(it, Seq) and not isinstance(it.item(t_.fresh('i', 'I')), (T, C)):
            return PList(st.alloc(st.heap[v.loc]))
        if isinstance(it, Seq):
            return st.new_arr((it.n,), lambda ix: it.item(ix[0]), 'R', islist=True)
        if isinstance(it, seqlib.Picked):
            return seqlib.listed(st, it)
        return PList(st.alloc(list(it)))

    @p('tuple')
    def _tuple(I, st, args, kw):
        return tuple(I.to_pylist(st, args[0])) if args else ()

    @p('dict')
    def _dict(I, st, args, kw):
        d = {}
        if args:
            if isinstance(args[0], PDict):
                d.update(st.heap[args[0].loc])
            else:
                for x in I.to_pylist(st, args[0]):
                    k, v = I.unpack(st, x, 2)
                    d[I.key(k)] = v
        d.update(kw)
        return PDict(st.alloc(d))

    @p('set')
    def _set(I, st, args, kw):
        return tuple(I.to_pylist(st, args[0])) if args else ()

    @p('sorted')
    def _sorted(I, st, args, kw):
        l = I.to_pylist(st, args[0])
        if all(isinstance(x, str) for x in l) and not kw:
            return PList(st.alloc(sorted(l)))
        if not kw and all(isinstance(x, T) and x.op == 'num' for x in l):
            return PList(st.alloc(sorted(l, key=lambda x: x.args[0])))
        raise Unsupported('sorted')

    @p('abs')
    def _abs(I, st, args, kw):
        return I.map1(st, args[0], lambda x: cabs(tonum(x)))

    @p('float')
    def _float(I, st, args, kw):
        v = args[0]
        if isinstance(v, Arr) and all(d is ONE for d in v.shape):
            v = st.arr_at(v, (ZERO,) * len(v.shape))
        if isinstance(v, T):
            return tonum(v)
        if isinstance(v, SText):
            return textlib.number(v, True)
        if isinstance(v, str):
            try:
                f = float(v)
            except ValueError:
                raise PyRaise(Exc(ExtCls('ValueError')))
            return num(f) if f == f and abs(f) != float('inf') else t_.NAN
        raise PyRaise(Exc(ExtCls('TypeError')))

    @p('int')
    def _int(I, st, args, kw):
        v = args[0]
        if isinstance(v, Arr) and all(d is ONE for d in v.shape):
            v = st.arr_at(v, (ZERO,) * len(v.shape))
        if isinstance(v, T):
            return t_.truncf(tonum(v))
        if isinstance(v, SText):
            return textlib.number(v, False)
        if isinstance(v, Comp) and hasattr(v, 'integer'):
            return v.integer(I, st)
        if isinstance(v, str):
            try:
                return num(int(v))
            except ValueError:
                raise PyRaise(Exc(ExtCls('ValueError')))
        raise PyRaise(Exc(ExtCls('TypeError')))

    @p('bool')
    def _bool(I, st, args, kw):
        return I.truth(st, args[0])

    @p('str')
    def _str(I, st, args, kw):
        if isinstance(args[0], SText):
            return args[0]
        if isinstance(args[0], seqlib.RawLine) and len(args) + len(kw) > 1:
            return args[0].line
        s = I.to_str(args[0])
        return s if s is not None else Opq('str')

    @p('complex')
    def _complex(I, st, args, kw):
        def sc(v):
            if isinstance(v, Arr):
                if not all(d is ONE for d in v.shape):
                    raise PyRaise(Exc(ExtCls('TypeError')))
                v = st.arr_at(v, (ZERO,) * len(v.shape))
            return tonum(v)
        a = sc(args[0])
        b = sc(args[1]) if len(args) > 1 else ZERO
        if isinstance(a, C) or isinstance(b, C):
            return cadd(a, cmul(C(ZERO, ONE), b))
        return C(a, b)

    @p('divmod')
    def _divmod(I, st, args, kw):
        return (arith('FloorDiv', args[0], args[1]), arith('Mod', args[0], args[1]))

    @p('round')
    def _round(I, st, args, kw):
        nd = args[1] if len(args) > 1 else ZERO
        return t_.app('round', tonum(args[0]), nd, sort='R' if len(args) > 1 else 'I')

    @p('pow')
    def _pow(I, st, args, kw):
        return I.binop(st, 'Pow', args[0], args[1])

    @p('sum')
    def _sum(I, st, args, kw):
        v = args[0]
        if isinstance(v, (PList, tuple)):
            r = args[1] if len(args) > 1 else ZERO
            for x in I.to_pylist(st, v):
                r = I.binop(st, 'Add', r, x)
            return r
        s = reduce1(I, st, v if not isinstance(v, (Seq, list)) else as_array(I, st, v if isinstance(v, Seq) else tuple(v)), mk_sum)
        return I.binop(st, 'Add', s, args[1]) if len(args) > 1 else s

    def minmax(name):
        def f(I, st, args, kw):
            if len(args) > 1:
                r = args[0]
                for x in args[1:]:
                    r = t_.minf(tonum(r), tonum(x)) if name == 'amin' else t_.maxf(tonum(r), tonum(x))
                return r
            return reduce1(I, st, args[0], mk_ext(name))
        return f
    B['min'] = Prim('min', minmax('amin'))
    B['max'] = Prim('max', minmax('amax'))

    @p('all')
    def _all(I, st, args, kw):
        v = args[0]
        if isinstance(v, (PList, tuple, list)):
            items = st.heap[v.loc] if isinstance(v, PList) else list(v)
            return and_(*[I.truth(st, x) for x in items])
        return reduce1(I, st, v, mk_all)

    @p('any')
    def _any(I, st, args, kw):
        v = args[0]
        if isinstance(v, (PList, tuple, list)):
            items = st.heap[v.loc] if isinstance(v, PList) else list(v)
            return or_(*[I.truth(st, x) for x in items])
        return reduce1(I, st, v, mk_any)

    @p('print')
    def _print(I, st, args, kw):
        return None

    @p('isinstance')
    def _isinst(I, st, args, kw):
        v, c = args
        cs = c if isinstance(c, tuple) else (c,)
        return TRUE if any(isinst(I, st, v, x) for x in cs) else FALSE

    @p('hasattr')
    def _hasattr(I, st, args, kw):
        try:
            I.getattr_(st, args[0], args[1])
            return TRUE
        except PyRaise as e:
            if e.val.name == 'AttributeError':
                return FALSE
            raise

    @p('getattr')
    def _getattr(I, st, args, kw):
        if not isinstance(args[1], str):
            raise Unsupported('getattr with symbolic name')
        try:
            return I.getattr_(st, args[0], args[1])
        except PyRaise as e:
            if e.val.name == 'AttributeError' and len(args) > 2:
                return args[2]
            raise

    @p('setattr')
    def _setattr(I, st, args, kw):
        I.setattr_(st, args[0], args[1], args[2])

    @p('callable')
    def _callable(I, st, args, kw):
        return TRUE if isinstance(args[0], (Fn, Bound, Prim, Cls, ExtCls)) else FALSE

    @p('type')
    def _type(I, st, args, kw):
        if isinstance(args[0], Obj):
            return args[0].cls
        raise Unsupported('type()')

    @p('map')
    def _map(I, st, args, kw):
        it = I.iter_of(st, args[1])
        if isinstance(it, list):
            return [I.call(st, args[0], [x], {}) for x in it]
        raise Unsupported('map over symbolic')

    @p('filter')
    def _filter(I, st, args, kw):
        raise Unsupported('filter')

    @p('slice')
    def _slice(I, st, args, kw):
        if len(args) == 1:
            return Slice(None, args[0], None)
        return Slice(args[0], args[1], args[2] if len(args) > 2 else None)

    for n in ('ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'RuntimeError', 'Exception',
              'SystemExit', 'NotImplementedError', 'ZeroDivisionError', 'NameError', 'UnboundLocalError', 'LookupError',
              'AssertionError', 'ArithmeticError', 'OSError', 'IOError', 'FileNotFoundError', 'BaseException',
              'UserWarning', 'DeprecationWarning', 'RuntimeWarning', 'StopIteration', 'object', 'OverflowError', 'property', 'UnicodeDecodeError'):
        B[n] = ExtCls(n)
    B['staticmethod'] = Prim('staticmethod', lambda I, st, a, k: a[0])
    B['classmethod'] = Prim('classmethod', lambda I, st, a, k: a[0])
    B['__name__'] = 'MODULE'
    B['NotImplemented'] = Opq('NotImplemented')
    return B


BUILTIN_TYPES = {'float', 'int', 'bool', 'str', 'list', 'tuple', 'dict', 'complex', 'set'}


def isinst(I, st, v, c):
    n = c.name if isinstance(c, (ExtCls, Prim, Cls, Opq)) else None
    if isinstance(c, Cls):
        return isinstance(v, Obj) and isinstance(v.cls, Cls) and c in v.cls.mro()
    if n == 'float':
        if isinstance(v, T):
            if v.op == 'num' and v.args[0].denominator == 1:
                raise Unsupported('isinstance(literal, float)')
            return v.sort == 'R'
        return False
    if n in ('int', 'numpy.integer', 'np.integer'):
        if isinstance(v, T):
            return v.sort in ('I', 'B')
        return False
    if n == 'bool':
        return isinstance(v, T) and v.sort == 'B'
    if n == 'str':
        return isinstance(v, (str, SStr, SText))
    if n == 'list':
        return isinstance(v, PList) or (isinstance(v, Arr) and v.islist)
    if n == 'tuple':
        return isinstance(v, tuple)
    if n == 'datetime':
        return isinstance(v, Opq) and v.name.startswith('date:') or isinstance(v, seqlib.When) and not v.day
    if n == 'dict':
        return isinstance(v, PDict)
    if n == 'ndarray':
        return isinstance(v, (Arr, Masked)) and not getattr(v, 'islist', False)
    if n in ('complex',):
        return isinstance(v, C)
    if n == 'object':
        return True
    if n in ('Number', 'Real'):
        return isinstance(v, T)
    if n == 'generic':
        return False
    if n == 'MethodType':
        return isinstance(v, Bound)
    if n == 'ModuleType':
        return isinstance(v, ModV)
    raise Unsupported('isinstance against %r' % (c,))


# ------------------------------------------------------------------ numpy
NP = {}
ARR_METHODS = {}


def concat(I, st, vs):
    parts = [getf(I, st, v) for v in vs]
    parts = [((ONE,), (lambda ix, f=f: f(()))) if s == () else (s, f) for s, f in parts]
    off = []
    tot = ZERO
    for s, f in parts:
        off.append(tot)
        tot = t_.add(tot, s[0])
    rest = parts[0][0][1:]

    def g(ix):
        i = ix[0]
        r = None
        for (s, f), o in reversed(list(zip(parts, off))):
            j = t_.sub(i, o)
            if s[0] is ONE and len(s) == 1:
                val = f((ZERO,))
            else:
                val = None
            c = t_.lt(i, t_.add(o, s[0]))
            if r is None:
                r = val if val is not None else f((j,) + tuple(ix[1:]))
                continue
            if c is FALSE:
                continue
            if c is TRUE:
                r = val if val is not None else f((j,) + tuple(ix[1:]))
                continue
            r = ite_val(c, val if val is not None else f((j,) + tuple(ix[1:])), r)
        return r
    # empty parts do not contribute their dtype/values
    parts2 = [(s, f, o) for (s, f), o in zip(parts, off) if s[0] is not ZERO]
    if len(parts2) == 1:
        s, f, o = parts2[0]
        return st.new_arr(s, f, 'R')
    pr = g((t_.fresh('i', 'I'),) + tuple(t_.fresh('i', 'I') for _ in rest))
    return st.new_arr((tot,) + tuple(rest), g, dtype_of(pr))


def make_numpy(I):
    ext = I.ext

    def p(*names):
        def d(f):
            for n in names:
                NP[n] = f
                ext['numpy.' + n] = Prim('np.' + n, f)
            return f
        return d

    def unary(name, f, dtype=None):
        def h(I, st, args, kw):
            return mapn(I, st, lambda x: f(tonum(x)), args[0])
        p(name)(h)

    def realonly(f):
        def g(x):
            if isinstance(x, C):
                raise Unsupported('complex argument')
            return f(x)
        return g

    def cexp(x):
        if isinstance(x, C):
            m = t_.exp(x.re)
            return C(t_.mul(m, t_.cos(x.im)), t_.mul(m, t_.sin(x.im)))
        return t_.exp(x)
    unary('exp', cexp)
    def clog(x):
        if isinstance(x, C):
            return C(t_.scale(Q(1, 2), t_.log(t_.add(t_.mul(x.re, x.re), t_.mul(x.im, x.im)))), t_.arctan2(x.im, x.re))
        return t_.log(x)
    unary('log', clog)
    unary('log10', realonly(lambda x: t_.div(t_.log(x), t_.log(num(10)))))
    unary('log2', realonly(lambda x: t_.div(t_.log(x), t_.log(num(2)))))
    unary('log1p', realonly(lambda x: t_.log(t_.add(ONE, x))))
    unary('expm1', realonly(lambda x: t_.sub(t_.exp(x), ONE)))
    unary('sqrt', csqrt)
    unary('sin', realonly(t_.sin))
    unary('cos', realonly(t_.cos))
    unary('tan', realonly(t_.tan))
    unary('arcsin', realonly(t_.arcsin))
    unary('arccos', realonly(lambda x: t_.sub(t_.scale(Q(1, 2), t_.PI), t_.arcsin(x))))
    unary('arctan', realonly(lambda x: t_.arctan2(x, ONE)))
    unary('abs', cabs)
    unary('absolute', cabs)
    unary('fabs', cabs)
    unary('real', lambda x: cparts(x)[0])
    unary('imag', lambda x: cparts(x)[1])
    unary('conj', lambda x: C(x.re, t_.neg(x.im)) if isinstance(x, C) else x)
    unary('conjugate', lambda x: C(x.re, t_.neg(x.im)) if isinstance(x, C) else x)
    unary('square', lambda x: cmul(x, x))
    unary('negative', cneg)
    unary('floor', realonly(t_.floorf))
    unary('ceil', realonly(lambda x: t_.neg(t_.floorf(t_.neg(x)))))
    unary('trunc', realonly(t_.truncf))
    unary('fix', realonly(t_.truncf))
    unary('deg2rad', realonly(lambda x: t_.div(t_.mul(x, t_.PI), num(180))))
    unary('radians', realonly(lambda x: t_.div(t_.mul(x, t_.PI), num(180))))
    unary('rad2deg', realonly(lambda x: t_.div(t_.mul(x, num(180)), t_.PI)))
    unary('reciprocal', lambda x: cdiv(ONE, x))
    unary('sign', realonly(lambda x: t_.ite(t_.lt0(x), num(-1), t_.ite(t_.eq0(x), ZERO, ONE))))
    unary('cosh', realonly(lambda x: t_.scale(Q(1, 2), t_.add(t_.exp(x), t_.exp(t_.neg(x))))))
    unary('sinh', realonly(lambda x: t_.scale(Q(1, 2), t_.sub(t_.exp(x), t_.exp(t_.neg(x))))))
    unary('tanh', realonly(lambda x: t_.div(t_.sub(t_.exp(t_.scale(2, x)), ONE), t_.add(t_.exp(t_.scale(2, x)), ONE))))

    @p('round', 'around', 'round_')
    def _npround(I, st, args, kw):
        nd = args[1] if len(args) > 1 else kw.get('decimals', ZERO)
        if not (isinstance(nd, T) and nd.op == 'num'):
            raise Unsupported('round')
        return mapn(I, st, lambda x: t_.app('round', tonum(x), nd), args[0])
    @p('isnan')
    def _isnan(I, st, args, kw):
        return mapn(I, st, isnan, args[0], dtype='B')

    @p('isfinite')
    def _isfinite(I, st, args, kw):
        return mapn(I, st, lambda x: not_(isnan(x)), args[0], dtype='B')

    def binary(name, op):
        def h(I, st, args, kw):
            return I.binop(st, op, args[0], args[1])
        p(name)(h)
    for n, o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
                 ('power', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('remainder', 'Mod')):
        binary(n, o)
    for n, o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'),
                 ('not_equal', 'NotEq')):
        def hh(I, st, args, kw, o=o):
            return I.compare(st, o, args[0], args[1])
        p(n)(hh)

    @p('maximum', 'fmax')
    def _maximum(I, st, args, kw):
        return mapn(I, st, lambda x, y: t_.maxf(tonum(x), tonum(y)), args[0], args[1])

    @p('minimum', 'fmin')
    def _minimum(I, st, args, kw):
        return mapn(I, st, lambda x, y: t_.minf(tonum(x), tonum(y)), args[0], args[1])

    @p('clip')
    def _clip(I, st, args, kw):
        r = args[0]
        lo = args[1] if len(args) > 1 else kw.get('a_min')
        hi = args[2] if len(args) > 2 else kw.get('a_max')
        if lo is not None:
            r = NP['maximum'](I, st, [r, lo], {})
        if hi is not None:
            r = NP['minimum'](I, st, [r, hi], {})
        return r

    @p('logical_and')
    def _land(I, st, args, kw):
        return mapn(I, st, lambda x, y: and_(boolt(x), boolt(y)), args[0], args[1], dtype='B')

    @p('logical_or')
    def _lor(I, st, args, kw):
        return mapn(I, st, lambda x, y: or_(boolt(x), boolt(y)), args[0], args[1], dtype='B')

    @p('logical_not')
    def _lnot(I, st, args, kw):
        return mapn(I, st, lambda x: not_(boolt(x)), args[0], dtype='B')

    @p('where')
    def _where(I, st, args, kw):
        if len(args) == 1:
            return NP['nonzero'](I, st, args, kw)
        return mapn(I, st, lambda c, x, y: ite_val(boolt(c), x, y), *args)

    @p('select')
    def _select(I, st, args, kw):
        conds = I.to_pylist(st, args[0])
        vals = I.to_pylist(st, args[1])
        d = args[2] if len(args) > 2 else kw.get('default', ZERO)
        r = d
        for c, v in reversed(list(zip(conds, vals))):
            r = NP['where'](I, st, [c, v, r], {})
        return r

    @p('nonzero')
    def _nonzero(I, st, args, kw):
        v = args[0]
        if isinstance(v, (T, C)):
            raise Unsupported('nonzero of scalar')
        if isinstance(v, (PList, tuple)):
            v = as_array(I, st, v)
        f = st.arr_fn(v)
        if len(v.shape) != 1:
            raise Unsupported('nonzero nd')
        return (IdxSet(v.shape, lambda ix: boolt(f(ix))),)

    @p('flatnonzero')
    def _fnz(I, st, args, kw):
        return _nonzero(I, st, args, kw)[0]

    def shape_arg(I, st, s):
        if isinstance(s, T):
            return (s,)
        if isinstance(s, tuple):
            return tuple(x for x in s)
        if isinstance(s, PList):
            return tuple(st.heap[s.loc])
        raise Unsupported('shape %r' % (s,))

    def dt(kw, args=None, default='R'):
        d = kw.get('dtype')
        if d is None and args is not None and len(args) > 1:
            d = args[1]
        if d is None:
            return default
        n = getattr(d, 'name', d)
        n = str(n)
        if 'int' in n:
            return 'I'
        if 'bool' in n:
            return 'B'
        if 'complex' in n:
            return 'C'
        return 'R'

    def filled(v):
        def h(I, st, args, kw):
            sh = shape_arg(I, st, args[0] if args else kw['shape'])
            d = dt(kw, args)
            if not sh:
                return v
            return st.new_arr(sh, lambda ix: (v if d != 'B' else (TRUE if v is ONE else FALSE)), d)
        return h
    p('zeros', 'empty')(filled(ZERO))
    p('ones')(filled(ONE))

    @p('full')
    def _full(I, st, args, kw):
        sh = shape_arg(I, st, args[0])
        v = args[1] if len(args) > 1 else kw['fill_value']
        return st.new_arr(sh, lambda ix: v, dt(kw, None, dtype_of(v)))

    def likes(v):
        def h(I, st, args, kw):
            a = args[0]
            if isinstance(a, (T, C)):
                return v
            a = as_array(I, st, a)
            return st.new_arr(a.shape, lambda ix: v, dt(kw, None, a.dtype))
        return h
    p('zeros_like', 'empty_like')(likes(ZERO))
    p('ones_like')(likes(ONE))

    @p('full_like')
    def _full_like(I, st, args, kw):
        a = as_array(I, st, args[0])
        v = args[1]
        return st.new_arr(a.shape, lambda ix: v, dt(kw, None, a.dtype))

    @p('array')
    def _array(I, st, args, kw):
        r = as_array(I, st, args[0], copy=True)
        if isinstance(r, Arr) and ('dtype' in kw or len(args) > 1):
            return NP['astype'](I, st, [r, kw.get('dtype', args[1] if len(args) > 1 else None)], {})
        return r

    @p('asarray', 'asanyarray', 'ascontiguousarray')
    def _asarray(I, st, args, kw):
        return as_array(I, st, args[0])

    @p('atleast_1d')
    def _atl(I, st, args, kw):
        v = args[0]
        if isinstance(v, (T, C)):
            return st.new_arr((ONE,), lambda ix: v, dtype_of(v))
        return as_array(I, st, v)

    @p('copy')
    def _copy(I, st, args, kw):
        v = args[0]
        if isinstance(v, (T, C)):
            return v
        return as_array(I, st, v, copy=True)

    @p('astype')
    def _astype(I, st, args, kw):
        d = dt({'dtype': args[1]})
        return mapn(I, st, lambda x: (t_.truncf(tonum(x)) if d == 'I' else boolt(x) if d == 'B' else tonum(x)), args[0], dtype=d)

    for n in ('float64', 'float32', 'float_', 'double'):
        p(n)(lambda I, st, args, kw: mapn(I, st, tonum, args[0]))
    for n in ('int64', 'int32', 'int_'):
        p(n)(lambda I, st, args, kw: mapn(I, st, lambda x: t_.truncf(tonum(x)), args[0]))

    @p('append')
    def _append(I, st, args, kw):
        return concat(I, st, [args[0], args[1]])

    @p('concatenate', 'hstack')
    def _concat(I, st, args, kw):
        return concat(I, st, I.to_pylist(st, args[0]))

    @p('insert')
    def _insert(I, st, args, kw):
        a = as_array(I, st, args[0])
        pos = args[1]
        if len(a.shape) != 1 or not isinstance(pos, T):
            raise Unsupported('np.insert')
        f = st.arr_fn(a)
        v = args[2]
        n = a.shape[0]

        def g(ix):
            i = ix[0]
            return ite_val(t_.lt(i, pos), f((i,)), ite_val(t_.eq(i, pos), v, f((t_.sub(i, ONE),)))) if t_.lt(i, pos) is not FALSE else \
                (v if t_.eq(i, pos) is TRUE else f((t_.sub(i, ONE),)) if t_.eq(i, pos) is FALSE
                 else ite_val(t_.eq(i, pos), v, f((t_.sub(i, ONE),))))
        return st.new_arr((t_.add(n, ONE),), g, a.dtype)

    @p('arange')
    def _arange(I, st, args, kw):
        if len(args) == 1:
            a, b, s = ZERO, args[0], ONE
        else:
            a, b = args[0], args[1]
            s = args[2] if len(args) > 2 else ONE
        n = t_.neg(t_.floorf(t_.neg(t_.div(t_.sub(b, a), s))))
        if I.decide(st, t_.le0(t_.neg(n))) is not True:
            n = t_.clamp0(n)
        srt = 'I' if a.sort == 'I' and s.sort == 'I' else 'R'
        return st.new_arr((n,), lambda ix: t_.add(a, t_.mul(s, ix[0])), srt)

    @p('linspace')
    def _linspace(I, st, args, kw):
        a, b = args[0], args[1]
        n = args[2] if len(args) > 2 else kw.get('num', num(50))
        return st.new_arr((n,), lambda ix: t_.add(a, t_.div(t_.mul(t_.sub(b, a), ix[0]), t_.sub(n, ONE))), 'R')

    @p('repeat')
    def _repeat(I, st, args, kw):
        if any(isinstance(x, PList) and isinstance(st.heap[x.loc], seqlib.Picked) for x in args):
            if kw or len(args) != 2:
                raise Unsupported('repeat')
            return seqlib.repeat(I, st, *args)
        v, n = args[0], args[1]
        if isinstance(v, (T, C)):
            return st.new_arr((t_.clamp0(n),), lambda ix: v, dtype_of(v))
        if isinstance(n, T):
            a = as_array(I, st, v)
            if len(a.shape) == 1:
                f = st.arr_fn(a)
                if a.shape[0] is ONE:
                    return st.new_arr((t_.clamp0(n),), lambda ix: f((ZERO,)), a.dtype)
                return st.new_arr((t_.mul(a.shape[0], n),), lambda ix: f((t_.floorf(t_.div(ix[0], n)),)), a.dtype)
        raise Unsupported('np.repeat')

    @p('stack')
    def _stack(I, st, args, kw):
        items = [as_array(I, st, x) for x in I.to_pylist(st, args[0])]
        ax = kw.get('axis', args[1] if len(args) > 1 else ZERO)
        if not items or not (isinstance(ax, T) and ax.op == 'num'):
            raise Unsupported('np.stack')
        rank = len(items[0].shape)
        ax = int(ax.args[0])
        ax = ax + rank + 1 if ax < 0 else ax
        for x in items[1:]:
            if len(x.shape) != rank:
                raise PyRaise(Exc(ExtCls('ValueError')))
            for m, n in zip(items[0].shape, x.shape):
                if m is not n and not I.branch(st, t_.eq(m, n)):
                    raise PyRaise(Exc(ExtCls('ValueError')))
        fs = [st.arr_fn(x) for x in items]

        def at(ix):
            k, rest = ix[ax], ix[:ax] + ix[ax + 1:]
            if k.op == 'num':
                return fs[int(k.args[0])](rest)
            r = fs[-1](rest)
            for q in range(len(fs) - 2, -1, -1):
                r = t_.ite(t_.eq(k, num(q)), fs[q](rest), r)
            return r
        sh = items[0].shape
        return st.new_arr(sh[:ax] + (num(len(fs)),) + sh[ax:], at, items[0].dtype)

    @p('tile')
    def _tile(I, st, args, kw):
        v, n = args[0], args[1]
        if isinstance(v, (T, C)) and isinstance(n, T):
            return st.new_arr((t_.clamp0(n),), lambda ix: v, dtype_of(v))
        a = as_array(I, st, v)
        f = st.arr_fn(a)
        if isinstance(n, tuple) and len(n) == 2 and len(a.shape) == 1 and n[1] is ONE:
            return st.new_arr((n[0], a.shape[0]), lambda ix: f((ix[1],)), a.dtype)
        if isinstance(n, T) and len(a.shape) == 1:
            m = a.shape[0]
            return st.new_arr((t_.mul(m, n),), lambda ix: f((t_.sub(ix[0], t_.mul(m, t_.floorf(t_.div(ix[0], m)))),)), a.dtype)
        raise Unsupported('np.tile')

    def flip_ax(ax):
        def h(I, st, args, kw):
            a = as_array(I, st, args[0])
            k = ax
            if k is None:
                k = kw.get('axis', args[1] if len(args) > 1 else None)
                if k is None:
                    idx = tuple(Slice(None, None, num(-1)) for _ in a.shape)
                    return get_arr(I, st, a, idx)
                k = int(k.args[0])
            if k < 0:
                k += len(a.shape)
            idx = tuple(Slice(None, None, num(-1) if q == k else None) for q in range(len(a.shape)))
            return get_arr(I, st, a, idx)
        return h
    p('flip')(flip_ax(None))
    p('fliplr')(flip_ax(1))
    p('flipud')(flip_ax(0))

    @p('dot', 'matmul')
    def _dot(I, st, args, kw):
        a, b = args[0], args[1]
        if isinstance(a, (T, C)) or isinstance(b, (T, C)):
            return I.binop(st, 'Mult', a, b)
        a, b = as_array(I, st, a), as_array(I, st, b)
        if len(a.shape) == 1 and len(b.shape) == 1:
            I.check_dims(st, a.shape, b.shape)
            f, g = st.arr_fn(a), st.arr_fn(b)
            return mk_sum(a.shape[0], lambda k: cmul(f((k,)), g((k,))))
        raise Unsupported('np.dot nd')

    def red(name, f):
        def h(I, st, args, kw):
            ax = kw.get('axis', args[1] if len(args) > 1 else None)
            v = args[0]
            if isinstance(v, (PList, tuple)):
                v = as_array(I, st, v)
            return axis_reduce(I, st, v, ax, f)
        p(name)(h)
        ARR_METHODS[name] = h
    red('sum', mk_sum)
    red('mean', lambda n, g: t_.div(mk_sum(n, g), n))
    red('amin', mk_ext('amin'))
    red('amax', mk_ext('amax'))
    red('min', mk_ext('amin'))
    red('max', mk_ext('amax'))
    red('argmin', mk_ext('argmin'))
    red('argmax', mk_ext('argmax'))

    def end_of(name):
        """argmin/argmax of an array whose extreme is provably its first or last element"""
        gen = NP[name]

        def h(I, st, args, kw):
            v = args[0]
            if isinstance(v, Arr) and len(v.shape) == 1 and v.shape[0].op != 'num' and v.dtype in ('R', 'I') and len(args) == 1 and not kw:
                f, n = st.arr_fn(v), v.shape[0]
                lt_ = t_.lt if name == 'argmin' else (lambda x, y: t_.lt(y, x))
                e = t_.sub(n, ONE)
                if I.decide(st, t_.le0(n)) is False:
                    x = f((ZERO,))
                    if forall(I, st, ZERO, n, lambda i: not_(lt_(f((i,)), x))):
                        return ZERO
                    y = f((e,))
                    if forall(I, st, ZERO, e, lambda i: lt_(y, f((i,)))):
                        return e
                    r = gen(I, st, args, kw) if callable(gen) else gen.fn(I, st, args, kw)
                    if isinstance(r, T):
                        st.assume(t_.le(ZERO, r))
                        st.assume(t_.lt(r, n))
                    return r
            return gen(I, st, args, kw) if callable(gen) else gen.fn(I, st, args, kw)
        p(name)(h)
        ARR_METHODS[name] = h
    end_of('argmin')
    end_of('argmax')
    red('any', mk_any)
    red('all', mk_all)
    red('prod', lambda n, g: (lambda k: t_.bprod(n, k, tonum(g(k))))(t_.fresh('k', 'I')))
    NP['nanmin'] = NP['min']

    @p('count_nonzero')
    def _cnz(I, st, args, kw):
        return reduce1(I, st, args[0], lambda n, g: mk_sum(n, lambda k: t_.ite(boolt(g(k)), ONE, ZERO)))

    @p('cumsum')
    def _cumsum(I, st, args, kw):
        a = as_array(I, st, args[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else None)
        f = st.arr_fn(a)
        if len(a.shape) == 1:
            def g(ix):
                return mk_sum(t_.add(ix[0], ONE), lambda k: f((k,)))
            return st.new_arr(a.shape, g, a.dtype)
        if ax is None:
            raise Unsupported('cumsum nd')
        q = int(ax.args[0])
        if q < 0:
            q += len(a.shape)

        def g(ix):
            return mk_sum(t_.add(ix[q], ONE), lambda k: f(tuple(ix[:q]) + (k,) + tuple(ix[q + 1:])))
        return st.new_arr(a.shape, g, a.dtype)

    @p('diff', 'ediff1d')
    def _diff(I, st, args, kw):
        a = as_array(I, st, args[0])
        f = st.arr_fn(a)
        if len(a.shape) != 1 or len(args) > 1 or kw:
            raise Unsupported('diff')
        n = t_.sub(a.shape[0], ONE)
        if I.decide(st, t_.le0(t_.neg(n))) is not True:
            n = t_.clamp0(n)
        return st.new_arr((n,), lambda ix: t_.sub(f((t_.add(ix[0], ONE),)), f((ix[0],))), a.dtype)

    @p('trapz', 'trapezoid')
    def _trapz(I, st, args, kw):
        y = as_array(I, st, args[0])
        x = kw.get('x', args[1] if len(args) > 1 else None)
        fy = st.arr_fn(y)
        n = t_.sub(y.shape[0], ONE)
        if x is None:
            return mk_sum(n, lambda k: t_.scale(Q(1, 2), t_.add(fy((k,)), fy((t_.add(k, ONE),)))))
        x = as_array(I, st, x)
        fx = st.arr_fn(x)
        return mk_sum(n, lambda k: t_.mul(t_.sub(fx((t_.add(k, ONE),)), fx((k,))),
                                          t_.scale(Q(1, 2), t_.add(fy((k,)), fy((t_.add(k, ONE),))))))

    @p('interp')
    def _interp(I, st, args, kw):
        xp = as_array(I, st, args[1])
        fp = as_array(I, st, args[2])
        fx, ff = st.arr_fn(xp), st.arr_fn(fp)
        lx = mk_lam(xp.shape[0], lambda k: fx((k,)))
        lf = mk_lam(fp.shape[0], lambda k: ff((k,)))
        return mapn(I, st, lambda x: t_.app('interp', tonum(x), lx, lf), args[0])

    @p('column_stack')
    def _cstack(I, st, args, kw):
        parts = [as_array(I, st, x) for x in I.to_pylist(st, args[0])]
        if not all(len(x.shape) == 1 for x in parts):
            raise Unsupported('column_stack nd')
        fs = [st.arr_fn(x) for x in parts]
        for x in parts[1:]:
            I.check_dims(st, x.shape, parts[0].shape)

        def g(ix):
            j = ix[1]
            if j.op == 'num':
                return fs[int(j.args[0])]((ix[0],))
            r = fs[-1]((ix[0],))
            for k in range(len(fs) - 2, -1, -1):
                r = ite_val(t_.eq(j, num(k)), fs[k]((ix[0],)), r)
            return r
        return st.new_arr((parts[0].shape[0], num(len(parts))), g, 'R')

    @p('isclose')
    def _isclose(I, st, args, kw):
        rt = kw.get('rtol', args[2] if len(args) > 2 else num(1e-05))
        at = kw.get('atol', args[3] if len(args) > 3 else num(1e-08))
        return mapn(I, st, lambda x, y: t_.le(t_.absf(t_.sub(x, y)), t_.add(at, t_.mul(rt, t_.absf(y)))), args[0], args[1])

    @p('array_equal')
    def _aeq(I, st, args, kw):
        return reduce1(I, st, I.compare(st, 'Eq', args[0], args[1]), mk_all)

    @p('size')
    def _size(I, st, args, kw):
        return I.attr_prim(st, args[0], 'size')

    @p('shape')
    def _shape(I, st, args, kw):
        return I.attr_prim(st, args[0], 'shape')

    @p('ndim')
    def _ndim(I, st, args, kw):
        return I.attr_prim(st, as_array(I, st, args[0]), 'ndim')

    @p('squeeze')
    def _squeeze(I, st, args, kw):
        a = args[0]
        if isinstance(a, (T, C)):
            return a
        keep = [i for i, d in enumerate(a.shape) if d is not ONE]
        f = st.arr_fn(a)
        if not keep:
            return f((ZERO,) * len(a.shape))

        def g(ix):
            full = [ZERO] * len(a.shape)
            for q, i in zip(keep, ix):
                full[q] = i
            return f(tuple(full))
        return st.new_arr([a.shape[i] for i in keep], g, a.dtype)

    @p('ravel')
    def _ravel(I, st, args, kw):
        a = as_array(I, st, args[0])
        if len(a.shape) == 1:
            return a
        raise Unsupported('ravel nd')

    @p('reshape')
    def _reshape(I, st, args, kw):
        a = args[0]
        sh = args[1:]
        if len(sh) == 1 and isinstance(sh[0], (tuple, PList)):
            sh = shape_arg(I, st, sh[0])
        sh = list(sh)
        if isinstance(a, T):
            return st.new_arr(tuple(ONE for _ in sh), lambda ix: a, dtype_of(a))
        if len(sh) == 1:
            n = sh[0]
            if len(a.shape) == 1:
                if n.op == 'num' and n.args[0] < 0:
                    return a
                d = I.decide(st, t_.eq(n, a.shape[0]))
                if d is False:
                    raise PyRaise(Exc(ExtCls('ValueError')))
                if d is None:
                    if not I.choose(st, [(t_.eq(n, a.shape[0]), True), (not_(t_.eq(n, a.shape[0])), False)]):
                        raise PyRaise(Exc(ExtCls('ValueError')))
                return a
        if len(sh) == 2 and len(a.shape) == 1:
            f = st.arr_fn(a)
            if sh[1] is ONE:
                return st.new_arr((a.shape[0], ONE), lambda ix: f((ix[0],)), a.dtype)
            if sh[0] is ONE:
                return st.new_arr((ONE, a.shape[0]), lambda ix: f((ix[1],)), a.dtype)
        raise Unsupported('reshape')

    @p('transpose')
    def _transpose(I, st, args, kw):
        return I.attr_prim(st, args[0], 'T')

    @p('errstate')
    def _errstate(I, st, args, kw):
        return Opq('errstate')

    @p('polyval')
    def _polyval(I, st, args, kw):
        cs = I.to_pylist(st, args[0])
        r = ZERO
        for c in cs:
            r = I.binop(st, 'Add', I.binop(st, 'Mult', r, args[1]), c)
        return r

    def np_polyval(I, st, args, kw):
        if len(args) != 2 or kw:
            raise Unsupported('numpy.polynomial polyval options')
        return NP['polyval'](I, st, [tuple(reversed(I.to_pylist(st, args[1]))), args[0]], {})
    ext['numpy.polynomial.polynomial.polyval'] = Prim('polynomial.polyval', np_polyval)

    for n in ('copy', 'astype', 'reshape', 'squeeze', 'ravel', 'cumsum', 'clip', 'repeat', 'dot', 'transpose', 'nonzero'):
        ARR_METHODS[n] = NP[n]
    ARR_METHODS['flatten'] = lambda I, st, args, kw: NP['copy'](I, st, [NP['ravel'](I, st, args, kw)], {})
    ARR_METHODS['conj'] = NP['conj']
    ARR_METHODS['tolist'] = lambda I, st, args, kw: st.new_arr(args[0].shape, st.arr_fn(args[0]), args[0].dtype, islist=True)
    ARR_METHODS['item'] = lambda I, st, args, kw: st.arr_at(args[0], (ZERO,) * len(args[0].shape))

    def fill(I, st, args, kw):
        v = args[1]
        I.store_view(st, args[0], lambda ix: v)
    ARR_METHODS['fill'] = fill
    ext['numpy.ndarray'] = ExtCls('ndarray')
    ext['numpy.generic'] = ExtCls('generic')
    ext['numpy.integer'] = ExtCls('int')
    ext['numpy.floating'] = ExtCls('float')
    ext['numpy.number'] = ExtCls('Number')
    ext['numpy.pi'] = t_.PI
    ext['numpy.e'] = t_.exp(ONE)
    ext['numpy.nan'] = t_.NAN
    ext['numpy.NaN'] = t_.NAN
    ext['numpy.inf'] = t_.INF
    ext['numpy.newaxis'] = None
    ext['math.pi'] = t_.PI
    for n in ('exp', 'log', 'log10', 'sqrt', 'sin', 'cos', 'tan', 'fabs', 'floor', 'radians', 'cosh', 'sinh', 'tanh', 'expm1', 'log1p'):
        ext['math.' + n] = ext['numpy.' + n]
    ext['math.asin'] = ext['numpy.arcsin']
    ext['math.acos'] = ext['numpy.arccos']
    ext['math.atan'] = ext['numpy.arctan']
    ext['math.pow'] = ext['numpy.power']
    ext['math.e'] = ext['numpy.e']
    ext['math.isnan'] = ext['numpy.isnan']
    for n in ('Tuple', 'Optional', 'Union', 'List', 'Dict', 'Any', 'Callable'):
        ext['typing.' + n] = ExtCls('typing.' + n)
    ext['warnings.warn'] = Prim('warn', lambda I, st, a, k: None)
    # log records are not observable behaviour of any property
    for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'addHandler', 'setLevel'):
        ext['logging.' + n] = Prim('logging.' + n, lambda I, st, a, k: None)
    ext['logging.NullHandler'] = Prim('NullHandler', lambda I, st, a, k: Opq('handler'))
    for n in ('DEBUG', 'INFO', 'WARNING', 'ERROR'):
        ext['logging.' + n] = n
    ext['logging.getLogger'] = Prim('getLogger', lambda I, st, a, k: ModV('logging'))
    ext['warnings.filterwarnings'] = Prim('fw', lambda I, st, a, k: None)
    ext['types.MethodType'] = ExtCls('MethodType')
    ext['types.ModuleType'] = ExtCls('ModuleType')
    ext['types.SimpleNamespace'] = Prim('SimpleNamespace', lambda I, st, a, k: Obj(st.alloc(dict(k)), ExtCls('namespace')))
    ext['os.path'] = ModV('os.path')

    def deepcopy(I, st, args, kw):
        memo = {}

        def dc(v):
            if isinstance(v, Arr):
                if v.loc in memo:
                    return memo[v.loc]
                r = st.new_arr(v.shape, st.arr_fn(v), v.dtype, v.islist)
                memo[v.loc] = r
                return r
            if isinstance(v, (PList, PDict, Obj)):
                if v.loc in memo:
                    return memo[v.loc]
                nl = st.alloc(None)
                r = PList(nl) if isinstance(v, PList) else PDict(nl) if isinstance(v, PDict) else Obj(nl, v.cls)
                memo[v.loc] = r
                h = st.heap[v.loc]
                st.heap[nl] = [dc(x) for x in h] if isinstance(h, list) else {k: dc(x) for k, x in h.items()}
                return r
            if isinstance(v, tuple):
                return tuple(dc(x) for x in v)
            return v
        return dc(args[0])
    ext['copy.deepcopy'] = Prim('deepcopy', deepcopy)

    def shallow(I, st, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return st.new_arr(v.shape, st.arr_fn(v), v.dtype, v.islist)
        if isinstance(v, PList):
            return PList(st.alloc(list(st.heap[v.loc])))
        if isinstance(v, PDict):
            return PDict(st.alloc(dict(st.heap[v.loc])))
        if isinstance(v, Obj):
            return Obj(st.alloc(dict(st.heap[v.loc])), v.cls)
        return v
    ext['copy.copy'] = Prim('copy', shallow)
