"""Data frames: modelled contracts of the few pandas operations the code uses."""
import datetime
from . import terms as t_
from .terms import T, ZERO, ONE, num
from .values import *
from . import nplib
from .loops import SymList, df_subst


def add_column(I, st, d, name, v):
    """a new column: every name of the frame denotes the extended frame"""
    s = scalar(v)
    if s is not None or isinstance(v, (C, str)) or v is None:
        f = lambda p, q: v if s is None else s
    else:
        a = nplib.as_array(I, st, v)
        if len(a.shape) != 1:
            raise PyRaise(Exc(ExtCls('ValueError')))
        if I.decide(st, t_.eq(d.rows, a.shape[0])) is not True:
            I.oblige(st, t_.eq(d.rows, a.shape[0]), 'columns of equal length')
        g = st.arr_fn(a)
        f = lambda p, q: g((q,))
    r = DF(dict(d.cols, **{name: f}), d.nblocks, d.rows, attrs=d.attrs)
    st.env = {k: r if x is d else x for k, x in st.env.items()}


def frame_of(I, st, data):
    cols = {}
    rows = None
    scal = {}
    for k, v in data.items():
        s = scalar(v)
        if s is not None or isinstance(v, (C, str)) or v is None:
            scal[k] = v
            cols[k] = None
            continue
        a = nplib.as_array(I, st, v)
        if len(a.shape) != 1:
            raise PyRaise(Exc(ExtCls('ValueError')))
        if rows is None:
            rows = a.shape[0]
        elif rows is not a.shape[0] and I.decide(st, t_.eq(rows, a.shape[0])) is not True:
            I.oblige(st, t_.eq(rows, a.shape[0]), 'columns of equal length')
        f = st.arr_fn(a)
        cols[k] = (lambda f: lambda p, q: f((q,)))(f)
    for k, v in scal.items():
        if rows is None:
            raise PyRaise(Exc(ExtCls('ValueError')))
        cols[k] = (lambda v: lambda p, q: v)(v if scalar(v) is None else scalar(v))
    return DF(cols, ONE if cols else ZERO, rows if rows is not None else ZERO, attrs=st.alloc({}))


def concat2(a, b):
    if not a.cols:
        if isinstance(a, DF) and a.base is None and a.nblocks is ZERO:
            return b
    raise Unsupported('data frame concatenation')


def install(I):
    ext = I.ext

    def df(I, st, args, kw):
        data = args[0] if args else kw.get('data')
        for k in kw:
            if k not in ('data',):
                raise Unsupported('DataFrame(%s=...)' % k)
        if data is None:
            return DF({}, ZERO, ZERO)
        if isinstance(data, PDict):
            return frame_of(I, st, st.heap[data.loc])
        raise Unsupported('DataFrame of %r' % (data,))
    ext['pandas.DataFrame'] = Prim('pandas.DataFrame', df)

    def to_datetime(I, st, args, kw):
        if len(args) != 1 or not all(isinstance(v, str) for v in kw.values()):
            raise Unsupported('to_datetime')
        a = nplib.as_array(I, st, args[0])
        if 'origin' in kw:      # one spelling of the same instant
            try:
                kw = dict(kw, origin=datetime.datetime.fromisoformat(kw['origin'].rstrip('0').rstrip('.') if '.' in kw['origin'] else kw['origin']).isoformat())
            except ValueError:
                pass
        f, name = st.arr_fn(a), 'to_datetime ' + ' '.join('%s=%s' % x for x in sorted(kw.items()))
        return st.new_arr(a.shape, lambda ix: t_.app(name, f(ix)))
    ext['pandas.to_datetime'] = Prim('pandas.to_datetime', to_datetime)

    def concat(I, st, args, kw):
        for k, v in kw.items():
            if k == 'axis' and scalar(v) is not None and scalar(v) is ZERO:
                continue
            if k in ('copy', 'sort'):
                continue
            raise Unsupported('concat(%s=...)' % k)
        objs = args[0]
        if isinstance(objs, PList) and isinstance(st.heap[objs.loc], SymList):
            h = st.heap[objs.loc]
            k = t_.fresh('k', 'I')
            d = h.item(k)
            if not isinstance(d, DF) or d.nblocks is not ONE or d.base is not None or k in t_.fvs(d.rows):
                raise Unsupported('concatenation of %r' % (d,))

            def col(name):
                def f(p, q):
                    x = d.cols[name](ZERO, q)
                    if isinstance(x, C):
                        return C(t_.subst(x.re, {k: p}), t_.subst(x.im, {k: p}))
                    return t_.subst(x, {k: p})
                return f
            return DF({c: col(c) for c in d.cols}, h.n, d.rows)
        items = I.to_pylist(st, objs)
        if not items or not all(isinstance(x, DF) for x in items):
            raise Unsupported('concatenation')
        r = items[0]
        for x in items[1:]:
            if r.base is None and r.added is None and (r.nblocks is ZERO or not r.cols) and not is_loop_base(r):
                r = x
            elif is_loop_base(r):
                r = DF(r.cols, t_.add(r.nblocks, x.nblocks), r.rows, base=r, added=x)
            else:
                raise Unsupported('data frame concatenation')
        return r
    ext['pandas.concat'] = Prim('pandas.concat', concat)


def is_loop_base(d):
    return isinstance(d.nblocks, T) and d.nblocks.op == 'var' and d.nblocks.args[0].startswith('nb')
