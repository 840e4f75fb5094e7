"""One data frame with missing values and dropped rows (pandas.DataFrame / read_fwf / BeautifulSoup pages): modelled contracts.

The record of a frame: column -> closure over the row, number of rows before any was dropped, the rows kept, whether the rows
were renumbered since, and the attribute dictionary.  Records are immutable; in-place operations replace them in the heap."""
import ast
import string
from . import terms as t_
from .terms import T, TRUE, FALSE, ZERO, ONE, num, and_, or_, not_
from .values import *
from . import nplib
from . import textlib


class FRec:
    __slots__ = ('cols', 'rows', 'keep', 'fresh', 'attrs')

    def __init__(self, cols, rows, keep=None, fresh=True, attrs=None):
        self.cols, self.rows, self.keep, self.fresh, self.attrs = cols, rows, keep, fresh, attrs

    def but(self, **k):
        d = {n: getattr(self, n) for n in self.__slots__}
        d.update(k)
        return FRec(**d)


def new(st, cols, rows, keep=None, fresh=True, attrs=None):
    return PFrame(st.alloc(FRec(dict(cols), rows, keep, fresh, attrs if attrs is not None else st.alloc({}))))


def rec(st, o):
    return st.heap[o.loc]


def dup(st, r, **k):
    """a new frame; the attribute dictionary is copied"""
    return PFrame(st.alloc(r.but(attrs=st.alloc(dict(st.heap[r.attrs])), **k)))


def pick(r, k):
    if k not in r.cols:
        raise PyRaise(Exc(ExtCls('KeyError')))
    return r.cols[k]


def column(I, st, o, k):
    r = rec(st, o)
    f = pick(r, k)
    if r.keep is None:
        return st.new_arr((r.rows,), lambda ix: f(ix[0]))
    return Masked((r.rows,), maskof(r), lambda ix: f(ix[0]))


_MASKS = {}


def maskof(r):
    """one mask object per selection, so that columns of one frame go together"""
    key = id(r.keep)
    if key not in _MASKS:
        _MASKS[key] = (r.keep, lambda ix, keep=r.keep: keep(ix[0]))
    return _MASKS[key][1]


def setcol(I, st, o, k, v):
    r = rec(st, o)
    if not isinstance(k, str):
        raise Unsupported('column of a frame')
    if isinstance(v, Masked):
        if r.keep is None or v.mask is not maskof(r):
            raise Unsupported('column of another selection')
        f = lambda q: v.fn((q,))
    elif isinstance(v, (Arr, PList, tuple)):
        a = nplib.as_array(I, st, v)
        if r.keep is not None or len(a.shape) != 1:
            raise Unsupported('column of another length')
        if a.shape[0] is not r.rows:
            I.oblige(st, t_.eq(a.shape[0], r.rows), 'column as long as the frame')
        g = st.arr_fn(a)
        f = lambda q: g((q,))
    elif scalar(v) is not None:
        s = scalar(v)
        f = lambda q: s
    elif v is None or isinstance(v, (str, SText, Opq)):
        f = lambda q: v
    else:
        raise Unsupported('column of %r' % (v,))
    st.heap[o.loc] = r.but(cols={**r.cols, k: f})


def names(I, st, v):
    if isinstance(v, str):
        return [v]
    if isinstance(v, (PList, tuple)):
        l = list(st.heap[v.loc]) if isinstance(v, PList) else list(v)
        if all(isinstance(x, str) for x in l):
            return l
    raise Unsupported('column names')


def isfalse(v):
    return v in (None, False) or v is FALSE


def istrue(v):
    return v is True or v is TRUE


def both(r, cond):
    if r.keep is None:
        return cond
    return lambda q, a=r.keep: and_(a(q), cond(q))


def rows_axis(kw, name='axis'):
    a = kw.get(name, ZERO)
    if a == 'index' or scalar(a) is ZERO:
        return True
    if a == 'columns' or scalar(a) is ONE:
        return False
    raise Unsupported('axis')


def attr(I, st, o, name):
    r = rec(st, o)
    if name == 'attrs':
        return PDict(r.attrs)
    if name == 'columns':
        return PList(st.alloc(list(r.cols)))
    if name == 'shape' and r.keep is None:
        return (r.rows, num(len(r.cols)))
    if name == 'loc':
        return Loc(o)

    def known(kw, *ok):
        for k in kw:
            if k not in ok:
                raise Unsupported('DataFrame.%s(%s=...)' % (name, k))

    def result(st, kw, r2, **k):
        if istrue(kw.get('inplace', False)):
            st.heap[o.loc] = r2
            return None
        if not isfalse(kw.get('inplace', False)):
            raise Unsupported('inplace')
        return dup(st, r2)

    def dropna(I, st, args, kw):
        known(kw, 'subset', 'how', 'axis', 'inplace')
        if args or not rows_axis(kw):
            raise Unsupported('dropna of columns')
        how = kw.get('how', 'any')
        sub = kw.get('subset')
        fs = [pick(r, k) for k in (r.cols if sub is None else names(I, st, sub))]
        if how not in ('any', 'all'):
            raise PyRaise(Exc(ExtCls('ValueError')))

        def cond(q):
            ms = [not_(isna(f(q))) for f in fs]
            return and_(*ms) if how == 'any' else or_(*ms)
        return result(st, kw, r.but(keep=both(r, cond), fresh=False))

    def reset(I, st, args, kw):
        known(kw, 'drop', 'inplace')
        if args or not istrue(kw.get('drop', False)):
            raise Unsupported('reset_index into a column')
        return result(st, kw, r.but(fresh=True))

    def drop(I, st, args, kw):
        known(kw, 'labels', 'axis', 'columns', 'inplace')
        if 'columns' in kw:
            gone = names(I, st, kw['columns'])
        else:
            if rows_axis(kw) if len(args) < 2 else rows_axis({'axis': args[1]}):
                raise Unsupported('drop of rows')
            gone = names(I, st, args[0] if args else kw['labels'])
        for k in gone:
            pick(r, k)
        return result(st, kw, r.but(cols={k: f for k, f in r.cols.items() if k not in gone}))

    def rename(I, st, args, kw):
        known(kw, 'columns', 'inplace')
        m = kw.get('columns')
        if args or not isinstance(m, PDict):
            raise Unsupported('rename')
        m = st.heap[m.loc]
        return result(st, kw, r.but(cols={m.get(k, k): f for k, f in r.cols.items()}))

    def assign(I, st, args, kw):
        d = dup(st, r)
        for k, v in kw.items():
            setcol(I, st, d, k, v)
        return d

    def pop(I, st, args, kw):
        v = column(I, st, o, args[0])
        st.heap[o.loc] = r.but(cols={k: f for k, f in r.cols.items() if k != args[0]})
        return v
    meth = {'dropna': dropna, 'reset_index': reset, 'drop': drop, 'rename': rename, 'assign': assign, 'pop': pop,
            'copy': lambda I, st, args, kw: dup(st, r)}
    if name in meth:
        return Prim('DataFrame.' + name, meth[name])
    if name in r.cols:
        return column(I, st, o, name)
    raise Unsupported('DataFrame.%s' % name)


class Loc:
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o


def isna(x):
    if x is None:
        return TRUE
    if isinstance(x, (str, SText, Opq)):
        return FALSE
    return nplib.isnan(x)


def choose(st, o, m):
    """rows where the Boolean column holds"""
    r = rec(st, o)
    if isinstance(m, Masked):
        if r.keep is None or m.mask is not maskof(r):
            raise Unsupported('selection by a column of another frame')
        f = m.fn
    elif isinstance(m, Arr) and m.dtype == 'B' and len(m.shape) == 1 and r.keep is None and m.shape[0] is r.rows:
        f = st.arr_fn(m)
    else:
        raise Unsupported('selection of rows')
    return dup(st, r, keep=both(r, lambda q: f((q,))), fresh=False)


def item(I, st, o, i):
    r = rec(st, o)
    if isinstance(i, str):
        return column(I, st, o, i)
    if isinstance(i, PList):
        ks = names(I, st, i)
        return dup(st, r, cols={k: pick(r, k) for k in ks})
    return choose(st, o, i)


def series_attr(I, st, v, name):
    """methods of a column (an array, or the selected elements of one)"""
    if name in ('isna', 'isnull', 'notna', 'notnull'):
        neg = name.startswith('not')
        return Prim(name, lambda I, st, a, k: nplib.mapn(I, st, (lambda x: not_(isna(x))) if neg else isna, v, dtype='B'))
    if name == 'round':
        return Prim(name, lambda I, st, a, k: I.call(st, I.ext['numpy.round'], [v] + list(a), k))
    if name in ('values',):
        return v
    if name in ('to_numpy', 'copy'):
        return Prim(name, lambda I, st, a, k: v)
    return None


# ------------------------------------------------------------------ pages
class Page:
    """a sounding page: a table of right-aligned seven-character columns, the station's lines, a title"""
    def __init__(self, frame, info, title):
        self.frame, self.info, self.title = frame, info, title


def install(I):
    ext = I.ext
    I.texts = {}
    ext['requests.Session'] = Prim('Session', lambda I, st, a, k: Obj(st.alloc({'headers': PDict(st.alloc({}))}), ExtCls('namespace')))
    ext['requests.sessions.Session'] = ext['requests.session'] = ext['requests.Session']
    ext['requests.HTTPError'] = ext['requests.exceptions.HTTPError'] = ExtCls('HTTPError')
    for name, code in (('ok', 200), ('created', 201), ('no_content', 204), ('not_found', 404)):
        ext['requests.codes.' + name] = ext['requests.status_codes.codes.' + name] = num(code)
        ext['requests.codes.' + name.upper()] = num(code)
    for name, code in (('OK', 200), ('CREATED', 201), ('NO_CONTENT', 204), ('NOT_FOUND', 404)):
        ext['http.HTTPStatus.' + name] = ext['http.client.' + name] = num(code)
    ext['io.StringIO'] = Prim('StringIO', lambda I, st, a, k: a[0])
    ext['bs4.BeautifulSoup'] = Prim('BeautifulSoup', soup)
    ext['pandas.read_fwf'] = Prim('read_fwf', read_fwf)
    ext['datetime.datetime'] = ExtCls('datetime')
    ext['ext:datetime.strptime'] = Prim('strptime', strptime)
    I.opq_attrs['page:'] = page_attr
    I.opq_attrs['soup:'] = soup_attr
    I.opq_attrs['tag:'] = tag_attr
    I.opq_attrs['date:'] = date_attr


def page(st, name):
    return st.heap[('page', name)]


def page_attr(I, st, o, name):
    if name in ('find', 'count', 'index', '__contains__'):
        def h(I, st, a, k):
            if not a or a[0] != "Can't":
                raise Unsupported('search in a page')
            if name == 'index':
                raise PyRaise(Exc(ExtCls('ValueError')))
            return num(-1) if name == 'find' else ZERO if name == 'count' else FALSE
        return Prim('str.' + name, h)
    raise Unsupported('str.%s of a page' % name)


def soup(I, st, args, kw):
    if isinstance(args[0], Opq) and args[0].name.startswith('page:'):
        return Opq('soup:' + args[0].name[5:])
    raise Unsupported('BeautifulSoup of %r' % (args[0],))


def soup_attr(I, st, o, name):
    p = o.name[5:]
    tags = {'pre': ['table', 'info'], 'h2': ['title'], 'title': ['head']}

    def get(t):
        return [Opq('tag:%s:%s' % (k, p)) for k in tags.get(t, [])] if t in ('pre', 'h2') else None

    def h(I, st, a, k):
        if k or len(a) != 1 or get(a[0]) is None:
            raise Unsupported('soup.%s' % name)
        l = get(a[0])
        return PList(st.alloc(l)) if name in ('find_all', 'select', 'findAll') else l[0]
    if name in ('find_all', 'findAll', 'select', 'find', 'select_one'):
        return Prim('soup.' + name, h)
    if get(name) is not None:
        return get(name)[0]
    raise Unsupported('soup.%s' % name)


def tag_attr(I, st, o, name):
    _, kind, p = o.name.split(':')
    pg = page(st, p)
    t = Opq('table:' + p) if kind == 'table' else pg.info if kind == 'info' else pg.title
    if name in ('contents', 'children'):
        return PList(st.alloc([t]))
    if name in ('text', 'string'):
        return t
    if name in ('get_text', 'getText'):
        return Prim(name, lambda I, st, a, k: t)
    raise Unsupported('tag.%s' % name)


def ints(I, st, v):
    """a concrete nested structure of integers / strings"""
    if isinstance(v, PList):
        return [ints(I, st, x) for x in st.heap[v.loc]]
    if isinstance(v, tuple):
        return tuple(ints(I, st, x) for x in v)
    if isinstance(v, T) and v.op == 'num':
        return int(v.args[0])
    if v is TRUE or v is FALSE:
        return v is TRUE
    if isinstance(v, str) or v is None:
        return v
    raise Unsupported('argument of read_fwf')


def read_fwf(I, st, args, kw):
    """the table of a page read by the documented columns: the number in each column, nan where it is blank"""
    src = args[0] if args else None
    if isinstance(src, Opq) and src.name.startswith('text:') and len(args) == 1:
        return read_text(I, st, src, kw)
    if not isinstance(src, Opq) or not src.name.startswith('table:') or len(args) > 1:
        raise Unsupported('read_fwf')
    k = {n: ints(I, st, v) for n, v in kw.items()}
    for n in k:
        if n not in ('colspecs', 'widths', 'names', 'skiprows', 'header', 'usecols'):
            raise Unsupported('read_fwf(%s=...)' % n)
    spec = k.get('colspecs')
    if spec is None and 'widths' in k:
        spec, at = [], 0
        for w in k['widths']:
            spec.append((at, at + w))
            at += w
    if spec is None or k.get('header') is not None or k.get('skiprows') != 5 or not isinstance(k.get('names'), list):
        raise Unsupported('read_fwf without its columns')
    nm = k['names']
    if 'usecols' in k:
        if len(nm) == len(k['usecols']) != len(spec):
            spec = [spec[j] for j in sorted(k['usecols'])]
        elif all(isinstance(x, int) for x in k['usecols']):
            spec, nm = [spec[j] for j in sorted(k['usecols'])], [nm[j] for j in sorted(k['usecols'])]
        else:
            spec, nm = [s for s, n in zip(spec, nm) if n in k['usecols']], [n for n in nm if n in k['usecols']]
    if len(nm) != len(spec):
        raise Unsupported('read_fwf names')
    r = rec(st, page(st, src.name[6:]).frame)
    cells = list(r.cols.values())
    cols = {}
    for n, s in zip(nm, spec):
        if tuple(s) != (s[0], s[0] + 7) or s[0] % 7 or s[0] // 7 >= len(cells):
            raise Unsupported('columns that cut the numbers of the page')
        cols[n] = cells[s[0] // 7]
    return new(st, cols, r.rows)


def identity(I, st, f):
    """a name for a converter: its source and the values it closes over"""
    if isinstance(f, Fn):
        free = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        c = {k: v for k, v in (f.closure or {}).items() if k in free}
        return '%s:%d(%s)' % (f.qual, f.node.lineno, ', '.join('%s=%s' % (k, identity(I, st, c[k])) for k in sorted(c)))
    if isinstance(f, (Prim, ExtCls)):
        return f.name
    if isinstance(f, T) and f.op == 'num':
        return str(f.args[0])
    if isinstance(f, str):
        return repr(f)
    if isinstance(f, ModV):
        return 'module ' + f.name
    raise Unsupported('converter %r' % (f,))


def read_text(I, st, src, kw):
    """the table of a fixed-width text: every cell a function of the text, its columns, its converter and the missing codes"""
    name, rows, key = I.texts[src.name]
    k = dict(kw)
    conv = k.pop('converters', None)
    conv = st.heap[conv.loc] if isinstance(conv, PDict) else {}
    k = {n: ints(I, st, v) for n, v in k.items()}
    if set(k) - {'names', 'colspecs', 'na_values', 'index_col', 'header'} or k.get('header') is not None or k.get('index_col', False) is not False:
        raise Unsupported('read_fwf of a text')
    na = ' '.join(sorted(k.get('na_values') or ()))
    if not isinstance(k.get('names'), list) or not isinstance(k.get('colspecs'), list) or len(k['names']) != len(k['colspecs']):
        raise Unsupported('read_fwf of a text without its columns')
    cols = {}
    for n, s in zip(k['names'], k['colspecs']):
        tag = '%s[%d:%d] by %s except %s' % (name, s[0], s[1], identity(I, st, conv[n]) if n in conv else 'text', na)
        cols[n] = lambda q, tag=tag: t_.ite(t_.lt(ZERO, t_.app(tag + ' missing', q, *key)), t_.NAN, t_.app(tag, q, *key))
    return new(st, cols, rows)


# ------------------------------------------------------------------ dates
FIELDS = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2}


def date_chars(o, f):
    if f not in FIELDS:
        raise Unsupported('date format %' + f)
    out = []
    name, _, hour = o.name[5:].partition('@')
    if f == 'H' and hour:
        return list(hour)
    for k in range(FIELDS[f]):
        n = '%s.%s%d' % (name, f, k)
        t_.SIGN[n] = '0+'
        out.append(t_.var(n, 'I', '0+'))
    return out


def date_text(o, spec):
    out = []
    i = 0
    while i < len(spec):
        if spec[i] == '%':
            out += ['%'] if spec[i + 1] == '%' else date_chars(o, spec[i + 1])
            i += 2
        else:
            out.append(spec[i])
            i += 1
    return out


def date_attr(I, st, o, name):
    part = {'year': 'Y', 'month': 'm', 'day': 'd', 'hour': 'H', 'minute': 'M', 'second': 'S'}
    if name in part:
        r = ZERO
        for c in date_chars(o, part[name]):
            r = t_.add(t_.mul(num(10), r), textlib.value_of(c))
        return r
    if name == 'isoformat':
        return Prim('isoformat', lambda I, st, a, k: textlib.make(date_text(o, '%Y-%m-%dT%H:%M:%S')))
    if name == 'strftime':
        return Prim('strftime', lambda I, st, a, k: textlib.make(date_text(o, a[0])))
    raise Unsupported('date.%s' % name)


def strptime(I, st, args, kw):
    s, f = args
    if not isinstance(f, str) or not isinstance(s, (str, SText)):
        raise Unsupported('strptime')
    cs = s.chars if isinstance(s, SText) else tuple(s)
    shape = ''.join('d' if textlib.is_digit(c) else c for c in cs)
    return t_.app('strptime:%s:%s' % (f, shape), *[textlib.value_of(c) for c in cs if textlib.is_digit(c)])


# ------------------------------------------------------------------ formatting
def padded(I, x, spec):
    """text of an integer made of known digits"""
    return None


def render(I, st, v, spec):
    """characters of format(v, spec), or None"""
    if isinstance(v, Opq) and v.name.startswith('date:') and spec:
        return date_text(v, spec)
    if spec:
        if isinstance(v, str):
            return list(format(v, spec))
        if isinstance(v, T) and v.op == 'num' and v.args[0].denominator == 1:
            return list(format(int(v.args[0]), spec))
        return None
    if isinstance(v, SText):
        return list(v.chars)
    s = I.to_str(v)
    return None if s is None else list(s)


def fmt(I, st, text, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(text):
        out += list(lit)
        if field is None:
            continue
        if conv or '{' in (spec or ''):
            return Opq('str')
        head, _, rest = field.partition('.')
        if head == '':
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            if head not in kw:
                raise PyRaise(Exc(ExtCls('KeyError')))
            v = kw[head]
        for a in [x for x in rest.split('.') if x]:
            v = I.getattr_(st, v, a)
        c = render(I, st, v, spec or '')
        if c is None:
            return Opq('str')
        out += c
    return textlib.make(out)
