"""Domain of logical variables: what a contract's inputs are in the verifier."""
from . import terms as t_
from .terms import num
from .values import *
from . import prove


class SymDom:
    symbolic = True

    def __init__(self, I, st):
        self.I, self.st = I, st
        self.facts = []
        self.names = set()

    def _n(self, name, sign):
        if name in self.names:
            raise ValueError('domain name reused: ' + name)
        self.names.add(name)
        if sign:
            t_.SIGN[name] = sign
        return name

    def real(self, name, sign=None, rng=None, **hints):
        if rng:
            prove.RANGE[name] = rng
        return t_.var(self._n(name, sign), 'R', sign)

    def const0(self):
        return t_.ZERO

    def int(self, name, lo=None, hi=None, **hints):
        sign = '+' if lo is not None and lo >= 1 else '0+' if lo is not None and lo >= 0 else None
        v = t_.var(self._n(name, sign), 'I', sign)
        if lo is not None and lo not in (0, 1):
            self.facts.append(t_.le(num(lo), v))
        if hi is not None:
            self.facts.append(t_.le(v, num(hi)))
        return v

    def size(self, name, lo=0, hi=None, **hints):
        v = t_.var(self._n(name, '+' if lo >= 1 else '0+'), 'I', '+' if lo >= 1 else '0+')
        if lo > 1:
            self.facts.append(t_.le(num(lo), v))
        if hi is not None:
            self.facts.append(t_.le(v, num(hi)))
        return v

    def bool(self, name):
        return t_.var(self._n(name, None), 'B')

    def text(self, name, words):
        return SStr(self._n(name, None))

    def field(self, name, pattern):
        """text of the pattern, every d an arbitrary digit, every n one from 1 to 9"""
        self._n(name, None)
        out = []
        for k, c in enumerate(pattern):
            if c in ('d', 'n'):
                sign = '0+' if c == 'd' else '+'
                t_.SIGN['%s.%d' % (name, k)] = sign
                c = t_.var('%s.%d' % (name, k), 'I', sign)
                self.facts.append(t_.le(c, num(9)))
            out.append(c)
        return SText(out) if any(not isinstance(c, str) for c in out) else ''.join(out)

    def pick(self, name, options):
        raise Unsupported('pick in a proof domain')

    def array(self, name, shape, sign=None, rng=None, dtype='R', islist=False, **hints):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(num(s) if isinstance(s, int) else s for s in shape)
        self._n(name, sign)
        if rng and dtype == 'R':
            prove.RANGE[name] = rng
        if hints.get('kind') in ('incr', 'decr'):
            prove.KIND[name] = hints['kind']
        prove.ARRSORT[name] = dtype if dtype in ('I', 'B') else 'R'
        if dtype == 'C':
            return self.st.new_arr(shape, lambda ix: C(t_.sel(name + '.re', *ix), t_.sel(name + '.im', *ix)), 'C', islist)
        return self.st.new_arr(shape, lambda ix: t_.sel(name, *ix, sort=dtype), dtype, islist)

    def const(self, v):
        if isinstance(v, (bool, int, float)):
            return scalar(v)
        return v

    def constarray(self, values, dtype='R'):
        vals = [scalar(v) for v in values]
        n = len(vals)

        def at(ix):
            k = ix[0]
            if k.op == 'num':
                return vals[int(k.args[0])]
            r = vals[n - 1]
            for i in range(n - 2, -1, -1):
                r = t_.ite(t_.eq(k, num(i)), vals[i], r)
            return r
        return self.st.new_arr((num(n),), at, dtype)

    def plist(self, items):
        return PList(self.st.alloc(list(items)))

    def pdict(self, items):
        return PDict(self.st.alloc(dict(items)))

    def obj(self, cls, **attrs):
        """instance with the given attributes (constructor not run)"""
        c = self.I.cls(self.st, cls)
        self.I.ensure_class(self.st, c)
        return Obj(self.st.alloc({k: self.const(v) for k, v in attrs.items()}), c)

    def ns(self, name, **attrs):
        """plain attribute container (stands for a module or simple object)"""
        return Obj(self.st.alloc({k: self.const(v) for k, v in attrs.items()}), ExtCls('namespace'))

    def cls(self, qual):
        return self.I.cls(self.st, qual)

    def classattr(self, qual, attr, value):
        c = self.I.cls(self.st, qual)
        self.I.ensure_class(self.st, c)
        d = dict(self.st.heap[c.loc])
        d[attr] = self.const(value)
        self.st.heap[c.loc] = d

    def setglobal(self, mod, name, value):
        self.st.heap[('g', mod, name)] = self.const(value)

    def ncfile(self, name, variables):
        """path of a NetCDF file with the given variables"""
        self.st.heap[('memfile', name)] = dict(variables)
        return name

    def frame(self, name, rows, columns, **hints):
        """data frame of numbers, every one of which may be missing"""
        from . import frames

        def col(c):
            n = self._n('%s[%s]' % (name, c), None)
            return lambda q: t_.ite(t_.sel(n + ' missing', q, sort='B'), t_.NAN, t_.sel(n, q))
        for c in columns:
            prove.ARRSORT['%s[%s] missing' % (name, c)] = 'B'
            prove.ARRSORT['%s[%s]' % (name, c)] = 'R'
        return frames.new(self.st, {c: col(c) for c in columns}, rows)

    def page(self, name, cells, info, title):
        """a sounding page: its table (a frame of the columns), the lines about the station, its title"""
        from . import frames
        chars = []
        for x in ['\n'] + info:
            chars += list(x.chars if isinstance(x, SText) else x)
        self.st.heap[('page', name)] = frames.Page(cells, SText(chars), title)
        return Opq('page:' + name)

    def records(self, name, rows, fields, width):
        """lines of a file of records, every heading with its fields, the days of the headings in order; a record's day is that of its heading"""
        from . import seqlib, loops
        f = seqlib.File(name, fields, width)
        for k in ('heading', 'daynumber') + tuple(x[2] for x in fields):
            prove.ARRSORT['%s:%s' % (name, k)] = 'I'
            t_.SIGN['%s:%s' % (name, k)] = '0+'
        k = t_.fresh('k', 'I')
        day = lambda i: t_.sel(name + ':daynumber', i, sort='I')
        m = t_.sub(rows, t_.ONE)
        self.facts.append(t_.eq(t_.bfirst(m, k, t_.not_(t_.le(day(k), day(t_.add(k, t_.ONE))))), t_.clamp0(m)))
        return PList(self.st.alloc(loops.SymList(rows, lambda i: seqlib.Line(f, i))))

    def moment(self, name):
        from . import seqlib
        day, part = t_.var(self._n(name, None), 'I'), t_.var(self._n(name + ' time of day', '0+'), 'R', '0+')
        self.facts.append(t_.lt(part, t_.ONE))
        return seqlib.When(t_.add(day, part), of=day)

    def date(self, name, hour=None):
        """a date and time of four-digit year, to the second, at any or the given hour"""
        return Opq('date:' + self._n(name, None) + ('' if hour is None else '@%02d' % hour))

    # term helpers for sizes
    def add(self, a, b):
        return t_.add(scalar(a), scalar(b))

    def sub(self, a, b):
        return t_.sub(scalar(a), scalar(b))
