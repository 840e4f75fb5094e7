"""Filtered sequences (list built by conditional appends, compress, comprehension with `if`), lines of a record file, points in time.

Modelled contracts.  A filtered sequence is n, a condition on 0..n-1 and an item for each index that meets it, in order."""
import time
from . import terms as t_
from .terms import T, TRUE, FALSE, ZERO, ONE, num, and_, or_, not_, ite
from .values import *
from . import values as V


def map_val(v, f):
    if isinstance(v, T):
        return f(v)
    if isinstance(v, C):
        return C(f(v.re), f(v.im))
    if isinstance(v, tuple):
        return tuple(map_val(x, f) for x in v)
    if isinstance(v, Comp):
        return v.map(f)
    if v is None or isinstance(v, (str, Opq)):
        return v
    raise Unsupported('item of a filtered sequence')


def merge_items(c, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_items(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Comp):
        return a.merge(c, b)
    if V.same(a, b):
        return a
    x, y = scalar(a), scalar(b)
    if x is None or y is None:
        raise V.NotMergeable()
    return ite_val(c, x, y)


class When(Comp):
    """a point in time (days), or a calendar day"""
    def __init__(self, t, day=False, of=None):
        self.t, self.day, self.of = t, day, of          # of: the calendar day of the time, when known

    def map(self, f):
        return When(f(self.t), self.day, f(self.of) if self.of is not None else None)

    def merge(self, c, o):
        if not isinstance(o, When) or o.day != self.day:
            raise V.NotMergeable()
        return When(ite(c, self.t, o.t), self.day, None if self.of is None or o.of is None else ite(c, self.of, o.of))

    def compare(self, chk, name, G, o, sc, ss, seen):
        if not isinstance(o, When) or o.day != self.day:
            return chk.same_ob(name, G, 0, 1)
        chk.leaf(name, G, self.t, o.t)

    def __eq__(self, o):
        return isinstance(o, When) and o.t is self.t and o.day == self.day
    __hash__ = None

    def order(self, op, o):
        if not isinstance(o, When):
            if op in ('Eq', 'NotEq'):
                return TRUE if op == 'NotEq' else FALSE
            raise PyRaise(Exc(ExtCls('TypeError')))
        if o.day != self.day:
            if op in ('Eq', 'NotEq'):
                return TRUE if op == 'NotEq' else FALSE
            raise PyRaise(Exc(ExtCls('TypeError')))
        a, b = self.t, o.t
        return {'Lt': lambda: t_.lt(a, b), 'LtE': lambda: t_.le(a, b), 'Gt': lambda: t_.lt(b, a), 'GtE': lambda: t_.le(b, a),
                'Eq': lambda: t_.eq(a, b), 'NotEq': lambda: not_(t_.eq(a, b))}[op]()

    def attr(self, I, st, name):
        from .nplib import Prim
        if name == 'date' and not self.day:
            return Prim('date', lambda I, st, a, k: When(t_.floorf(self.t) if self.of is None else self.of, True))
        raise Unsupported('datetime.' + name)


def datetime(I, st, args, kw):
    """a day that exists and a time of that day, else ValueError; days are counted by an increasing function of the calendar"""
    names = ('year', 'month', 'day', 'hour', 'minute', 'second')
    v = dict(zip(names, args))
    for k, x in kw.items():
        if k not in names or k in v:
            raise Unsupported('datetime(%s=)' % k)
        v[k] = x
    if not set(names[:3]) <= set(v) or len(args) > 6:
        raise PyRaise(Exc(ExtCls('TypeError')))
    if any(not isinstance(x, T) for x in v.values()):
        raise Unsupported('datetime of these arguments')
    y, m, d = (v[k] for k in names[:3])
    src = [x.args[0].rsplit(':', 1) if x.op == 'sel' and len(x.args) == 2 and ':' in x.args[0] else None for x in (y, m, d)]
    if all(src) and [s[1] for s in src] == list(names[:3]) and len({s[0] for s in src}) == 1 and y.args[1] is m.args[1] is d.args[1]:
        day = t_.sel(src[0][0] + ':daynumber', y.args[1], sort='I')     # the calendar day of a record of the file: it exists
    else:
        day = t_.floorf(t_.app('daynumber', y, m, d))
        ok = t_.lt(ZERO, t_.app('is a day', y, m, d))
        if not I.choose(st, [(ok, True), (not_(ok), False)]):
            raise PyRaise(Exc(ExtCls('ValueError')))
    t = day
    for k, hi, part in (('hour', 24, 24), ('minute', 60, 1440), ('second', 60, 86400)):
        if k not in v:
            continue
        x = v[k]
        ok = and_(t_.le0(t_.neg(x)), t_.lt(x, num(hi)))
        if not I.choose(st, [(ok, True), (not_(ok), False)]):
            raise PyRaise(Exc(ExtCls('ValueError')))
        t = t_.add(t, t_.div(x, num(part)))
    return When(t, of=day)


class Line(Comp):
    """line i of a record file: `fields` [(first, after, name)] on a heading, all other columns up to `width` blank; the first character says
    whether it is a heading"""
    def __init__(self, file, i):
        self.file, self.i = file, i

    def map(self, f):
        return Line(self.file, f(self.i))

    def merge(self, c, o):
        if not isinstance(o, Line) or o.file is not self.file:
            raise V.NotMergeable()
        return Line(self.file, ite(c, self.i, o.i))

    def compare(self, chk, name, G, o, sc, ss, seen):
        if not isinstance(o, Line) or o.file is not self.file:
            return chk.same_ob(name, G, 0, 1)
        chk.leaf(name, G, self.i, o.i)

    def heading(self):
        return t_.lt(ZERO, t_.sel(self.file.name + ':heading', self.i))

    def attr(self, I, st, name):
        from .nplib import Prim
        if name == 'startswith':
            return Prim(name, lambda I, st, a, k: Piece(self, 0, len(a[0])).order('Eq', a[0]))
        raise Unsupported('str.%s of a line of a file' % name)

    def item(self, I, st, i):
        def cv(x, other):
            if x is None:
                return other
            if isinstance(x, T) and x.op == 'num' and x.args[0] >= 0:
                return int(x.args[0])
            raise Unsupported('part of a line')
        if isinstance(i, Slice):
            if i.s is not None:
                raise Unsupported('part of a line')
            return Piece(self, cv(i.a, 0), cv(i.b, self.file.width + 1))
        return Piece(self, cv(i, 0), cv(i, 0) + 1)

    def length(self):
        raise Unsupported('length of a line')


class RawLine(Comp):
    """the bytes of a line"""
    def __init__(self, line):
        self.line = line

    def map(self, f):
        return RawLine(self.line.map(f))

    def merge(self, c, o):
        if not isinstance(o, RawLine):
            raise V.NotMergeable()
        return RawLine(self.line.merge(c, o.line))

    def compare(self, chk, name, G, o, sc, ss, seen):
        chk.same_ob(name, G, 0, 1)

    def attr(self, I, st, name):
        from .nplib import Prim
        if name == 'decode':
            return Prim(name, lambda I, st, a, k: self.line)
        raise Unsupported('bytes.%s of a line of a file' % name)


class Piece(Comp):
    """columns a..b of a line"""
    def __init__(self, line, a, b):
        self.line, self.a, self.b = line, a, b

    def map(self, f):
        return Piece(self.line.map(f), self.a, self.b)

    def merge(self, c, o):
        if not isinstance(o, Piece) or (o.a, o.b) != (self.a, self.b):
            raise V.NotMergeable()
        return Piece(self.line.merge(c, o.line), self.a, self.b)

    def compare(self, chk, name, G, o, sc, ss, seen):
        chk.same_ob(name, G, 0, 1)

    def order(self, op, o):
        if op in ('Eq', 'NotEq') and (self.a, self.b) == (0, 1) and o == '#':
            c = self.line.heading()
            return c if op == 'Eq' else not_(c)
        raise Unsupported('text of a line compared')

    def tokens(self, I, st):
        if I.decide(st, self.line.heading()) is not True:
            raise Unsupported('fields of a line that may be no heading')
        f = self.line.file
        if self.b > f.width:
            raise Unsupported('text beyond the known fields')
        out = []
        for a, b, name in f.fields:
            if b <= self.a or a >= self.b:
                continue
            if a < self.a or b > self.b:
                raise Unsupported('part of a field')
            out.append(Field(self.line, name))
        return out

    def attr(self, I, st, name):
        from .nplib import Prim
        if name == 'split':
            def split(I, st, args, kw):
                if args or kw:
                    raise Unsupported('str.split')
                return PList(st.alloc(self.tokens(I, st)))
            return Prim(name, split)
        if name in ('strip', 'lstrip', 'rstrip'):
            return Prim(name, lambda I, st, a, k: self)
        if name == 'startswith':
            return Prim(name, lambda I, st, a, k: Piece(self.line, self.a, self.a + len(a[0])).order('Eq', a[0]))
        raise Unsupported('str.%s of part of a line' % name)

    def integer(self, I, st):
        w = self.tokens(I, st)
        if len(w) != 1:
            raise PyRaise(Exc(ExtCls('ValueError')))
        return w[0].integer(I, st)


class Field(Comp):
    def __init__(self, line, name):
        self.line, self.name = line, name

    def map(self, f):
        return Field(self.line.map(f), self.name)

    def merge(self, c, o):
        if not isinstance(o, Field) or o.name != self.name:
            raise V.NotMergeable()
        return Field(self.line.merge(c, o.line), self.name)

    def compare(self, chk, name, G, o, sc, ss, seen):
        chk.same_ob(name, G, 0, 1)

    def integer(self, I, st):
        n = '%s:%s' % (self.line.file.name, self.name)
        return t_.sel(n, self.line.i, sort='I')


class File:
    """layout of a record file"""
    def __init__(self, name, fields, width):
        self.name, self.fields, self.width = name, fields, width


class Picked:
    """the items of the indices meeting the condition, in order (iterable)"""
    def __init__(self, top, cond, get):
        self.top, self.cond, self.get = top, cond, get

    def _no(self, *a):
        raise Unsupported('use of a filtered sequence')
    __len__ = __iter__ = __getitem__ = _no

    def empty(self):
        i = t_.fresh('i', 'I')
        t_.SIGN[i.args[0]] = '0+'
        return not_(t_.lt(t_.bfirst(self.top, i, self.cond(i)), t_.clamp0(self.top)))

    def length(self):
        i = t_.fresh('i', 'I')
        t_.SIGN[i.args[0]] = '0+'
        n = t_.bsum(self.top, i, ite(self.cond(i), ONE, ZERO))
        return ite(self.empty(), ZERO, t_.add(ONE, t_.clamp0(t_.sub(n, ONE))))


class Joined(Comp):
    """texts of a sequence, one after the other"""
    what = 'text'

    def __init__(self, top, cond, get, extra=None):
        self.top, self.cond, self.get, self.extra = top, cond, get, extra

    def map(self, f):
        # index terms handed in later are in the caller's state: only what is fixed now is translated
        def sub(g):
            def h(q):
                z = t_.fresh('z', 'I')
                r = map_val(g(z), f)
                return map_val(r, lambda t: t_.subst(t, {z: q}))
            return h
        return type(self)(f(self.top), sub(self.cond), sub(self.get), self.extra)

    def merge(self, c, o):
        raise V.NotMergeable()

    def compare(self, chk, name, G, o, sc, ss, seen):
        if type(o) is not type(self) or o.extra != self.extra:
            return chk.same_ob(name, G, 0, 1)
        compare_picked(chk, name, G, self, o, sc, ss, seen)


class Repeated(Joined):
    """every item as often as its count says: get gives (item, count)"""


def compare_picked(chk, name, G, a, b, sc, ss, seen):
    q = t_.fresh('i', 'I')
    t_.SIGN[q.args[0]] = '0+'
    G2 = G + (t_.le0(t_.neg(q)),)
    ca, cb = (and_(t_.lt(q, x.top), x.cond(q)) for x in (a, b))
    # one direction at a time: the conditions may mention different first indices
    implied(chk, name + ' leaves nothing out', G2 + (cb,), ca)
    implied(chk, name + ' adds nothing', G2 + (ca,), cb)
    chk.value(name + ' items', G2 + (ca, cb), a.get(q), b.get(q), sc, ss, seen)


def implied(chk, name, G, c):
    """obligation: the facts imply the condition, by instances of the first-index and order facts in them"""
    from . import quant, logic
    from .verify import Obligation
    t0 = time.time()
    ob = Obligation(name)
    ob.ok = c is TRUE
    F = []
    for f in tuple(G) + (not_(c),):
        F += [x for x in (f.args if f.op == 'and' else (f,)) if x not in F]
    for _ in range(3):
        if ob.ok:
            break
        ob.ok = logic.check(F, 4000) == 'unsat'
        if not ob.ok:
            new = [x for x in quant.instances(tuple(F), (), 400) if x not in F]
            if not new:
                break
            F += new
    ob.time = time.time() - t0
    if not ob.ok:
        ob.why = 'not implied: %s' % str(c)[:500]
    chk.obls.append(ob)


def iterate(I, st, v):
    """Picked of a list, an iterator or an array of symbolic length; None when it is concrete"""
    from . import loops
    if isinstance(v, PList) and isinstance(st.heap[v.loc], Picked):
        return st.heap[v.loc]
    if isinstance(v, Picked):
        return v
    it = I.iter_of(st, v)
    if isinstance(it, Seq):
        return Picked(it.n, lambda q: TRUE, it.item)
    return it if isinstance(it, Picked) else None


def zipped(I, st, its):
    """zip of sequences filtered alike"""
    q = t_.fresh('i', 'I')
    if any(not isinstance(i, Picked) for i in its):
        raise Unsupported('zip of a filtered sequence')
    c = its[0].cond(q)
    for i in its[1:]:
        if i.top is not its[0].top or i.cond(q) is not c:
            raise Unsupported('zip of sequences filtered differently')
    return Picked(its[0].top, its[0].cond, lambda k: tuple(i.get(k) for i in its))


class Unzipped:
    """zip(*items) of a filtered sequence of tuples: one filtered sequence per component"""
    def __init__(self, parts):
        self.parts = parts


def unzipped(I, st, v):
    p = v if isinstance(v, Picked) else st.heap[v.loc] if isinstance(v, PList) else None
    if not isinstance(p, Picked):
        return None
    w = p.get(t_.fresh('i', 'I'))
    if not isinstance(w, tuple) or I.decide(st, p.empty()) is not False:
        raise Unsupported('zip of unpacked items')
    return Unzipped([Picked(p.top, p.cond, lambda k, j=j: p.get(k)[j]) for j in range(len(w))])


def listed(st, p):
    return PList(st.alloc(p))


def install(I):
    from . import nplib
    from .nplib import Prim
    I.extclass['datetime'] = datetime
    ext = I.ext

    def compress(I, st, args, kw):
        data, sel = iterate(I, st, args[0]), iterate(I, st, args[1])
        if data is None or sel is None or data.top is not sel.top:
            raise Unsupported('itertools.compress')
        q = t_.fresh('i', 'I')
        for p in (data, sel):
            if p.cond(q) is not TRUE:
                raise Unsupported('itertools.compress')
        return Picked(data.top, lambda k: I.truth(st, sel.get(k)), data.get)
    ext['itertools.compress'] = Prim('compress', compress)

    def archive(I, st, args, kw):
        return Archive(args[0])
    ext['specs.dsl.archive'] = Prim('archive', archive)
    ext['io.BytesIO'] = Prim('BytesIO', lambda I, st, a, k: a[0] if isinstance(a[0], Archive) and not k else unsupported('BytesIO'))
    ext['zipfile.ZipFile'] = Prim('ZipFile', lambda I, st, a, k: a[0] if isinstance(a[0], Archive) and not k and
                                  (len(a) == 1 or len(a) == 2 and a[1] == 'r') else unsupported('ZipFile'))


def unsupported(what):
    raise Unsupported(what)


class Archive(Comp):
    """a zip file with one member of the given lines"""
    def __init__(self, lines):
        self.lines = lines

    def map(self, f):
        return self

    def compare(self, chk, name, G, o, sc, ss, seen):
        chk.same_ob(name, G, self is o, True)

    def raw(self, st):
        from . import loops
        l = st.heap[self.lines.loc]
        if not isinstance(l, loops.SymList):
            raise Unsupported('lines of an archive')
        return PList(st.alloc(loops.SymList(l.n, lambda i: RawLine(l.item(i)))))

    def attr(self, I, st, name):
        from .nplib import Prim

        def readlines(I, st, a, k):
            return self.raw(st) if not a and not k else unsupported('lines of an archive')
        if name in ('infolist', 'namelist', 'filelist'):
            v = PList(st.alloc(['member']))
            return v if name == 'filelist' else Prim(name, lambda I, st, a, k: v)
        if name == 'open':
            return Prim(name, lambda I, st, a, k: self if a and a[0] == 'member' and not k else unsupported('ZipFile.open'))
        if name == 'readlines':
            return Prim(name, readlines)
        if name == 'close':
            return Prim(name, lambda I, st, a, k: None)
        raise Unsupported('zip file.' + name)


def join(I, st, sep, v):
    p = iterate(I, st, v)
    if p is None:
        return None
    q = t_.fresh('i', 'I')
    if not isinstance(p.get(q), (Line, Piece)):
        raise Unsupported('join of these items')
    return Joined(p.top, p.cond, p.get, sep)


def repeat(I, st, v, n):
    """np.repeat(items, counts) of sequences filtered alike"""
    p = zipped(I, st, [iterate(I, st, v), iterate(I, st, n)])
    return Repeated(p.top, p.cond, p.get)
