"""Values, heap and states of the symbolic interpreter."""
from . import terms as t_
from .terms import T, TRUE, FALSE, num, ZERO, ONE


class Unsupported(Exception):
    """construct outside the supported subset: the obligation stays undischarged"""


class PyRaise(Exception):
    def __init__(self, val):
        self.val = val


class C:
    """complex scalar"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'C(%r, %r)' % (self.re, self.im)


class Comp:
    """a compound immutable value made of terms: map(f), merge(cond, other), compare(checker, ...)"""
    attr = item = order = None


_LOC = [0]


def newloc():
    _LOC[0] += 1
    return _LOC[0]


class Buf:
    """array buffer: immutable; content closure over index terms"""
    __slots__ = ('shape', 'fn', 'dtype', 'memo', 'merged', 'frozen')

    def __init__(self, shape, fn, dtype='R', merged=False):
        self.shape = tuple(shape)
        self.fn = fn
        self.dtype = dtype
        self.memo = {}
        self.merged = merged

    def at(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.fn(idx)
            if len(idx) == 1 and isinstance(r, T) and r.op not in ('ite', 'num') and idx[0].op != 'num' and \
                    self.shape[0].op == 'num' and 1 < self.shape[0].args[0] <= 8 and has_choice(r):
                # a short array computed from a table: one choice of the element, not a choice inside every operand
                n = int(self.shape[0].args[0])
                r = self.at((num(n - 1),))
                for k in range(n - 2, -1, -1):
                    r = ite_val(t_.eq(idx[0], num(k)), self.at((num(k),)), r)
            self.memo[idx] = r
        return r


def has_choice(t):
    todo, seen = [t], set()
    while todo and len(seen) < 200:
        x = todo.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op == 'ite':
            return True
        todo += list(t_.children(x))
    return False


class Arr:
    """a view on a buffer: shape + index map (None = identity)"""
    __slots__ = ('loc', 'shape', 'imap', 'dtype', 'islist')

    def __init__(self, loc, shape, imap=None, dtype='R', islist=False):
        self.loc, self.shape, self.imap, self.dtype, self.islist = loc, tuple(shape), imap, dtype, islist

    def __repr__(self):
        return 'Arr#%d%s' % (self.loc, self.shape)


class Masked:
    """x[mask]: the selected elements of a 1-d (or nd) array, closure over *base* indices"""
    __slots__ = ('shape', 'mask', 'fn', 'dtype')

    def __init__(self, shape, mask, fn, dtype='R'):
        self.shape, self.mask, self.fn, self.dtype = tuple(shape), mask, fn, dtype


class IdxSet:
    """np.nonzero(mask)[0]"""
    __slots__ = ('shape', 'mask')

    def __init__(self, shape, mask):
        self.shape, self.mask = tuple(shape), mask


class PList:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class PDict:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Obj:
    __slots__ = ('loc', 'cls')

    def __init__(self, loc, cls):
        self.loc, self.cls = loc, cls

    def __repr__(self):
        return 'Obj#%d<%s>' % (self.loc, getattr(self.cls, 'name', self.cls))


class Cls:
    """a class of the code under verification; attrs live in the heap at .loc"""
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.loc = newloc()
        self.props = {}      # name -> (getter Fn, setter Fn)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def qual(self):
        return self.module.name + ':' + self.name


class ExtCls:
    """a class outside the code under verification (exceptions, ndarray, ...)"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


class Fn:
    __slots__ = ('node', 'module', 'name', 'cls', 'kind', 'defaults', 'kwdefaults', 'closure', 'qual')

    def __init__(self, node, module, name, cls=None, kind='function', defaults=None, kwdefaults=None, closure=None):
        self.node, self.module, self.name, self.cls, self.kind = node, module, name, cls, kind
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.closure = closure
        self.qual = module.name + ':' + ((cls.name + '.') if cls else '') + name


class SStr:
    """an arbitrary ASCII string: one integer stands for its spelling, one for its spelling up to letter case"""
    __slots__ = ('name', 'case')
    CODE = {}

    def __init__(self, name, case=None):
        self.name, self.case = name, case

    def __repr__(self):
        return 'str:%s%s' % (self.name, '.' + self.case if self.case else '')

    def is_(self, lit):
        """condition for the string to be the literal"""
        from . import terms as t_
        code = lambda s: t_.num(SStr.CODE.setdefault(s, len(SStr.CODE) + 1))  # noqa: E731
        fold = t_.eq(t_.var(self.name + '~', 'I'), code(lit.lower()))
        if not lit.isascii() or self.case and lit != getattr(lit, self.case)():
            return t_.FALSE
        if self.case:
            return fold
        return t_.and_(fold, t_.eq(t_.var(self.name, 'I'), code('=' + lit)))


class SText:
    """text of known length whose characters are literals or unknown digits (textlib)"""
    __slots__ = ('chars',)

    def __init__(self, chars):
        self.chars = tuple(chars)

    def __repr__(self):
        return 'text:' + ''.join(c if isinstance(c, str) else '<%r>' % (c,) for c in self.chars)


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Prim:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Prim(%s)' % self.name


class ModV:
    """module value; repo modules have .mod set"""
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod=None):
        self.name, self.mod = name, mod


class Rng:
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Seq:
    """symbolic-length iterable: n, item(k)"""
    __slots__ = ('n', 'item')

    def __init__(self, n, item):
        self.n, self.item = n, item


class Opq:
    """an opaque value, identified by name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Opq(%s)' % self.name


class DF:
    """data frame: ordered column name -> closure over (block, row); nblocks blocks of `rows` rows"""
    __slots__ = ('cols', 'nblocks', 'rows', 'base', 'added', 'attrs')

    def __init__(self, cols, nblocks, rows, base=None, added=None, attrs=None):
        self.attrs = attrs                      # location of the attribute dictionary
        self.cols, self.nblocks, self.rows = cols, nblocks, rows
        self.base, self.added = base, added     # inside a loop: base followed by one more frame


class PFrame:
    """a data frame in the heap (frames)"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Exc:
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    @property
    def name(self):
        return self.cls.name

    def __repr__(self):
        return 'Exc(%s)' % self.name


class Undef:
    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


class Poison:
    def __repr__(self):
        return 'POISON'


POISON = Poison()


class Maybe:
    """a variable bound only when cond holds"""
    __slots__ = ('cond', 'val')

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class Slice:
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class NotMergeable(Exception):
    pass


class State:
    __slots__ = ('env', 'heap', 'pc', 'obls', 'log')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.pc = ()
        self.obls = ()        # side obligations: (pc, cond, label)
        self.log = ()         # ghost log (warnings, ...)

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.obls = self.obls
        s.log = self.log
        return s

    def assume(self, c):
        if c is TRUE:
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)

    # heap helpers
    def alloc(self, v):
        l = newloc()
        self.heap[l] = v
        return l

    def new_arr(self, shape, fn, dtype='R', islist=False):
        l = self.alloc(Buf(shape, fn, dtype))
        return Arr(l, shape, None, dtype, islist)

    def arr_at(self, a, idx):
        b = self.heap[a.loc]
        return b.at(a.imap(idx) if a.imap else tuple(idx))

    def arr_fn(self, a):
        """snapshot closure of the current content of a"""
        b = self.heap[a.loc]
        if a.imap:
            im = a.imap
            return lambda idx: b.at(im(idx))
        return lambda idx: b.at(tuple(idx))


# ------------------------------------------------------------------ merging
def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, SText):
        return len(a.chars) == len(b.chars) and all(x is y or x == y and isinstance(x, str) for x, y in zip(a.chars, b.chars))
    if isinstance(a, C):
        return a.re is b.re and a.im is b.im
    if isinstance(a, (str, int, float, bool, type(None))):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Arr):
        return a.loc == b.loc and a.shape == b.shape and (a.imap is b.imap or _same_imap(a, b))
    if isinstance(a, (PList, PDict, PFrame)):
        return a.loc == b.loc
    if isinstance(a, Obj):
        return a.loc == b.loc
    if isinstance(a, Bound):
        return a.fn is b.fn and same(a.self, b.self)
    if isinstance(a, (ModV, ExtCls, Opq, Prim)):
        return a.name == b.name
    if isinstance(a, Maybe):
        return a.cond is b.cond and same(a.val, b.val)
    if isinstance(a, Exc):
        return a.name == b.name
    if isinstance(a, Fn):
        return a.node is b.node
    if isinstance(a, Rng):
        return a.a is b.a and a.b is b.b and a.s is b.s
    return False


_PK = [t_.var('idx?%d' % i, 'I') for i in range(6)]


def _same_imap(a, b):
    if (a.imap is None) != (b.imap is None):
        return False
    idx = tuple(_PK[:len(a.shape)])
    return a.imap(idx) == b.imap(idx)


def scalar(v):
    """coerce python scalars to terms"""
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float)):
        return num(v)
    return None


def ite_val(c, a, b):
    """ite on scalar values"""
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        if (a.sort == 'B') != (b.sort == 'B'):
            if a.sort == 'B':
                a = t_.ite(a, ONE, ZERO)
            else:
                b = t_.ite(b, ONE, ZERO)
        return t_.ite(c, a, b)
    if isinstance(a, (C, T)) and isinstance(b, (C, T)):
        a = a if isinstance(a, C) else C(a, ZERO)
        b = b if isinstance(b, C) else C(b, ZERO)
        return C(t_.ite(c, a.re, b.re), t_.ite(c, a.im, b.im))
    raise NotMergeable()


def merge_val(c, a, b, sa, sb, out):
    """value that is a when c else b"""
    if same(a, b):
        return a
    if a is POISON or b is POISON:
        return POISON
    if isinstance(a, (T, C)) and isinstance(b, (T, C)):
        return ite_val(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y, sa, sb, out) for x, y in zip(a, b))
    if a is UNDEF or b is UNDEF or isinstance(a, Maybe) or isinstance(b, Maybe):
        ca, va = (FALSE, None) if a is UNDEF else (a.cond, a.val) if isinstance(a, Maybe) else (TRUE, a)
        cb, vb = (FALSE, None) if b is UNDEF else (b.cond, b.val) if isinstance(b, Maybe) else (TRUE, b)
        cond = t_.or_(t_.and_(c, ca), t_.and_(t_.not_(c), cb))
        if va is None and vb is None:
            return UNDEF
        v = vb if va is None else va if vb is None else merge_val(c, va, vb, sa, sb, out)
        return v if cond is TRUE else Maybe(cond, v)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and a.shape == b.shape:
        fa, fb = sa.arr_fn(a), sb.arr_fn(b)
        l = newloc()
        out.heap[l] = Buf(a.shape, lambda idx: ite_val(c, fa(idx), fb(idx)), a.dtype if a.dtype == b.dtype else 'R', merged=True)
        return Arr(l, a.shape, None, a.dtype, a.islist)
    if isinstance(a, Exc) and isinstance(b, Exc) and a.name == b.name:
        return a
    if isinstance(a, DF) and isinstance(b, DF) and a.nblocks is b.nblocks and a.rows is b.rows and list(a.cols) == list(b.cols):
        return DF({k: (lambda f, g: (lambda x, y: ite_val(c, f(x, y), g(x, y))))(a.cols[k], b.cols[k]) for k in a.cols},
                  a.nblocks, a.rows)
    if isinstance(a, Masked) and isinstance(b, Masked) and a.mask is b.mask:
        return Masked(a.shape, a.mask, lambda idx: ite_val(c, a.fn(idx), b.fn(idx)), a.dtype)
    if isinstance(a, Comp) and isinstance(b, Comp):
        return a.merge(c, b)
    raise NotMergeable()


def merge_heapval(c, a, b, sa, sb, out):
    if a is b:
        return a
    if isinstance(a, Buf) and isinstance(b, Buf) and a.shape == b.shape:
        return Buf(a.shape, lambda idx: ite_val(c, a.at(idx), b.at(idx)), a.dtype if a.dtype == b.dtype else 'R',
                   a.merged or b.merged)
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            if set(a) != set(b):
                # keys present on one side only: attribute bound conditionally
                r = {}
                for k in list(a) + [k for k in b if k not in a]:
                    r[k] = merge_val(c, a.get(k, UNDEF), b.get(k, UNDEF), sa, sb, out)
                return r
        return {k: merge_val(c, a[k], b[k], sa, sb, out) for k in a}
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge_val(c, x, y, sa, sb, out) for x, y in zip(a, b)]
    if hasattr(a, 'merge_grown') and type(a) is type(b):
        return a.merge_grown(c, b, sa, sb, out)
    if same(a, b):
        return a
    raise NotMergeable()


def simp_or(cs):
    """disjunction of conjunction-tuples, merging complementary pairs"""
    cur = [frozenset(x) for x in cs]
    changed = True
    while changed:
        changed = False
        for i in range(len(cur)):
            for j in range(i + 1, len(cur)):
                a, b = cur[i], cur[j]
                if a <= b:
                    cur.pop(j)
                    changed = True
                    break
                if b <= a:
                    cur.pop(i)
                    changed = True
                    break
                da, db = a - b, b - a
                if len(da) == 1 and len(db) == 1 and t_.not_(next(iter(da))) is next(iter(db)):
                    cur[i] = a & b
                    cur.pop(j)
                    changed = True
                    break
                if len(da) == 1:
                    x = next(iter(da))
                    nx = t_.not_(x)
                    if nx in db:          # a = K&x, b = K&!x&M : b may drop nothing, a|b = K&(x|M)
                        pass
            if changed:
                break
    return t_.or_(*[t_.and_(*x) for x in cur])


def merge_states(states):
    """merge states sharing a common prefix path; raises NotMergeable"""
    if len(states) == 1:
        return states[0], None
    pre = 0
    m = min(len(s.pc) for s in states)
    while pre < m and all(s.pc[pre] is states[0].pc[pre] for s in states):
        pre += 1
    common = states[0].pc[:pre]
    conds = [s.pc[pre:] for s in states]
    acc = states[-1]
    accs = acc
    for s, cd in reversed(list(zip(states[:-1], conds[:-1]))):
        c = t_.and_(*cd)
        out = State()
        out.heap = {}
        keys = list(s.env) + [k for k in accs.env if k not in s.env]
        newheap = {}
        out.heap = newheap
        for k in s.heap:
            if k in accs.heap:
                newheap[k] = s.heap[k] if s.heap[k] is accs.heap[k] else UNDEF
            else:
                newheap[k] = s.heap[k]
        for k in accs.heap:
            if k not in s.heap:
                newheap[k] = accs.heap[k]
        for k in list(newheap):
            if newheap[k] is UNDEF and k in s.heap and k in accs.heap:
                try:
                    newheap[k] = merge_heapval(c, s.heap[k], accs.heap[k], s, accs, out)
                except NotMergeable:
                    raise NotMergeable('heap %r' % (k,))
        for k in keys:
            try:
                out.env[k] = merge_val(c, s.env.get(k, UNDEF), accs.env.get(k, UNDEF), s, accs, out)
            except NotMergeable:
                raise NotMergeable('variable %s: %r / %r' % (k, s.env.get(k, UNDEF), accs.env.get(k, UNDEF)))
        out.obls = s.obls + tuple(o for o in accs.obls if o not in s.obls)
        out.log = s.log if s.log == accs.log else ('merged', c, s.log, accs.log)
        accs = out
    accs.pc = common
    d = simp_or(conds)
    accs.assume(d)
    return accs, None
