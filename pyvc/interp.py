"""Symbolic interpreter of the Python source of /repo (read on every run)."""
import ast
import os
from fractions import Fraction as Q
from .desugar import plain
from . import terms as t_
from .terms import T, TRUE, FALSE, ZERO, ONE, num, and_, or_, not_, ite
from .values import *
from . import logic
from . import loops
from . import textlib
from . import seqlib

UNROLL = 12
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Module:
    def __init__(self, name, path, interp):
        self.name = name
        self.path = path
        self.src = open(path, encoding='utf-8').read()
        self.tree = plain(ast.parse(self.src))
        self.defs = {}
        self.cache = {}
        self.interp = interp
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.file = '/R/' + name.replace('.', '/') + ('/__init__.py' if self.is_pkg else '.py')
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = ('def', st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name, None, 0)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None, 0)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.defs[a.asname or a.name] = ('import', st.module or '', a.name, st.level)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = ('assign', st, None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.defs[st.target.id] = ('assign', ast.Assign(targets=[st.target], value=st.value, lineno=st.lineno), None)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, ast.If):
                self._scan(st.body)


class Oracle:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.made = []

    def next(self, n):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            self.made.append((self.pos, n))
            self.prefix.append(0)
        self.pos += 1
        return d


NEXT, RET, RAISE, BRK, CNT = 'next', 'return', 'raise', 'break', 'continue'


def lazy(e, f):
    """map(f, x, ...) and filter(f, x) as the generator expressions they mean"""
    if getattr(f, 'name', None) not in ('map', 'filter') or not isinstance(e.func, ast.Name) or e.func.id != f.name or e.keywords or len(e.args) < 2 or \
            any(isinstance(a, ast.Starred) for a in e.args) or f.name == 'filter' and len(e.args) != 2:
        return None
    if not isinstance(e.args[0], (ast.Name, ast.Attribute, ast.Lambda, ast.Constant)):
        return None
    names = ['_item%d' % i for i in range(len(e.args) - 1)]
    load = [ast.Name(n, ast.Load()) for n in names]
    if len(names) == 1:
        it, target = e.args[1], ast.Name(names[0], ast.Store())
    else:
        it = ast.Call(ast.Name('zip', ast.Load()), list(e.args[1:]), [])
        target = ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())
    if isinstance(e.args[0], ast.Constant):
        if f.name != 'filter' or e.args[0].value is not None:
            return None
        val = load[0]
    else:
        val = ast.Call(e.args[0], load, [])
    gen = ast.comprehension(target, it, [val] if f.name == 'filter' else [], 0)
    g = ast.GeneratorExp(load[0] if f.name == 'filter' else val, [gen])
    return ast.fix_missing_locations(ast.copy_location(g, e))


class Interp:
    def __init__(self, root='/repo'):
        self.root = root
        self.modules = {}
        self.facts = ()            # contract preconditions
        self.opaque = {}           # qualname -> handler(interp, st, args, kwargs)
        self.decorated = {}
        self.called = set()        # functions executed or used by contract
        self.oracles = []
        self.depth = 0
        self.initheap = {}         # class attribute dicts
        self.ext = {}              # handlers for external modules, name -> value
        self.budget = 400000
        from . import nplib
        nplib.install(self)
        from . import dslsym
        dslsym.install(self)
        from . import pdlib
        pdlib.install(self)
        from . import filelib
        from . import frames
        filelib.install(self)
        frames.install(self)
        seqlib.install(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            root = VERIF if name.split('.')[0] in ('specs', 'contracts') else self.root
            p = os.path.join(root, *name.split('.'))
            if os.path.isdir(p):
                p = os.path.join(p, '__init__.py')
            else:
                p = p + '.py'
            if not os.path.exists(p):
                return None
            m = Module(name, p, self)
            self.modules[name] = m
        return m

    def lookup_global(self, st, mod, name):
        if ('g', mod.name, name) in st.heap:
            return st.heap[('g', mod.name, name)]
        d = mod.defs.get(name)
        if d is None:
            if name == '__file__':
                return mod.file
            if name == '__name__':
                return mod.name
            return self.builtin(name)
        key = (mod.name, name)
        if d[0] == 'def':
            v = mod.cache.get(name)
            if v is None:
                v = self.make_class(st, mod, d[1]) if isinstance(d[1], ast.ClassDef) else Fn(d[1], mod, name)
                if isinstance(v, Fn):
                    v.defaults = None
                    for dec in reversed(d[1].decorator_list):
                        v = self.call(st, self.eval_in(st, mod, dec), [v], {}, mod)
                mod.cache[name] = v
            if isinstance(v, Cls):
                self.ensure_class(st, v)
            return v
        if d[0] == 'import':
            return self.do_import(st, mod, d[1], d[2], d[3])
        # module-level assignment: evaluated lazily, stored in the heap
        st2 = st.copy()
        st2.env = {}
        node = d[1]
        outs = self.exec_stmt(st2, node, mod)
        if len(outs) != 1 or outs[0][1] != NEXT:
            raise Unsupported('module-level assignment of %s' % name)
        so = outs[0][0]
        st.heap.update(so.heap)
        v = None
        for k, val in so.env.items():
            st.heap[('g', mod.name, k)] = val
        return st.heap[('g', mod.name, name)]

    def do_import(self, st, mod, modname, attr, level):
        if level:
            base = mod.name.split('.')
            if not mod.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (level - 1)]
            full = '.'.join(base + ([modname] if modname else []))
        else:
            full = modname
        if full in self.ext:
            v = self.ext[full]
            if attr is None:
                return v
            return self.getattr_(st, v, attr)
        if full.split('.')[0] in ('pyrtlib', 'specs'):
            m = self.module(full)
            if attr is None:
                return ModV(full, m)
            if m is not None and attr in m.defs:
                return self.lookup_global(st, m, attr)
            sub = self.module(full + '.' + attr)
            if sub is not None:
                return ModV(full + '.' + attr, sub)
            raise Unsupported('import %s from %s' % (attr, full))
        if attr is None:
            return ModV(full)
        return self.getattr_(st, ModV(full), attr)

    def make_class(self, st, mod, node):
        bases = []
        for b in node.bases:
            try:
                bases.append(self.eval_in(st, mod, b))
            except Unsupported:
                bases.append(ExtCls(ast.unparse(b)))
        c = Cls(node.name, mod, node, bases)
        attrs = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind = 'function'
                prop = None
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                        kind = d.id
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'setter'
                    else:
                        self.decorated[id(s)] = ast.unparse(d)
                f = Fn(s, mod, s.name, c, kind)
                f.defaults = None
                if kind == 'property':
                    c.props[s.name] = [f, None]
                elif kind == 'setter':
                    c.props.setdefault(s.name, [None, None])[1] = f
                else:
                    attrs[s.name] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                attrs['\0init'] = attrs.get('\0init', []) + [s]
        c.initattrs = attrs
        c.lazy = attrs.pop('\0init', [])
        return c

    def ensure_class(self, st, c):
        for b in c.bases:
            if isinstance(b, Cls):
                self.ensure_class(st, b)
        if c.loc not in st.heap:
            st.heap[c.loc] = dict(c.initattrs)
            if c.lazy:
                st2 = st.copy()
                st2.env = {}
                d = dict(c.initattrs)
                for s in c.lazy:
                    if isinstance(s, ast.AnnAssign):
                        if s.value is None:
                            continue
                        s = ast.Assign(targets=[s.target], value=s.value, lineno=s.lineno)
                    outs = self.exec_stmt(st2, s, c.module)
                    if len(outs) != 1 or outs[0][1] != NEXT:
                        raise Unsupported('class-level statement')
                    st2 = outs[0][0]
                d.update(st2.env)
                env = st.env
                st.heap.update(st2.heap)
                st.heap[c.loc] = d

    def cls(self, st, qual):
        modn, n = qual.split(':')
        return self.lookup_global(st, self.module(modn), n)

    def function(self, st, qual):
        modn, n = qual.split(':')
        m = self.module(modn)
        if m is None:
            raise Unsupported('no module ' + modn)
        if '.' in n:
            cn, fn = n.split('.')
            if cn not in m.defs:
                raise Unsupported('no class %s' % cn)
            c = self.lookup_global(st, m, cn)
            for k in c.mro():
                f = st.heap[k.loc].get(fn)
                if f is not None:
                    return f
                if fn in k.props:
                    return k.props[fn][0]
            raise Unsupported('no function %s' % qual)
        if n not in m.defs:
            raise Unsupported('no function %s' % qual)
        return self.lookup_global(st, m, n)

    def eval_in(self, st, mod, node):
        saved = st.env
        st.env = {}
        try:
            return self.ev(st, node, mod)
        finally:
            st.env = saved

    # ------------------------------------------------------------ facts
    def allfacts(self, st):
        return tuple(self.facts) + st.pc

    def decide(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return logic.decide(self.allfacts(st), c)

    def simp_cond(self, st, c):
        d = self.decide(st, c)
        return TRUE if d is True else FALSE if d is False else c

    def choose(self, st, alts):
        """alts: [(cond, payload)], exhaustive; returns one payload on this path"""
        feas = []
        for c, p in alts:
            d = self.decide(st, c)
            if d is True:
                return p
            if d is False:
                continue
            feas.append((c, p))
        if len(feas) == 1:
            st.assume(feas[0][0])
            return feas[0][1]
        if not feas:
            raise Unsupported('infeasible choice')
        if not self.oracles:
            raise Unsupported('fork outside a statement')
        i = self.oracles[-1].next(len(feas))
        st.assume(feas[i][0])
        return feas[i][1]

    def oblige(self, st, cond, label):
        """side condition that must hold on this path"""
        if cond is TRUE:
            return
        st.obls = st.obls + ((st.pc, cond, label),)

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('budget exhausted')

    # ------------------------------------------------------------ statements
    def run_forked(self, st, handler):
        outs = []
        pending = [[]]
        n = 0
        while pending:
            prefix = pending.pop()
            n += 1
            if n > 300:
                raise Unsupported('too many paths')
            st1 = st.copy()
            orc = Oracle(prefix)
            self.oracles.append(orc)
            try:
                r = handler(st1)
            except PyRaise as e:
                r = [(st1, RAISE, e.val)]
            finally:
                self.oracles.pop()
            base = orc.prefix
            for pos, k in orc.made:
                for alt in range(1, k):
                    pending.append(base[:pos] + [alt])
            outs += r
        return outs

    def merge(self, outs, kinds=(NEXT,)):
        """merge NEXT outcomes"""
        nxt = [o for o in outs if o[1] == NEXT]
        rest = [o for o in outs if o[1] != NEXT]
        return self.merge_next(nxt) + rest

    def merge_next(self, nxt):
        if len(nxt) <= 1:
            return nxt
        groups = []
        for o in nxt:
            groups.append(o[0])
        # greedy pairwise merging
        try:
            s, _ = merge_states(groups)
            return [(s, NEXT, None)]
        except NotMergeable as e:
            self.last_nomerge = str(e)
        out = []
        for g in groups:
            for i, h in enumerate(out):
                try:
                    s, _ = merge_states([h, g])
                    out[i] = s
                    break
                except NotMergeable:
                    continue
            else:
                out.append(g)
        return [(s, NEXT, None) for s in out]

    def exec_block(self, st, stmts, mod):
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.exec_stmt(c, s, mod):
                    if o[1] == NEXT:
                        nxt.append(o)
                    else:
                        outs.append(o)
            cur = [o[0] for o in self.merge_next(nxt)]
            if not cur:
                break
        return [(c, NEXT, None) for c in cur] + outs

    def exec_stmt(self, st, s, mod):
        self.tick()
        try:
            return self._exec_stmt(st, s, mod)
        except Unsupported as e:
            if not getattr(e, 'where', None):
                e.where = '%s:%s' % (mod.name, getattr(s, 'lineno', '?'))
                e.args = ('%s (at %s)' % (e.args[0] if e.args else '', e.where),)
            raise

    def _exec_stmt(self, st, s, mod):
        if isinstance(s, ast.If):
            return self.exec_if(st, s, mod)
        if isinstance(s, ast.For):
            return self.exec_for(st, s, mod)
        if isinstance(s, ast.While):
            return self.exec_while(st, s, mod)
        if isinstance(s, ast.Try):
            return self.exec_try(st, s, mod)
        if isinstance(s, ast.With):
            def h(st1):
                for it in s.items:
                    v = self.ev(st1, it.context_expr, mod)
                    if it.optional_vars is not None:
                        self.assign(st1, it.optional_vars, v, mod)
                return [(st1, NEXT, None)]
            outs = self.run_forked(st, h)
            res = []
            for o in outs:
                if o[1] == NEXT:
                    res += self.exec_block(o[0], s.body, mod)
                else:
                    res.append(o)
            return res
        if isinstance(s, ast.Pass):
            return [(st, NEXT, None)]
        if isinstance(s, ast.Break):
            return [(st, BRK, None)]
        if isinstance(s, ast.Continue):
            return [(st, CNT, None)]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if isinstance(s, ast.Import):
                    st.env[a.asname or a.name.split('.')[0]] = self.do_import(st, mod, a.name, None, 0)
                else:
                    st.env[a.asname or a.name] = self.do_import(st, mod, s.module or '', a.name, s.level)
            return [(st, NEXT, None)]
        if isinstance(s, ast.FunctionDef):
            f = Fn(s, mod, s.name)
            f.defaults = [self.ev(st, d, mod) for d in s.args.defaults]
            f.closure = st.env
            for dec in reversed(s.decorator_list):
                f = self.call(st, self.ev(st, dec, mod), [f], {}, mod)
            st.env[s.name] = f
            return [(st, NEXT, None)]
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            raise Unsupported('global/nonlocal')

        def h(st1):
            return self.exec_simple(st1, s, mod)
        return self.merge(self.run_forked(st, h))

    def exec_simple(self, st, s, mod):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [(st, NEXT, None)]
            self.ev(st, s.value, mod)
            return [(st, NEXT, None)]
        if isinstance(s, ast.Assign):
            v = self.ev(st, s.value, mod)
            for t in s.targets:
                self.assign(st, t, v, mod)
            return [(st, NEXT, None)]
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(st, s.target, self.ev(st, s.value, mod), mod)
            return [(st, NEXT, None)]
        if isinstance(s, ast.AugAssign):
            self.augassign(st, s, mod)
            return [(st, NEXT, None)]
        if isinstance(s, ast.Return):
            v = self.ev(st, s.value, mod) if s.value is not None else None
            return [(st, RET, v)]
        if isinstance(s, ast.Raise):
            if s.exc is None:
                raise Unsupported('bare raise')
            v = self.ev(st, s.exc, mod)
            if isinstance(v, (ExtCls, Cls)):
                v = Exc(v)
            if isinstance(v, Obj):
                v = Exc(v.cls)
            if not isinstance(v, Exc):
                raise Unsupported('raise of %r' % (v,))
            return [(st, RAISE, v)]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
                else:
                    raise Unsupported('del')
            return [(st, NEXT, None)]
        if isinstance(s, ast.Assert):
            c = self.truth(st, self.ev(st, s.test, mod))
            ok = self.choose(st, [(c, True), (not_(c), False)])
            if not ok:
                raise PyRaise(Exc(ExtCls('AssertionError')))
            return [(st, NEXT, None)]
        raise Unsupported('statement %s' % type(s).__name__)

    def exec_if(self, st, s, mod):
        def h(st1):
            c = self.truth(st1, self.ev(st1, s.test, mod))
            return [(st1, 'cond', c)]
        outs = []
        for o in self.run_forked(st, h):
            if o[1] != 'cond':
                outs.append(o)
                continue
            st1, _, c = o
            d = self.decide(st1, c)
            if d is True:
                outs += self.exec_block(st1, s.body, mod)
                continue
            if d is False:
                outs += self.exec_block(st1, s.orelse, mod) if s.orelse else [(st1, NEXT, None)]
                continue
            a = st1.copy()
            a.assume(c)
            b = st1
            b.assume(not_(c))
            outs += self.exec_block(a, s.body, mod)
            outs += self.exec_block(b, s.orelse, mod) if s.orelse else [(b, NEXT, None)]
        return self.merge(outs)

    def exec_try(self, st, s, mod):
        outs = self.exec_block(st.copy(), s.body, mod)
        res = []
        for o in outs:
            if o[1] == RAISE:
                handled = False
                for hd in s.handlers:
                    if self.exc_matches(o[0], o[2], hd.type, mod):
                        s2 = o[0]
                        if hd.name:
                            s2.env[hd.name] = o[2]
                        res += self.exec_block(s2, hd.body, mod)
                        handled = True
                        break
                if not handled:
                    res.append(o)
            elif o[1] == NEXT and s.orelse:
                res += self.exec_block(o[0], s.orelse, mod)
            else:
                res.append(o)
        if s.finalbody:
            fin = []
            for o in res:
                for f in self.exec_block(o[0], s.finalbody, mod):
                    fin.append((f[0], o[1], o[2]) if f[1] == NEXT else f)
            res = fin
        return self.merge(res)

    EXC_PARENTS = {'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
                   'ValueError': ['Exception'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'],
                   'ZeroDivisionError': ['ArithmeticError', 'Exception'], 'UnboundLocalError': ['NameError', 'Exception'],
                   'NameError': ['Exception'], 'SystemExit': ['BaseException'], 'AssertionError': ['Exception'],
                   'FileNotFoundError': ['OSError', 'Exception']}

    def exc_matches(self, st, e, typ, mod):
        if typ is None:
            return True
        v = self.ev(st, typ, mod)
        vs = v if isinstance(v, tuple) else (v,)
        names = {e.name, 'BaseException'} | set(self.EXC_PARENTS.get(e.name, ['Exception']))
        c = e.cls
        if isinstance(c, Cls):
            for k in c.mro():
                names.add(k.name)
                for b in k.bases:
                    names.add(b.name)
        return any(getattr(x, 'name', None) in names for x in vs)

    # ------------------------------------------------------------ assignment
    def assign(self, st, t, v, mod):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(st, v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(st, e, x, mod)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(st, t.value, mod)
            self.setattr_(st, o, t.attr, v)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(st, t.value, mod)
            i = self.ev_index(st, t.slice, mod)
            self.setitem(st, o, i, v)
            return
        raise Unsupported('assignment target')

    def unpack(self, st, v, n, star=False):
        if star:
            raise Unsupported('starred')
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise PyRaise(Exc(ExtCls('ValueError')))
            return list(v)
        if isinstance(v, PList):
            l = st.heap[v.loc]
            if len(l) != n:
                raise PyRaise(Exc(ExtCls('ValueError')))
            return list(l)
        if isinstance(v, Arr):
            d = v.shape[0]
            if d.op == 'num' and d.args[0] == n:
                return [self.getitem(st, v, num(i)) for i in range(n)]
            raise Unsupported('unpack array')
        if v is None:
            raise PyRaise(Exc(ExtCls('TypeError')))
        raise Unsupported('unpack %r' % (v,))

    def augassign(self, st, s, mod):
        opn = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.load_name(st, s.target.id, mod)
            v = self.ev(st, s.value, mod)
            st.env[s.target.id] = self.inplace(st, opn, cur, v)
            return
        if isinstance(s.target, ast.Attribute):
            o = self.ev(st, s.target.value, mod)
            cur = self.getattr_(st, o, s.target.attr)
            v = self.ev(st, s.value, mod)
            self.setattr_(st, o, s.target.attr, self.inplace(st, opn, cur, v))
            return
        if isinstance(s.target, ast.Subscript):
            o = self.ev(st, s.target.value, mod)
            i = self.ev_index(st, s.target.slice, mod)
            cur = self.getitem(st, o, i)
            v = self.ev(st, s.value, mod)
            if isinstance(cur, Arr):
                # view: in place on the base, then stored back
                nv = self.binop(st, opn, cur, v)
            else:
                nv = self.inplace(st, opn, cur, v)
            self.setitem(st, o, i, nv)
            return
        raise Unsupported('augassign')

    def inplace(self, st, opn, cur, v):
        if isinstance(cur, Arr) and not cur.islist:
            nv = self.binop(st, opn, cur, v)
            if isinstance(nv, Arr):
                if nv.shape != cur.shape:
                    self.check_dims(st, nv.shape, cur.shape)
                if cur.dtype == 'I' and nv.dtype == 'R':
                    raise PyRaise(Exc(ExtCls('UFuncTypeError')))
                f = st.arr_fn(nv)
                self.store_view(st, cur, f)
            else:
                self.store_view(st, cur, lambda idx: nv)
            return cur
        if isinstance(cur, PList):
            if opn == 'Add':
                l = list(st.heap[cur.loc])
                st.heap[cur.loc] = l + self.to_pylist(st, v)
                return cur
        return self.binop(st, opn, cur, v)

    def check_dims(self, st, a, b):
        if len(a) != len(b):
            raise PyRaise(Exc(ExtCls('ValueError')))
        for x, y in zip(a, b):
            if x is not y and not (x is ONE):
                self.oblige(st, t_.eq(x, y), 'shapes agree')

    # ------------------------------------------------------------ array stores
    def store_view(self, st, a, f):
        """a[...] = f(idx) for all idx of the view"""
        b = st.heap[a.loc]
        if b.merged:
            raise Unsupported('write through a merged reference')
        if a.imap is None:
            st.heap[a.loc] = Buf(b.shape, f, b.dtype)
            return
        inv = getattr(a.imap, 'inv', None)
        if inv is None:
            raise Unsupported('write through a non-invertible view')
        old = b

        def g(idx):
            ok, vidx = inv(idx)
            if ok is FALSE:
                return old.at(idx)
            return ite_val(ok, f(vidx), old.at(idx)) if ok is not TRUE else f(vidx)
        st.heap[a.loc] = Buf(b.shape, g, b.dtype)

    def cast(self, dtype, v):
        if dtype == 'I' and isinstance(v, T) and v.sort == 'R':
            return t_.truncf(v)
        if dtype in ('I', 'R') and isinstance(v, T) and v.sort == 'B':
            return t_.ite(v, ONE, ZERO)
        if dtype == 'R' and isinstance(v, C):
            return v.re
        return v

    # ------------------------------------------------------------ loops
    def exec_for(self, st, s, mod):
        def h(st1):
            return [(st1, 'it', self.ev(st1, s.iter, mod))]
        outs = []
        for o in self.run_forked(st, h):
            if o[1] != 'it':
                outs.append(o)
                continue
            outs += self.for_over(o[0], s, o[2], mod)
        return self.merge(outs)

    def iter_of(self, st, v):
        """-> list of values (concrete) or Seq"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PList):
            h = st.heap[v.loc]
            if isinstance(h, loops.SymList):
                return Seq(h.n, h.item)
            if isinstance(h, seqlib.Picked):
                return h
            return list(h)
        if isinstance(v, PDict):
            return list(st.heap[v.loc].keys())
        if isinstance(v, list):
            return v
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Rng):
            n = self.range_len(st, v)
            if n.op == 'num' and n.args[0] <= UNROLL:
                return [t_.add(v.a, t_.mul(v.s, num(i))) for i in range(int(n.args[0]))]
            a, s = v.a, v.s
            return Seq(n, lambda k: t_.add(a, t_.mul(s, k)))
        if isinstance(v, seqlib.Picked):
            return v
        if isinstance(v, seqlib.Archive):
            return self.iter_of(st, v.raw(st))
        if isinstance(v, Seq):
            if v.n.op == 'num' and v.n.args[0] <= UNROLL:
                return [v.item(num(i)) for i in range(int(v.n.args[0]))]
            return v
        if isinstance(v, Arr):
            n = v.shape[0]
            if n.op == 'num' and n.args[0] <= UNROLL:
                return [self.getitem(st, v, num(i)) for i in range(int(n.args[0]))]
            return Seq(n, lambda k, v=v: self.getitem(st, v, k, checked=True))
        if isinstance(v, Opq) and v.name.startswith('ncgroups|'):
            return list(self.call(st, self.getattr_(st, v, 'keys'), [], {}))
        raise Unsupported('iteration over %r' % (v,))

    def range_len(self, st, r):
        if r.s is ONE:
            n = t_.sub(r.b, r.a)
        elif r.s is num(-1):
            n = t_.sub(r.a, r.b)
        elif r.s.op == 'num':
            k = r.s.args[0]
            d = t_.sub(r.b, r.a) if k > 0 else t_.sub(r.a, r.b)
            k = abs(k)
            n = t_.floorf(t_.div(t_.add(d, num(k - 1)), num(k)))
        else:
            raise Unsupported('range step')
        if n.op == 'num':
            return num(max(0, n.args[0]))
        if self.decide(st, t_.le0(t_.neg(n))) is True:
            return n
        return t_.clamp0(n)

    def for_over(self, st, s, itv, mod):
        it = self.iter_of(st, itv)
        if isinstance(it, list):
            cur = [st]
            outs = []
            done = []
            for x in it:
                nxt = []
                for c in cur:
                    self.oracles.append(Oracle([]))
                    try:
                        self.assign(c, s.target, x, mod)
                        if self.oracles[-1].made:
                            raise Unsupported('fork in a loop target')
                    finally:
                        self.oracles.pop()
                    for o in self.exec_block(c, s.body, mod):
                        if o[1] in (NEXT, CNT):
                            nxt.append((o[0], NEXT, None))
                        elif o[1] == BRK:
                            done.append((o[0], NEXT, None))
                        else:
                            outs.append(o)
                cur = [o[0] for o in self.merge_next(nxt)]
                if not cur:
                    break
            if s.orelse:
                fin = []
                for c in cur:
                    for o in self.exec_block(c, s.orelse, mod):
                        (fin if o[1] == NEXT else outs).append(o)
                return self.merge_next(fin + done) + outs
            return self.merge_next([(c, NEXT, None) for c in cur] + done) + outs
        from . import loops

        def bind(st1, k):
            if isinstance(it, seqlib.Picked):
                c = it.cond(k)
                if not self.choose(st1, [(c, True), (not_(c), False)]):
                    return CNT
                self.assign(st1, s.target, it.get(k), mod)
                return None
            if isinstance(itv, Arr) and not isinstance(itv, Rng):
                v = self.getitem(st1, itv, k, checked=True)
            else:
                v = it.item(k) if not getattr(it, 'live', None) else it.live(st1, k)
            self.assign(st1, s.target, v, mod)
        return loops.summarise(self, st, it.top if isinstance(it, seqlib.Picked) else it.n, bind, s.body, s.orelse, mod)

    def exec_while(self, st, s, mod):
        from . import loops
        return loops.exec_while(self, st, s, mod)

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kwargs, mod=None):
        self.tick()
        if isinstance(f, Prim):
            return f.fn(self, st, args, kwargs)
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.self] + list(args), kwargs, mod)
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(st, f, args, kwargs)
        if isinstance(f, ExtCls):
            return self.ext_instantiate(st, f, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    def ext_instantiate(self, st, f, args, kwargs):
        if f.name.endswith('Error') or f.name in ('SystemExit', 'Exception', 'Warning', 'UserWarning'):
            return Exc(f, tuple(args))
        h = self.extclass.get(f.name)
        if h:
            return h(self, st, args, kwargs)
        raise Unsupported('call of external class ' + f.name)

    def is_exception(self, c):
        for k in c.mro():
            for b in k.bases:
                if isinstance(b, ExtCls) and (b.name.endswith('Error') or b.name.endswith('Exception')):
                    return True
        return False

    def instantiate(self, st, c, args, kwargs):
        self.ensure_class(st, c)
        if self.is_exception(c):
            return Exc(c, tuple(args))
        o = Obj(st.alloc({}), c)
        init = self.find_attr(st, c, '__init__')
        for dec in c.node.decorator_list:
            if ast.unparse(dec) not in ('dataclass', 'dataclasses.dataclass', 'dataclass()'):
                raise Unsupported('class decorator ' + ast.unparse(dec))
            if init is None:
                self.fill_dataclass(st, c, o, args, kwargs)
                return o
        if init is not None:
            self.call(st, init, [o] + list(args), kwargs)
        return o

    def fill_dataclass(self, st, c, o, args, kwargs):
        names = []
        for k in reversed(c.mro()):
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id not in names:
                    if s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name, ast.UnaryOp)):
                        raise Unsupported('default of field ' + s.target.id)
                    names.append(s.target.id)
        if len(args) > len(names) or any(k not in names[len(args):] for k in kwargs):
            raise PyRaise(Exc(ExtCls('TypeError')))
        at = dict(zip(names, args))
        at.update(kwargs)
        for n in names:
            if n not in at:
                at[n] = self.find_attr(st, c, n)
                if at[n] is None and not any(n in st.heap[k.loc] for k in c.mro()):
                    raise PyRaise(Exc(ExtCls('TypeError')))
        h = dict(st.heap[o.loc])
        h.update((n, at[n]) for n in names)
        st.heap[o.loc] = h
        post = self.find_attr(st, c, '__post_init__')
        if post is not None:
            self.call(st, post, [o], {})

    def find_attr(self, st, c, name):
        for k in c.mro():
            if k.loc not in st.heap:
                self.ensure_class(st, k)
            d = st.heap[k.loc]
            if name in d:
                return d[name]
        return None

    def find_prop(self, st, c, name):
        """property visible on instances of c, unless shadowed by a class attribute assignment"""
        for k in c.mro():
            if k.loc not in st.heap:
                self.ensure_class(st, k)
            if name in st.heap[k.loc]:
                return None
            if name in k.props:
                return k.props[name]
        return None

    def bind_args(self, st, f, args, kwargs):
        a = f.node.args
        env = {}
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        if len(args) > len(names):
            if not a.vararg:
                raise PyRaise(Exc(ExtCls('TypeError')))
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    raise PyRaise(Exc(ExtCls('TypeError')))
                env[n] = kw.pop(n)
        if kw:
            if not a.kwarg:
                raise PyRaise(Exc(ExtCls('TypeError')))
            env[a.kwarg.arg] = PDict(st.alloc(kw))
        elif a.kwarg:
            env[a.kwarg.arg] = PDict(st.alloc({}))
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            n = names[len(names) - nd + i]
            if n not in env:
                key = ('default', f.qual, n)
                if key not in st.heap:
                    st.heap[key] = f.defaults[i] if f.defaults is not None else self.eval_in(st, f.module, d)
                env[n] = st.heap[key]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is None:
                    raise PyRaise(Exc(ExtCls('TypeError')))
                key = ('default', f.qual, x.arg)
                if key not in st.heap:
                    st.heap[key] = self.eval_in(st, f.module, d)
                env[x.arg] = st.heap[key]
        for n in names:
            if n not in env:
                raise PyRaise(Exc(ExtCls('TypeError')))
        return env

    def call_fn(self, st, f, args, kwargs):
        if id(f.node) in self.decorated:
            raise Unsupported('decorator ' + self.decorated[id(f.node)])
        if f.qual in self.opaque:
            self.called.add(f.qual)
            h = self.opaque[f.qual]
            env = self.bind_args(st, f, args, kwargs)
            return h(self, st, env)
        self.called.add(f.qual)
        self.depth += 1
        if self.depth > 30:
            self.depth -= 1
            raise Unsupported('recursion in ' + f.qual)
        try:
            env = self.bind_args(st, f, args, kwargs)
            outs = self.run_body(st, f, env)
        finally:
            self.depth -= 1
        st_out, v = self.pick(st, outs)
        return v

    def run_body(self, st, f, env):
        """outcomes [(state, RET|RAISE, value)] of the body; states keep the callee env"""
        st1 = st.copy()
        e = dict(f.closure) if f.closure else {}
        e.update(env)
        st1.env = e
        if f.cls is not None:
            st1.env['__class__'] = f.cls
        if isinstance(f.node, ast.Lambda):
            try:
                return [(st1, RET, self.ev(st1, f.node.body, f.module))]
            except PyRaise as e:
                return [(st1, RAISE, e.val)]
        outs = self.exec_block(st1, f.node.body, f.module)
        return [(o[0], RET, None) if o[1] == NEXT else o for o in outs]

    def pick(self, st, outs):
        """continue the caller on one of the callee outcomes (merging what can be merged)"""
        outs = self.merge_returns(outs)
        base = len(st.pc)
        if len(outs) == 1:
            o = outs[0]
        else:
            alts = []
            for o in outs:
                pre = 0
                m = min(len(o[0].pc), len(st.pc))
                while pre < m and o[0].pc[pre] is st.pc[pre]:
                    pre += 1
                alts.append((and_(*o[0].pc[pre:]), o))
            o = self.choose(st, alts)
        so = o[0]
        st.heap = so.heap
        pc = st.pc
        st.pc = so.pc
        st.obls = so.obls
        for c in pc:
            if c not in st.pc:
                st.pc = st.pc + (c,)
        if o[1] == RAISE:
            raise PyRaise(o[2])
        if o[1] != RET:
            raise Unsupported('completion ' + o[1])
        return so, o[2]

    def merge_returns(self, outs):
        rets = [o for o in outs if o[1] == RET]
        rest = [o for o in outs if o[1] != RET]
        if len(rets) > 1:
            groups = []
            for o in rets:
                s = o[0]
                s2 = s.copy()
                s2.env = {'\0ret': o[2]}
                for i, g in enumerate(groups):
                    try:
                        m, _ = merge_states([g, s2])
                        groups[i] = m
                        break
                    except NotMergeable:
                        continue
                else:
                    groups.append(s2)
            rets = [(g, RET, g.env['\0ret']) for g in groups]
        return rets + rest

    # ------------------------------------------------------------ attributes
    def getattr_(self, st, o, name):
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                p = self.find_prop(st, o.cls, name)
                if p is not None:
                    if p[0] is None:
                        raise PyRaise(Exc(ExtCls('AttributeError')))
                    return self.call(st, p[0], [o], {})
            d = st.heap[o.loc]
            if name in d:
                v = d[name]
                if isinstance(v, Maybe):
                    if self.choose(st, [(v.cond, True), (not_(v.cond), False)]):
                        return v.val
                elif v is not UNDEF:
                    return v
            if isinstance(o.cls, Cls):
                v = self.find_attr(st, o.cls, name)
                if v is not None or self.has_attr_none(st, o.cls, name):
                    if isinstance(v, Fn):
                        if v.kind == 'staticmethod':
                            return v
                        if v.kind == 'classmethod':
                            return Bound(v, o.cls)
                        return Bound(v, o)
                    return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return PDict(o.loc)
            if isinstance(o.cls, ExtCls) and o.cls.name.startswith('module:'):
                return Opq('value of an earlier load: ' + name)
            raise PyRaise(Exc(ExtCls('AttributeError')))
        if isinstance(o, Cls):
            self.ensure_class(st, o)
            v = self.find_attr(st, o, name)
            if v is None and not self.has_attr_none(st, o, name):
                if name == '__name__':
                    return o.name
                for k in o.mro():
                    if name in k.props:
                        return Opq('property')
                raise PyRaise(Exc(ExtCls('AttributeError')))
            if isinstance(v, Fn) and v.kind == 'classmethod':
                return Bound(v, o)
            return v
        if isinstance(o, ModV):
            if o.mod is not None:
                if name in o.mod.defs:
                    return self.lookup_global(st, o.mod, name)
                sub = self.module(o.name + '.' + name)
                if sub is not None:
                    return ModV(o.name + '.' + name, sub)
                raise PyRaise(Exc(ExtCls('AttributeError')))
            full = o.name + '.' + name
            if full in self.ext:
                return self.ext[full]
            if any(k.startswith(full + '.') for k in self.ext):
                return ModV(full, None)
            raise Unsupported('external ' + full)
        return self.attr_prim(st, o, name)

    def has_attr_none(self, st, c, name):
        for k in c.mro():
            if name in st.heap.get(k.loc, {}):
                return True
        return False

    def setattr_(self, st, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                p = self.find_prop(st, o.cls, name)
                if p is not None:
                    if p[1] is None:
                        raise PyRaise(Exc(ExtCls('AttributeError')))
                    self.call(st, p[1], [o, v], {})
                    return
            d = dict(st.heap[o.loc])
            d[name] = v
            st.heap[o.loc] = d
            return
        if isinstance(o, Cls):
            self.ensure_class(st, o)
            d = dict(st.heap[o.loc])
            d[name] = v
            st.heap[o.loc] = d
            return
        if isinstance(o, ModV):
            st.heap[('g', o.name, name)] = v
            return
        raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ expressions
    def load_name(self, st, n, mod):
        if n in st.env:
            v = st.env[n]
            if isinstance(v, Maybe):
                if self.choose(st, [(v.cond, True), (not_(v.cond), False)]):
                    st.env[n] = v.val
                    return v.val
                raise PyRaise(Exc(ExtCls('UnboundLocalError')))
            if v is POISON:
                raise Unsupported('value of %s carried by a loop' % n)
            if v is UNDEF:
                raise PyRaise(Exc(ExtCls('UnboundLocalError')))
            return v
        return self.lookup_global(st, mod, n)

    def truth(self, st, v):
        """boolean term (or concrete) of a value"""
        if isinstance(v, T):
            if v.sort == 'B':
                return v
            return not_(t_.eq0(v))
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, SStr):
            return not_(v.is_(''))
        if isinstance(v, SText):
            return TRUE if v.chars else FALSE
        if isinstance(v, (str, tuple)):
            return TRUE if len(v) else FALSE
        if isinstance(v, PList):
            if isinstance(st.heap[v.loc], loops.SymList):
                return t_.lt(ZERO, st.heap[v.loc].n)
            if isinstance(st.heap[v.loc], seqlib.Picked):
                return not_(st.heap[v.loc].empty())
            return TRUE if len(st.heap[v.loc]) else FALSE
        if isinstance(v, PDict):
            return TRUE if len(st.heap[v.loc]) else FALSE
        if isinstance(v, Arr):
            if v.islist:
                return not_(t_.le0(v.shape[0]))
            if all(d is ONE for d in v.shape):
                return self.truth(st, st.arr_at(v, (ZERO,) * len(v.shape)))
            raise Unsupported('truth of an array')
        if isinstance(v, C):
            return not_(and_(t_.eq0(v.re), t_.eq0(v.im)))
        if isinstance(v, (Obj, Cls, Fn, Bound, ModV, Prim, ExtCls, Opq)):
            return TRUE
        raise Unsupported('truth of %r' % (v,))

    def ev(self, st, e, mod):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(st, e, mod)

    def ev_Constant(self, st, e, mod):
        v = e.value
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return t_.NAN
            return num(v)
        if isinstance(v, complex):
            return C(num(v.real), num(v.imag))
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported('constant %r' % (v,))

    def ev_Name(self, st, e, mod):
        return self.load_name(st, e.id, mod)

    def ev_Tuple(self, st, e, mod):
        return tuple(self.ev_elts(st, e.elts, mod))

    def ev_elts(self, st, elts, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.to_pylist(st, self.ev(st, x.value, mod))
            else:
                out.append(self.ev(st, x, mod))
        return out

    def to_pylist(self, st, v):
        it = self.iter_of(st, v)
        if isinstance(it, Seq):
            if it.n.op == 'num' and it.n.args[0] <= 200:
                return [it.item(num(i)) for i in range(int(it.n.args[0]))]
            raise Unsupported('symbolic sequence as list')
        return it

    def ev_List(self, st, e, mod):
        return PList(st.alloc(self.ev_elts(st, e.elts, mod)))

    def ev_Set(self, st, e, mod):
        return tuple(self.ev_elts(st, e.elts, mod))

    def ev_Dict(self, st, e, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(st, v, mod)
                d.update(st.heap[o.loc])
            else:
                d[self.key(self.ev(st, k, mod))] = self.ev(st, v, mod)
        return PDict(st.alloc(d))

    def key(self, k):
        if isinstance(k, (str, type(None))):
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, T) and k.op in ('num', 'true', 'false'):
            return k
        raise Unsupported('symbolic dict key')

    def ev_JoinedStr(self, st, e, mod):
        from . import frames
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts += list(v.value)
            else:
                x = self.ev(st, v.value, mod)
                spec = ''
                if v.format_spec is not None:
                    if not all(isinstance(q, ast.Constant) for q in v.format_spec.values):
                        return Opq('str')
                    spec = ''.join(q.value for q in v.format_spec.values)
                s = frames.render(self, st, x, spec) if v.conversion == -1 else None
                if s is None:
                    return Opq('str')
                parts += s
        return textlib.make(parts)

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if x is None:
            return 'None'
        if isinstance(x, T) and x.op == 'num' and x.args[0].denominator == 1:
            return str(x.args[0].numerator)
        return None

    def ev_UnaryOp(self, st, e, mod):
        v = self.ev(st, e.operand, mod)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            return self.map1(st, v, lambda x: C(t_.neg(x.re), t_.neg(x.im)) if isinstance(x, C) else t_.neg(self.numt(x)))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.map1(st, v, lambda x: not_(x) if x.sort == 'B' else t_.sub(num(-1), x))
        raise Unsupported('unary')

    def numt(self, x):
        if isinstance(x, T):
            return t_.ite(x, ONE, ZERO) if x.sort == 'B' else x
        raise Unsupported('number expected, got %r' % (x,))

    def ev_BinOp(self, st, e, mod):
        a = self.ev(st, e.left, mod)
        b = self.ev(st, e.right, mod)
        return self.binop(st, type(e.op).__name__, a, b)

    def ev_BoolOp(self, st, e, mod):
        isand = isinstance(e.op, ast.And)
        vals = e.values
        v = self.ev(st, vals[0], mod)
        for nx in vals[1:]:
            c = self.truth(st, v)
            d = self.decide(st, c)
            if d is True:
                if not isand:
                    return v
                v = self.ev(st, nx, mod)
                continue
            if d is False:
                if isand:
                    return v
                v = self.ev(st, nx, mod)
                continue
            # symbolic: evaluate the rest under the guard, without leaking the guard
            st2 = st.copy()
            st2.assume(c if isand else not_(c))
            ok = True
            w = None
            try:
                h0 = dict(st2.heap)
                no = len(self.oracles[-1].made) if self.oracles else 0
                w = self.ev(st2, nx, mod)
                if self.oracles and len(self.oracles[-1].made) != no:
                    ok = False
            except PyRaise:
                ok = False
            if ok and isinstance(w, T) and isinstance(v, T) and all(st.heap.get(k) is x for k, x in st2.heap.items() if k in st.heap):
                for k, x in st2.heap.items():
                    st.heap.setdefault(k, x)
                st.obls = st2.obls
                wc = self.truth(st2, w)
                if w.sort == 'B' and v.sort == 'B':
                    v = and_(c, wc) if isand else or_(c, wc)
                else:
                    v = ite_val(c, w, v) if isand else ite_val(c, v, w)
                continue
            if self.choose(st, [(c, True), (not_(c), False)]):
                if not isand:
                    return v
                v = self.ev(st, nx, mod)
            else:
                if isand:
                    return v
                v = self.ev(st, nx, mod)
        return v

    def ev_IfExp(self, st, e, mod):
        c = self.truth(st, self.ev(st, e.test, mod))
        d = self.decide(st, c)
        if d is True:
            return self.ev(st, e.body, mod)
        if d is False:
            return self.ev(st, e.orelse, mod)
        if self.choose(st, [(c, True), (not_(c), False)]):
            return self.ev(st, e.body, mod)
        return self.ev(st, e.orelse, mod)

    def ev_Compare(self, st, e, mod):
        left = self.ev(st, e.left, mod)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(st, r, mod)
            c = self.compare(st, type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                res = and_(self.truth(st, res), self.truth(st, c))
            left = right
        return res

    def ev_Attribute(self, st, e, mod):
        o = self.ev(st, e.value, mod)
        return self.getattr_(st, o, e.attr)

    def ev_Subscript(self, st, e, mod):
        if isinstance(e.value, ast.Subscript):
            inner = e.value
            o = self.ev(st, inner.value, mod)
            i = self.ev_index(st, inner.slice, mod)
            if isinstance(o, Arr) and not isinstance(i, str):
                from .nplib import get_arr
                o = get_arr(self, st, o, i, collapse=False) if type(o) is Arr else self.getitem(st, o, i)
            else:
                o = self.getitem(st, o, i)
        else:
            o = self.ev(st, e.value, mod)
        i = self.ev_index(st, e.slice, mod)
        return self.getitem(st, o, i)

    def ev_index(self, st, s, mod):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(st, x, mod) for x in s.elts)
        if isinstance(s, ast.Slice):
            return Slice(self.ev(st, s.lower, mod) if s.lower else None,
                         self.ev(st, s.upper, mod) if s.upper else None,
                         self.ev(st, s.step, mod) if s.step else None)
        return self.ev(st, s, mod)

    def ev_Starred(self, st, e, mod):
        raise Unsupported('starred')

    def ev_Lambda(self, st, e, mod):
        f = Fn(e, mod, '<lambda>')
        f.defaults = [self.ev(st, d, mod) for d in e.args.defaults]
        f.closure = dict(st.env)
        return f

    def ev_NamedExpr(self, st, e, mod):
        v = self.ev(st, e.value, mod)
        st.env[e.target.id] = v
        return v

    def ev_Call(self, st, e, mod):
        # super().__init__()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) \
                and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            selfv = None
            args0 = e.func.value.args
            if len(args0) == 2:
                cls = self.ev(st, args0[0], mod)
                selfv = self.ev(st, args0[1], mod)
            else:
                cls = st.env.get('__class__')
                selfv = st.env.get('self')
            m = None
            for k in (selfv.cls.mro() if isinstance(selfv, Obj) else cls.mro()):
                if k is cls:
                    m = 1
                    continue
                if m:
                    f = st.heap[k.loc].get(e.func.attr)
                    if f is not None:
                        args, kwargs = self.ev_args(st, e, mod)
                        return self.call(st, f, [selfv] + args, kwargs)
            return None
        f = self.ev(st, e.func, mod)
        g = lazy(e, f)
        if g is not None and any(not isinstance(self.iter_of(st, self.ev(st, a, mod)), list) for a in e.args[1:]):
            return self.ev(st, g, mod)
        args, kwargs = self.ev_args(st, e, mod)
        if len(args) == 1 and isinstance(args[0], seqlib.Unzipped):
            return list(args[0].parts) if getattr(f, 'name', None) == 'zip' else seqlib.unsupported('zip of unpacked items')
        return self.call(st, f, args, kwargs, mod)

    def ev_args(self, st, e, mod):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value, mod)
                p = seqlib.unzipped(self, st, v) if isinstance(e.func, ast.Name) and e.func.id == 'zip' else None
                if p is not None:
                    if len(e.args) != 1 or e.keywords:
                        raise Unsupported('zip of unpacked items')
                    return [p], {}
                args += self.to_pylist(st, v)
            else:
                args.append(self.ev(st, a, mod))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(st, k.value, mod)
                if isinstance(d, PDict):
                    kwargs.update(st.heap[d.loc])
                else:
                    raise Unsupported('** of %r' % (d,))
            else:
                kwargs[k.arg] = self.ev(st, k.value, mod)
        return args, kwargs

    def ev_ListComp(self, st, e, mod):
        return self.comp(st, e, mod, 'list')

    def ev_GeneratorExp(self, st, e, mod):
        return self.comp(st, e, mod, 'list')

    def ev_SetComp(self, st, e, mod):
        raise Unsupported('set comprehension')

    def ev_DictComp(self, st, e, mod):
        return self.comp(st, e, mod, 'dict')

    def comp(self, st, e, mod, kind):
        saved = dict(st.env)
        out = []

        def rec(gi):
            if gi == len(e.generators):
                if kind == 'dict':
                    out.append((self.key(self.ev(st, e.key, mod)), self.ev(st, e.value, mod)))
                else:
                    out.append(self.ev(st, e.elt, mod))
                return None
            g = e.generators[gi]
            it = self.iter_of(st, self.ev(st, g.iter, mod))
            if isinstance(it, Seq):
                if len(e.generators) == 1 and not g.ifs and kind == 'list':
                    return self.symcomp(st, it, g.target, e.elt, mod)
                if len(e.generators) == 1 and kind == 'list':
                    return self.filtercomp(st, it, g, e.elt, mod)
                it = self.to_pylist(st, it)
            if isinstance(it, seqlib.Picked):
                if len(e.generators) == 1 and kind == 'list':
                    return self.filtercomp(st, it, g, e.elt, mod)
                raise Unsupported('comprehension over a filtered sequence')
            for x in it:
                self.assign(st, g.target, x, mod)
                ok = True
                for c in g.ifs:
                    cc = self.truth(st, self.ev(st, c, mod))
                    if not self.choose(st, [(cc, True), (not_(cc), False)]):
                        ok = False
                        break
                if ok:
                    r = rec(gi + 1)
                    if r is not None:
                        return r
            return None
        r = rec(0)
        env2 = st.env
        st.env = saved
        if r is not None:
            return r
        if kind == 'dict':
            return PDict(st.alloc(dict(out)))
        return PList(st.alloc(out))

    def filtercomp(self, st, it, g, elt, mod):
        """[elt for target in it if ...], symbolic length"""
        p = it if isinstance(it, seqlib.Picked) else seqlib.Picked(it.n, lambda q: TRUE, it.item)
        q = t_.fresh('k', 'I')
        t_.SIGN[q.args[0]] = '0+'
        base = st.copy()
        for c in (t_.le0(t_.neg(q)), t_.lt(q, p.top), p.cond(q)):
            base.assume(c)

        def merged(b, f):
            outs = self.run_forked(b, f)
            if any(o[1] != RET for o in outs):
                raise Unsupported('exception inside a comprehension')
            outs = self.merge_returns(outs)
            if len(outs) != 1:
                raise Unsupported('comprehension does not merge')
            s, _, v = outs[0]
            for o in s.obls:
                if o not in st.obls:
                    st.obls = st.obls + (o,)
            return s, v

        def conds(s):
            self.assign(s, g.target, p.get(q), mod)
            r = TRUE
            for c in g.ifs:
                v = self.truth(s, self.ev(s, c, mod))
                if v is FALSE or v is not TRUE and not self.choose(s, [(v, True), (not_(v), False)]):
                    r = FALSE
                    break
            return [(s, RET, r)]
        _, c = merged(base.copy(), conds)
        b2 = base.copy()
        b2.assume(c)

        def value(s):
            self.assign(s, g.target, p.get(q), mod)
            return [(s, RET, self.ev(s, elt, mod))]
        _, v = merged(b2, value)
        seqlib.map_val(v, lambda t: t)
        return PList(st.alloc(seqlib.Picked(p.top, lambda k: and_(p.cond(k), t_.subst(c, {q: k})), lambda k: seqlib.map_val(v, lambda t: t_.subst(t, {q: k})))))

    def symcomp(self, st, seq, target, elt, mod):
        """[elt for target in seq], symbolic length: closure over the index"""
        base = st.copy()

        def item(idx):
            s2 = base.copy()
            k = idx[0]
            if k.op == 'var':
                s2.assume(t_.le0(t_.neg(k)))
                s2.assume(t_.lt(k, seq.n))
            self.oracles.append(Oracle([]))
            try:
                self.assign(s2, target, seq.item(k), mod)
                v = self.ev(s2, elt, mod)
                if self.oracles[-1].made:
                    raise Unsupported('fork in comprehension')
            finally:
                self.oracles.pop()
            if isinstance(v, (T, C, Comp)):
                return v
            if isinstance(v, Arr):
                return v, s2.arr_fn(v)
            raise Unsupported('comprehension value')
        k0 = t_.fresh('k', 'I')
        probe = item((k0,))
        if isinstance(probe, Comp):
            return PList(st.alloc(loops.SymList(seq.n, lambda i: item((i,)))))
        if isinstance(probe, tuple):
            # a list of arrays of one shape: rows of one array
            sh = probe[0].shape
            if any(k0 in t_.fvs(d) for d in sh):
                raise Unsupported('comprehension of arrays of different lengths')
            return st.new_arr((seq.n,) + tuple(sh), lambda idx: item(idx[:1])[1](idx[1:]), probe[0].dtype, islist=True)
        dt = 'C' if isinstance(probe, C) else probe.sort
        return st.new_arr((seq.n,), item, dt, islist=True)
