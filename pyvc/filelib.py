"""Data files: paths, text tables, NetCDF groups, and the modules that read them (executed by reload)."""
import ast
import json
import os
import posixpath
import subprocess
from . import terms as t_
from .terms import num, ZERO, ONE
from .values import *
from . import nplib

ROOT = '/R'                     # stands for the working tree in paths
_SHAPES = {}


def real(I, path):
    if not isinstance(path, str) or not path.startswith(ROOT + '/'):
        raise Unsupported('file %r' % (path,))
    p = os.path.join(I.root, path[len(ROOT) + 1:])
    if not os.path.exists(p):
        raise PyRaise(Exc(ExtCls('FileNotFoundError')))
    return p


def groups(path):
    """{group: {variable: shape}} of a NetCDF file, the root under the empty name"""
    if path not in _SHAPES:
        src = ("import json,sys;from netCDF4 import Dataset;nc=Dataset(sys.argv[1]);"
               "print(json.dumps({**{g:{k:v.shape for k,v in nc.groups[g].variables.items()} for g in nc.groups},'':{k:v.shape for k,v in nc.variables.items()}}))")
        out = subprocess.run(['/opt/venv/bin/python', '-c', src, path], capture_output=True, text=True, check=True).stdout
        _SHAPES[path] = json.loads(out)
    return _SHAPES[path]


def text_shape(path):
    rows = [x.split() for x in open(path) if x.strip() and not x.startswith('#')]
    return len(rows), len(rows[0])


def table(I, st, path):
    """np.loadtxt: any content, of the shape of the file"""
    n, m = text_shape(real(I, path))
    name = 'file:' + posixpath.basename(path)
    return st.new_arr((num(n), num(m)), lambda ix: t_.sel(name, *ix))


def variable(I, st, path, group, var):
    name = 'nc:%s:%s:%s' % (posixpath.basename(path), group, var)
    shape = groups(real(I, path))[group][var]
    return st.new_arr(tuple(num(k) for k in shape), lambda ix: t_.sel(name, *ix) if ix else t_.app(name))


def memory(st, path, var):
    """variable of a file of the input domain"""
    if not isinstance(path, str) or ('memfile', path) not in st.heap:
        raise Unsupported('file %r' % (path,))
    f = st.heap[('memfile', path)]
    if var not in f:
        raise PyRaise(Exc(ExtCls('KeyError')))
    return f[var]


def submodule(I, st, full):
    """the module object; before it is loaded by the code at hand it holds values of any earlier load"""
    k = ('module', full)
    if k not in st.heap:
        m = I.module(full)
        if m is None:
            raise PyRaise(Exc(ExtCls('ImportError')))
        st.heap[k] = st.alloc({})
    return Obj(st.heap[k], ExtCls('module:' + full))


def install(I):
    from .nplib import Prim
    ext = I.ext
    attrs, items = I.opq_attrs, I.opq_items

    def path_of(f):
        def h(I, st, a, k):
            if not all(isinstance(x, str) for x in a):
                raise Unsupported('path %r' % (a,))
            return f(*a)
        return h
    ext['os.path.dirname'] = Prim('dirname', path_of(posixpath.dirname))
    ext['os.path.abspath'] = Prim('abspath', path_of(posixpath.normpath))
    ext['os.path.realpath'] = ext['os.path.abspath']
    ext['os.path.basename'] = Prim('basename', path_of(posixpath.basename))
    def join(I, st, a, k):
        if a and isinstance(a[-1], SText) and all(isinstance(x, str) for x in a[:-1]) and isinstance(a[-1].chars[0], str) and a[-1].chars[0] != '/':
            return SText(tuple(posixpath.join(*(a[:-1] + [''] if isinstance(a, list) else a[:-1] + ('',)))) + a[-1].chars)
        return path_of(posixpath.join)(I, st, a, k)
    ext['os.path.join'] = Prim('join', join)
    ext['posixpath.join'] = ext['os.path.join']
    ext['os.path.exists'] = Prim('exists', lambda I, st, a, k: t_.TRUE)
    ext['numpy.loadtxt'] = Prim('loadtxt', lambda I, st, a, k: table(I, st, a[0]) if not k else _no('loadtxt options'))

    def _no(what):
        raise Unsupported(what)

    # netCDF4
    ext['netCDF4.Dataset'] = Prim('Dataset', lambda I, st, a, k: Opq('nc|' + a[0]))

    def nc_attr(I, st, o, name):
        p = o.name.split('|')
        if len(p) == 2 and name == 'variables' and ('memfile', p[1]) in st.heap:
            return Opq('memvars|' + p[1])
        if len(p) == 2 and name == 'variables':
            real(I, p[1])
            return Opq('ncvars|%s|' % p[1])
        if len(p) == 2 and name == 'groups':
            return Opq('ncgroups|' + p[1])
        if len(p) == 2 and name in ('close', 'set_auto_mask'):
            return Prim(name, lambda I, st, a, k: None)
        raise Unsupported('NetCDF dataset .' + name)
    attrs['nc|'] = nc_attr

    def groups_attr(I, st, o, name):
        names = tuple(g for g in groups(real(I, o.name.split('|')[1])) if g)
        if name == 'keys':
            return Prim(name, lambda I, st, a, k: names)
        raise Unsupported('NetCDF groups .' + name)
    attrs['ncgroups|'] = groups_attr

    def group(I, st, o, i):
        p = o.name.split('|')[1]
        if not i or i not in groups(real(I, p)):
            raise PyRaise(Exc(ExtCls('KeyError')))
        return Opq('ncgroup|%s|%s' % (p, i))
    items['ncgroups|'] = group

    def memvar(I, st, o, i):
        memory(st, o.name.split('|')[1], i)
        return Opq('memvar|%s|%s' % (o.name.split('|')[1], i))
    items['memvars|'] = memvar
    items['memvar|'] = lambda I, st, o, i: nplib.get_arr(I, st, memory(st, *o.name.split('|')[1:]), i)
    items['nc|'] = group

    def group_attr(I, st, o, name):
        if name == 'variables':
            return Opq('ncvars|' + o.name.split('|', 1)[1])
        raise Unsupported('NetCDF group .' + name)
    attrs['ncgroup|'] = group_attr

    def var(I, st, o, i):
        _, p, g = o.name.split('|')
        if i not in groups(real(I, p))[g]:
            raise PyRaise(Exc(ExtCls('KeyError')))
        return Opq('ncvar|%s|%s|%s' % (p, g, i))
    items['ncvars|'] = var
    items['ncgroup|'] = var

    def data(I, st, o, i):
        if isinstance(i, Slice) and i.a is None and i.b is None and i.s is None or i is Ellipsis:
            return Opq('ncdata|' + o.name.split('|', 1)[1])
        raise Unsupported('part of a NetCDF variable')
    items['ncvar|'] = data

    def data_attr(I, st, o, name):
        _, p, g, v = o.name.split('|')
        if name == 'data':
            return variable(I, st, p, g, v)
        raise Unsupported('masked NetCDF data .' + name)
    attrs['ncdata|'] = data_attr

    # assumed contract of the ball tree: the index of the (first) point of least distance
    def balltree(I, st, args, kw):
        a = nplib.as_array(I, st, args[0])
        if kw.get('metric', args[2] if len(args) > 2 else None) != 'haversine' or len(a.shape) != 2 or a.shape[1] is not num(2) or set(kw) - {'metric'}:
            raise Unsupported('BallTree')
        return Opq('balltree|%s' % st.alloc({'points': a}))
    ext['sklearn.neighbors.BallTree'] = Prim('BallTree', balltree)

    def query(I, st, loc, args, kw):
        q = nplib.as_array(I, st, args[0])
        k = kw.get('k', args[1] if len(args) > 1 else ONE)
        if k is not ONE or len(q.shape) != 2 or q.shape[0] is not ONE or q.shape[1] is not num(2) or set(kw) - {'k'}:
            raise Unsupported('BallTree.query')
        f, g = st.arr_fn(st.heap[loc]['points']), st.arr_fn(q)
        n = st.heap[loc]['points'].shape[0]

        def dist(i):
            sin = lambda x: t_.sin(t_.div(x, num(2)))
            lat, lon, lat0, lon0 = f((i, ZERO)), f((i, ONE)), g((ZERO, ZERO)), g((ZERO, ONE))
            a, b = sin(t_.sub(lat, lat0)), sin(t_.sub(lon, lon0))
            h = t_.add(t_.mul(a, a), t_.mul(t_.mul(t_.cos(lat), t_.cos(lat0)), t_.mul(b, b)))
            return t_.mul(num(2), t_.arcsin(t_.sqrt(h)))
        d = st.new_arr((n,), lambda ix: dist(ix[0]))
        i = I.call(st, ext['numpy.argmin'], [d], {})
        return (st.new_arr((ONE, ONE), lambda ix: dist(i)), st.new_arr((ONE, ONE), lambda ix: i, 'I'))

    def tree_attr(I, st, o, name):
        if name != 'query':
            raise Unsupported('BallTree.' + name)
        loc = int(o.name.split('|')[1])
        return Prim(name, lambda I, st, a, k: query(I, st, loc, a, k))
    attrs['balltree|'] = tree_attr

    # modules as objects
    def imp(I, st, args, kw):
        name = args[0]
        sub = args[3] if len(args) > 3 else kw.get('fromlist')
        if not isinstance(name, str) or not name.startswith('pyrtlib.'):
            raise Unsupported('__import__')
        if I.module(name) is None:
            raise PyRaise(Exc(ExtCls('ImportError')))
        if sub is not None:
            for x in (st.heap[sub.loc] if isinstance(sub, PList) else sub):
                if I.module(name + '.' + x) is not None:
                    submodule(I, st, name + '.' + x)
        return Opq('package|' + name)
    I.builtins['__import__'] = Prim('__import__', imp)
    I.builtins['globals'] = Prim('globals', lambda I, st, a, k: Opq('namespace'))
    I.builtins['locals'] = Prim('locals', lambda I, st, a, k: Opq('namespace'))

    def import_module(I, st, args, kw):
        if len(args) == 1 and isinstance(args[0], str) and args[0].startswith('pyrtlib.'):
            return submodule(I, st, args[0])
        raise Unsupported('import_module')
    ext['importlib.import_module'] = Prim('import_module', import_module)

    def _vars(I, st, args, kw):
        o = args[0]
        if isinstance(o, Opq) and o.name.startswith('package|'):
            return Opq('packagevars|' + o.name.split('|')[1])
        if isinstance(o, Obj):
            return PDict(o.loc)
        raise Unsupported('vars')
    I.builtins['vars'] = Prim('vars', _vars)

    def member(I, st, o, i):
        full = o.name.split('|')[1] + '.' + i
        if I.module(full) is None:
            raise PyRaise(Exc(ExtCls('KeyError')))
        return submodule(I, st, full)
    items['packagevars|'] = member
    attrs['package|'] = member
    ext['sys.modules'] = Opq('loaded modules')
    attrs['loaded modules'] = lambda I, st, o, name: Prim(name, lambda I, st, a, k: Opq('loaded modules'))

    def reload(I, st, args, kw):
        o = args[0]
        if not (isinstance(o, Obj) and getattr(o.cls, 'name', '').startswith('module:')):
            raise Unsupported('reload')
        full = o.cls.name[7:]
        m = I.module(full)
        import copy
        m2 = copy.copy(m)
        m2.defs = {}            # names are those assigned so far
        m2.cache = {}
        s = st.copy()
        s.env = dict(st.heap[o.loc])
        body = [x for x in m.tree.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        outs = I.exec_block(s, body, m2)
        outs = [(a, 'raise', v) if k == 'raise' else (a, 'return', None) for a, k, v in outs]
        env = {}
        for i, (a, k, v) in enumerate(outs):
            a.heap[o.loc] = dict(a.env)
        I.pick(st, outs)
        return o
    ext['importlib.reload'] = Prim('reload', reload)
