"""Mathematical operators of the specification language (executable meaning).

The verifier gives each of these the corresponding logical meaning (pyvc/dslsym.py); this file is what they mean when a
specification is run next to the real code under CPython.
"""
import numpy as np


def Sum(lo, hi, f):
    """sum of f(k) for lo <= k < hi"""
    r = 0.0
    for k in range(int(lo), int(hi)):
        r = r + f(k)
    return r


def Prod(lo, hi, f):
    r = 1.0
    for k in range(int(lo), int(hi)):
        r = r * f(k)
    return r


def First(n, f):
    """least 0 <= k < n with f(k), else n"""
    for k in range(int(n)):
        if f(k):
            return k
    return max(int(n), 0)


def Last(n, f):
    """greatest 0 <= k < n with f(k), else -1"""
    for k in range(int(n) - 1, -1, -1):
        if f(k):
            return k
    return -1


def All(n, f):
    return all(bool(f(k)) for k in range(int(n)))


def Any(n, f):
    return any(bool(f(k)) for k in range(int(n)))


def Array(shape, f):
    """the array a with a[i...] = f(i...)"""
    if not isinstance(shape, tuple):
        shape = (shape,)
    shape = tuple(int(x) for x in shape)
    vals = [f(*ix) for ix in np.ndindex(*shape)]
    vals = [float('nan') if v is None else v.reshape(-1)[0] if isinstance(v, np.ndarray) and v.size == 1 else v for v in vals]
    dt = complex if any(isinstance(v, complex) for v in vals) else bool if vals and all(isinstance(v, (bool, np.bool_)) for v in vals) \
        else float
    return np.array(vals, dtype=dt).reshape(shape)


def size(x, axis=0):
    return np.shape(x)[axis]


def Interp(x, n, xp, fp):
    """piecewise linear interpolation through the points (xp(k), fp(k)), constant outside"""
    return float(np.interp(x, [xp(k) for k in range(int(n))], [fp(k) for k in range(int(n))]))


def UF(name, *args):
    raise NotImplementedError(name)


def memo(f):
    """f itself (remembers its values when executed)"""
    cache = {}

    def g(*a):
        k = tuple(int(x) for x in a)
        if k not in cache:
            cache[k] = f(*a)
        return cache[k]
    return g


def number(v):
    if isinstance(v, str):
        return v
    try:
        return float('nan') if v is None else float(v)
    except TypeError:
        return v


def Frame(blocks, rows, columns):
    """data frame of `blocks` groups of `rows` rows: column name -> f(block, row)"""
    import pandas as pd
    ix = [(k, j) for k in range(int(blocks)) for j in range(int(rows))]
    return pd.DataFrame({c: [number(f(k, j)) for k, j in ix] for c, f in columns.items()})


def Kept(rows, keep, columns):
    """data frame of those of `rows` rows for which keep(row) holds, numbered from 0: column name -> f(row)"""
    import pandas as pd
    ks = [j for j in range(int(rows)) if keep(j)]
    return numbered(pd.DataFrame({c: [number(f(j)) for j in ks] for c, f in columns.items()}))


def numbered(x):
    """(executed only) the row labels matter too: 0, 1, 2, ..."""
    object.__setattr__(x, '_vc_numbered', True)
    return x


def Table(path):
    """numbers of a text table shipped with the package"""
    import os
    import pyrtlib
    return np.loadtxt(os.path.join(os.path.dirname(pyrtlib.__file__), path))


def Catalogue(path, group, variable):
    """variable of a group ('': the root) of a NetCDF file shipped with the package; KeyError when the file has none"""
    import os
    import pyrtlib
    from netCDF4 import Dataset
    with Dataset(os.path.join(os.path.dirname(pyrtlib.__file__), path)) as nc:
        return (nc.groups[group] if group else nc).variables[variable][:].data


def Variable(path, name):
    """numbers of a variable of a NetCDF file"""
    from netCDF4 import Dataset
    with Dataset(path) as nc:
        return np.asarray(nc.variables[name][:].data)


def archive(lines):
    """bytes of a zip file with one member of the given lines"""
    import io
    import zipfile
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        z.writestr('station.txt', ''.join(lines))
    return buf.getvalue()
