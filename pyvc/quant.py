"""Instances of the quantified facts hidden in first(n, P): firstness at index terms, and order of sorted arrays."""
from . import terms as t_
from .terms import ZERO, ONE, or_, not_, le, lt, lt0, le0


def _closed(t):
    return t.h == 0


_CACHE = {}


def collect(t, firsts, idx):
    c = _CACHE.get(t)
    if c is None:
        fs, ix = [], []
        for x in t_.subterms(t):
            if x.op == 'first' and x.h == 0:
                fs.append(x)
            elif x.op == 'app' and x.args[0] in ('amax', 'amin') and x.h == 0 and x.args[1].op == 'lam':
                fs.append(x)
            elif x.op == 'sum' and x.h == 0:
                fs.append(x)
            elif x.op == 'sel' and len(x.args) == 2 and x.args[1].h == 0:
                ix.append((x.args[0], x.args[1]))
        c = _CACHE[t] = (fs, ix)
    for f in c[0]:
        firsts[f] = None
    for a, i in c[1]:
        idx.setdefault(a, {})[i] = None


def sorted_array(m):
    """array a and strictness when m is the first k with not a[k] <= a[k+1] (or not a[k] < a[k+1])"""
    n, k, body = opened(m)
    if body.op not in ('lt0', 'le0'):
        return None
    t = body.args[0]
    whole = t.op == 'add' and t.args[0] == 1 and body.op == 'le0' and t.sort == 'I'       # a[k+1] + 1 <= a[k] over integers
    if t.op != 'add' or t.args[0] != 0 and not whole or len(t.args[1]) != 2:
        return None
    pos = [x for x, v in t.args[1] if v == 1]
    neg = [x for x, v in t.args[1] if v == -1]
    if len(pos) != 1 or len(neg) != 1:
        return None
    p, q = pos[0], neg[0]
    if p.op != 'sel' or q.op != 'sel' or p.args[0] != q.args[0] or len(p.args) != 2 or len(q.args) != 2:
        return None
    if q.args[1] is k and t_.sub(p.args[1], k) is ONE:
        return p.args[0], body.op == 'le0' and not whole, n
    return None


_OP = {}


def opened(m):
    r = _OP.get(m)
    if r is None:
        k = t_.fresh('k', 'I')
        t_.SIGN[k.args[0]] = '0+'
        n, body = m.args[0], t_.open_binder(m, k)[2]
        r = _OP[m] = (n, k, body)
    return r


def arrays_at(body, k):
    """arrays read at an index depending on k: functions from such an index to the k it stands for"""
    out = {}
    for x in t_.subterms(body):
        if x.op == 'sel' and len(x.args) == 2 and k in t_.fvs(x.args[1]):
            o = t_.sub(x.args[1], k)
            if k not in t_.fvs(o):
                out.setdefault(x.args[0], set()).add((1, o))
                continue
            o = t_.add(x.args[1], k)
            if k not in t_.fvs(o):
                out.setdefault(x.args[0], set()).add((-1, o))
            else:
                out.setdefault(x.args[0], set())
    return out


def extrema(ms, idx, goal):
    """a maximum is attained (at argmax) and bounds every element"""
    out, wit = [], {}
    for m in ms:
        n, k, body = opened(m.args[1])
        w = t_.app('arg' + m.args[0][1:], m.args[1], sort='I')
        wit[m] = w
        at = t_.subst(body, {k: w})
        for c in (t_.le0(t_.neg(w)), lt(w, n), t_.eq(at, m)):
            out.append(or_(le(n, ZERO), c))
        for x in t_.subterms(at):
            if x.op == 'sel' and len(x.args) == 2 and x.args[1].h == 0:
                idx.setdefault(x.args[0], {})[x.args[1]] = None
    for m in ms:
        n, k, body = opened(m.args[1])
        cands = {}
        for a, offs in arrays_at(body, k).items():
            for e in list(goal.get(a, ())) + list(idx.get(a, ())):
                for sg, o in sorted(offs, key=lambda q: -q[0]):
                    cands[t_.sub(e, o) if sg > 0 else t_.sub(o, e)] = None
        for e in list(cands)[:12]:
            if e is not wit[m]:
                b = t_.subst(body, {k: e})
                out.append(or_(lt(e, ZERO), le(n, e), le(b, m) if m.args[0] == 'amax' else le(m, b)))
    return out


def prefixes(sums):
    """partial sums of the same terms, none of them negative, grow with their number"""
    out = []
    by = {}
    for m in sums:
        by.setdefault(m.args[1:], []).append(m)
    for ms in by.values():
        if len(ms) < 2:
            continue
        n, k, body = opened(ms[0])
        if t_.sign(body) not in ('+', '0+', '0'):
            continue
        for a in ms[:8]:
            for b in ms[:8]:
                if a is not b:
                    e, n = a.args[0], b.args[0]
                    out.append(or_(lt(n, e), le(a, b)))
                    out.append(or_(lt(e, ZERO), le(n, e), le(t_.add(a, t_.subst(body, {k: e})), b)))
    return out


def instances(F, ts, limit=60):
    firsts, idx = {}, {}
    for f in F:
        collect(f, firsts, idx)
    goal = {}
    gf = {}
    for t in ts:
        collect(t, gf, goal)
    firsts.update(gf)
    for a, m in goal.items():
        idx.setdefault(a, {}).update(m)
    out = []
    ext = [m for m in firsts if m.op == 'app']
    sums = [m for m in firsts if m.op == 'sum']
    out += prefixes(sums)
    for m in ext + sums:
        del firsts[m]
        gf.pop(m, None)
    out += extrema(ext, idx, goal)
    for m in list(firsts):      # indices read at the first failing index of a reversed scan
        n, k, body = opened(m)
        ar = arrays_at(body, k)
        if any(sg < 0 for v in ar.values() for sg, o in v):
            for x in t_.subterms(t_.subst(body, {k: m})):
                if x.op == 'sel' and len(x.args) == 2 and x.args[1].h == 0 and x.args[0] in ar:
                    old = idx.get(x.args[0], {})
                    old.pop(x.args[1], None)
                    idx[x.args[0]] = {x.args[1]: None, **old}
                    limit = 160
    for m in list(firsts):
        n, k, body = opened(m)
        out.append(or_(le(n, m), t_.subst(body, {k: m})))
        s = sorted_array(m)
        cands = {}
        for a, offs in arrays_at(body, k).items():
            for e in list(goal.get(a, ())) + list(idx.get(a, ())):
                for sg, o in sorted(offs, key=lambda q: -q[0]):
                    cands[t_.sub(e, o) if sg > 0 else t_.sub(o, e)] = None
        for g in firsts:
            if s is None and g is not m:
                cands[g] = None
        for e in list(cands)[:16]:
            if e is m:
                continue
            out.append(or_(lt(e, ZERO), le(m, e), not_(t_.subst(body, {k: e}))))
        if s:
            a, strict, n = s
            so = next(x.sort for x in t_.subterms(body) if x.op == 'sel' and x.args[0] == a)
            es = list(idx.get(a, {}))
            for g in firsts:
                if g is not m and a in arrays_at(opened(g)[2], opened(g)[1]):
                    es.append(g)
            es = es[:10]
            for e1 in es:
                for e2 in es:
                    if e1 is e2:
                        continue
                    x, y = t_.sel(a, e1, sort=so), t_.sel(a, e2, sort=so)
                    out.append(or_(lt(m, n), lt(e1, ZERO), (le if strict else lt)(e2, e1), lt(n, e2), (lt if strict else le)(x, y)))
    return tuple(f for f in out if f is not t_.TRUE and f not in F)[:limit]
