"""Polynomial / rational-function normal forms over atoms (exact rationals)."""
from fractions import Fraction as Q
from . import terms as t_


class TooBig(Exception):
    pass


LIMIT = 60000


def _madd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _mono(d):
    return tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return _mono(d)


def pmul(p, q, limit=LIMIT):
    if len(p) * len(q) > limit * 4:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > limit:
        raise TooBig()
    return r


def ppow(p, n, limit=LIMIT):
    r = {(): Q(1)}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b, limit)
        n >>= 1
        if n:
            b = pmul(b, b, limit)
    return r


def to_poly(t, limit=LIMIT, memo=None):
    """polynomial with atoms; negative/fractional powers of sums stay atoms (base,exp)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'num':
        r = {(): t.args[0]} if t.args[0] != 0 else {}
    elif op == 'add':
        r = {(): t.args[0]} if t.args[0] != 0 else {}
        for k, v in t.args[1]:
            pk = to_poly(k, limit, memo)
            r = _madd(r, {m: c * v for m, c in pk.items()})
            if len(r) > limit:
                raise TooBig()
    elif op == 'mul':
        r = {(): Q(1)}
        plain = {}
        for b, e in t.args:
            if b.op == 'add' and e > 0:
                k = e.numerator // e.denominator
                f = e - k
                if k:
                    r = pmul(r, ppow(to_poly(b, limit, memo), k, limit), limit)
                if f:
                    plain[b] = plain.get(b, 0) + f
            else:
                plain[b] = plain.get(b, 0) + e
        if plain:
            r = pmul(r, {_mono(plain): Q(1)}, limit)
    else:
        r = {((t, Q(1)),): Q(1)}
    memo[t] = r
    return r


def from_poly(p):
    out = []
    for m, c in p.items():
        cc, d = t_._mulfacs(list(m))
        out.append(t_._mkmul(cc * c, d))
    return t_.add(*out) if out else t_.ZERO


def expand(t, limit=LIMIT):
    return from_poly(to_poly(t, limit))


# ------------------------------------------------------------------ rational zero test
class RF:
    """num / prod(den_i^e_i): num polynomial over atoms; den: dict canonical-poly-key -> (poly, exp)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d


def _key(p):
    return tuple(sorted(((tuple((a.id, e) for a, e in m), c) for m, c in p.items())))


def _prim(p):
    """-> (coef, monomial, primitive poly): p = coef*mono*prim, prim with min exponents 0, lead coef 1"""
    atoms = {}
    first = True
    for m in p:
        d = dict(m)
        if first:
            atoms = dict(d)
            first = False
        else:
            for a in list(atoms):
                if a not in d:
                    if atoms[a] > 0:
                        del atoms[a]
                    # negative: min stays
                else:
                    atoms[a] = min(atoms[a], d[a])
            for a, e in d.items():
                if a not in atoms and e < 0:
                    atoms[a] = e
    # atoms: min exponent over monomials (missing = 0)
    mono = {}
    for a in atoms:
        mn = min(dict(m).get(a, Q(0)) for m in p)
        if mn != 0:
            mono[a] = mn
    inv = _mono({a: -e for a, e in mono.items()})
    q = {mmul(m, inv): c for m, c in p.items()}
    lead = min(q, key=lambda m: tuple((a.id, e) for a, e in m))
    lc = q[lead]
    q = {m: c / lc for m, c in q.items()}
    return lc, _mono(mono), q


def rf(t, limit, memo):
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'num':
        r = RF({(): t.args[0]} if t.args[0] != 0 else {}, {})
    elif op == 'add':
        parts = [(rf(k, limit, memo), v) for k, v in t.args[1]]
        den = {}
        for p, _ in parts:
            for k, (pp, e) in p.d.items():
                if k not in den or den[k][1] < e:
                    den[k] = (pp, e)
        tot = {}

        def lifted(n, d, coef):
            r_ = {m: c * coef for m, c in n.items()} if coef != 1 else n
            for k, (pp, e) in den.items():
                have = d[k][1] if k in d else 0
                if e - have:
                    r_ = pmul(r_, ppow(pp, e - have, limit), limit)
            return r_
        if t.args[0] != 0:
            tot = lifted({(): t.args[0]}, {}, 1)
        for p, v in parts:
            tot = _madd(tot, lifted(p.n, p.d, v))
            if len(tot) > limit:
                raise TooBig()
        r = RF(tot, den)
    elif op == 'mul':
        n = {(): Q(1)}
        den = {}
        for b, e in t.args:
            if b.op != 'add':
                n = pmul(n, {((b, e),): Q(1)}, limit)
                continue
            k = e.numerator // e.denominator
            f = e - k
            if f:
                # fractional power of a sum: canonical atom
                b2, out = b, None
                try:
                    bp = to_poly(b, 400)
                    lc, mono, prim = _prim(bp)
                    outs = {a: x for a, x in mono if t_.sign(a) == '+'}
                    back = _mono({a: x for a, x in mono if a not in outs})
                    prim = {mmul(m, back): (c if lc > 0 else -c) for m, c in prim.items()}
                    b2 = from_poly(prim)
                    out = t_.mul(*([t_.power(t_.num(abs(lc)), t_.num(f))] + [t_.power(a, t_.num(x * f)) for a, x in outs.items()]))
                except TooBig:
                    pass
                n = pmul(n, {((b2, f),): Q(1)}, limit)
                if out is not None and out is not t_.ONE:
                    n = pmul(n, to_poly(out, limit), limit)
            if k == 0:
                continue
            br = rf(b, limit, memo)
            if k > 0:
                n = pmul(n, ppow(br.n, k, limit), limit)
                for kk, (pp, ee) in br.d.items():
                    o = den.get(kk, (pp, 0))[1]
                    den[kk] = (pp, o + ee * k)
            else:
                if not br.n:
                    n = pmul(n, {((b, Q(k)),): Q(1)}, limit)   # 1/0: keep opaque
                    continue
                lc, mono, prim = _prim(br.n)
                n = pmul(n, {_mono({a: ex * k for a, ex in mono}): lc ** k}, limit)
                if len(prim) > 1:
                    kk = _key(prim)
                    o = den.get(kk, (prim, 0))[1]
                    den[kk] = (prim, o - k)
                for k2, (pp, ee) in br.d.items():
                    # multiply numerator by pp^(ee*-k) (cancel against den first)
                    need = ee * (-k)
                    o = den.get(k2, (pp, 0))[1]
                    c = min(o, need)
                    if c:
                        den[k2] = (pp, o - c)
                        if o - c == 0:
                            del den[k2]
                    if need - c:
                        n = pmul(n, ppow(pp, need - c, limit), limit)
        r = RF(n, {k: v for k, v in den.items() if v[1] != 0})
    else:
        r = RF({((t, Q(1)),): Q(1)}, {})
    memo[t] = r
    return r


def is_zero(t, limit=LIMIT, tol=None):
    """True when t normalises to 0 (denominators assumed nonzero); False otherwise; raises TooBig"""
    if t.op == 'num':
        return t.args[0] == 0
    r = rf(t, limit, {})
    if not r.n:
        return True
    if not any(a.op == 'add' for m in r.n for a, e in m):
        return False
    # fractional powers of sums may have recombined to integers: rebuild and retry once
    u = from_poly(r.n)
    if u.op == 'num':
        return u.args[0] == 0
    if u is t:
        return False
    r2 = rf(u, limit, {})
    return not r2.n


def residual(t, limit=LIMIT):
    r = rf(t, limit, {})
    return r.n


def normal_term(t, limit=400):
    """canonical term for use as an argument of an uninterpreted symbol"""
    try:
        r = rf(t, limit, {})
    except TooBig:
        return t
    n = from_poly(r.n)
    ds = []
    for k, (p, e) in r.d.items():
        ds.append(t_.power(from_poly(p), t_.num(-e)))
    return t_.mul(n, *ds) if ds else n
