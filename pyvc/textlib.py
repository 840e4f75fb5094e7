"""Fixed-width text whose digits are arbitrary: a tuple of characters, each a literal or an unknown decimal digit."""
from . import terms as t_
from .terms import T, TRUE, FALSE, ZERO, ONE, num
from .values import *


def is_digit(c):
    return isinstance(c, T) or c in '0123456789'


def value_of(c):
    return c if isinstance(c, T) else num(int(c))


def eq(a, b):
    """condition for two texts to be the same"""
    x, y = a.chars if isinstance(a, SText) else tuple(a), b.chars if isinstance(b, SText) else tuple(b)
    if len(x) != len(y):
        return FALSE
    r = TRUE
    for p, q in zip(x, y):
        if isinstance(p, str) and isinstance(q, str):
            c = TRUE if p == q else FALSE
        elif is_digit(p) and is_digit(q):
            c = t_.eq(value_of(p), value_of(q))
        else:
            c = FALSE
        r = t_.and_(r, c)
    return r


def make(chars):
    return ''.join(chars) if all(isinstance(c, str) for c in chars) else SText(chars)


def strip(chars, left=True, right=True):
    i, j = 0, len(chars)
    while left and i < j and isinstance(chars[i], str) and chars[i].isspace():
        i += 1
    while right and i < j and isinstance(chars[j - 1], str) and chars[j - 1].isspace():
        j -= 1
    return chars[i:j]


def number(v, decimal):
    """int(v) or float(v)"""
    c = strip(v.chars)
    sign = 1
    if c and c[0] in ('-', '+'):
        sign, c = (-1 if c[0] == '-' else 1), c[1:]
    point = c.index('.') if decimal and '.' in c else len(c)
    digits = c[:point] + c[point + 1:]
    if not digits or not all(is_digit(x) for x in digits):
        raise PyRaise(Exc(ExtCls('ValueError')))
    r = ZERO
    for x in digits:
        r = t_.add(t_.mul(num(10), r), value_of(x))
    return t_.div(t_.mul(num(sign), r), num(10 ** (len(c) - point - 1))) if point < len(c) else t_.mul(num(sign), r)


def find(chars, sub, at=0):
    """position of a text without digits"""
    for i in range(at, len(chars) - len(sub) + 1):
        if all(chars[i + k] == c and isinstance(chars[i + k], str) for k, c in enumerate(sub)):
            return i
    return -1


def split(chars, sep):
    out, at = [], 0
    while True:
        i = find(chars, sep, at)
        if i < 0:
            return out + [chars[at:]]
        out.append(chars[at:i])
        at = i + len(sep)


def lines(chars):
    out = split(chars, '\n')
    return out[:-1] if not out[-1] else out


def attr(I, st, o, name):
    def h(I, st, args, kw):
        if kw:
            raise Unsupported('str.%s' % name)
        if name in ('strip', 'lstrip', 'rstrip') and not args:
            return make(strip(o.chars, name != 'rstrip', name != 'lstrip'))
        if name == 'zfill':
            w = args[0]
            if not (isinstance(w, T) and w.op == 'num'):
                raise Unsupported('str.zfill')
            c = o.chars
            k = max(0, int(w.args[0]) - len(c))
            s = 1 if c and c[0] in ('-', '+') else 0
            return make(c[:s] + ('0',) * k + c[s:])
        if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], str):
            m = len(args[0])
            part = o.chars[:m] if name == 'startswith' else o.chars[len(o.chars) - m:] if m <= len(o.chars) else ()
            return eq(SText(part), args[0])
        if name == 'isdigit' and not args:
            return TRUE if o.chars and all(is_digit(c) for c in o.chars) else FALSE
        if name in ('upper', 'lower') and not args:
            return make(tuple(getattr(c, name)() if isinstance(c, str) else c for c in o.chars))
        if name == 'splitlines' and not args:
            return PList(st.alloc([make(x) for x in lines(o.chars)]))
        if name == 'split' and len(args) == 1 and isinstance(args[0], str) and args[0] and not any(is_digit(c) for c in args[0]):
            return PList(st.alloc([make(x) for x in split(o.chars, args[0])]))
        if name == 'partition' and len(args) == 1 and isinstance(args[0], str) and args[0] and not any(is_digit(c) for c in args[0]):
            p = split(o.chars, args[0])
            rest = o.chars[len(p[0]) + len(args[0]):]
            return (make(p[0]), args[0] if len(p) > 1 else '', make(rest))
        if name == 'find' and len(args) == 1 and isinstance(args[0], str) and not any(is_digit(c) for c in args[0]):
            return num(find(o.chars, args[0]))
        if name == 'count' and len(args) == 1 and isinstance(args[0], str) and args[0] and not any(is_digit(c) for c in args[0]):
            return num(len(split(o.chars, args[0])) - 1)
        raise Unsupported('str.%s of text with unknown digits' % name)
    if name not in dir(str):
        raise PyRaise(Exc(ExtCls('AttributeError')))
    return Prim('str.' + name, h)


def item(I, st, o, i):
    def cv(x):
        if x is None:
            return None
        if isinstance(x, T) and x.op == 'num':
            return int(x.args[0])
        raise Unsupported('index of text')
    if isinstance(i, Slice):
        return make(o.chars[slice(cv(i.a), cv(i.b), cv(i.s))])
    k = cv(i)
    if not -len(o.chars) <= k < len(o.chars):
        raise PyRaise(Exc(ExtCls('IndexError')))
    return make((o.chars[k],))
