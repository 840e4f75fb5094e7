"""Generate and discharge the obligations of one contract (one variant) against the current source."""
import itertools
import time
import traceback
from . import terms as t_
from . import interp, logic, quant, prove, loops, nplib, textlib, seqlib
from .terms import T, TRUE, FALSE, ZERO, ONE, num
from .values import *
from .domsym import SymDom
from .interp import RET, RAISE


class Obligation:
    __slots__ = ('name', 'ok', 'why', 'time', 'backend', 'counter')

    def __init__(self, name):
        self.name = name
        self.ok = None
        self.why = ''
        self.time = 0.0
        self.backend = ''
        self.counter = None

    def dict(self):
        r = {'name': self.name, 'ok': self.ok, 'why': self.why[:1500], 'time': round(self.time, 3)}
        if self.counter is not None:
            r['counter'] = prove.export_env(self.counter)
        return r


class Runner:
    def __init__(self, contract, variant, root='/repo', timeout=120):
        self.c = contract
        self.variant = variant
        self.root = root
        self.obls = []
        self.P = prove.Prover(deadline=time.time() + timeout)
        self.refuted = False
        self.n_leaf = 0

    # -------------------------------------------------------------- running
    def outcomes(self, I, st, f, args, kwargs):
        I.budget = 2000000

        def h(s):
            return [(s, RET, I.call(s, f, list(args), dict(kwargs)))]
        outs = I.run_forked(st, h)
        return I.merge_returns(outs)

    def target(self, I, st):
        modn, n = self.c.target.split(':')
        m = I.module(modn)
        if m is None:
            raise Unsupported('no module ' + modn)
        if '.' not in n:
            if n not in m.defs:
                raise Unsupported('no function ' + self.c.target)
            return I.lookup_global(st, m, n)
        cn, fn = n.split('.')
        c = I.lookup_global(st, m, cn)
        I.ensure_class(st, c)
        v = I.find_attr(st, c, fn)
        if v is None:
            p = I.find_prop(st, c, fn)
            if p is not None:
                return p[1] if self.c.call == 'set' else p[0]
            raise Unsupported('no function ' + self.c.target)
        if isinstance(v, Fn) and v.kind == 'classmethod':
            return Bound(v, c)
        return v

    def opaque_handler(self, qual, desc):
        def h(I, st, env):
            return opaque_result(I, st, qual, desc, env)
        return h

    def run(self):
        t0 = time.time()
        I = interp.Interp(self.root)
        self.I = I
        st = State()
        try:
            for q in self.c.preload:
                c = I.cls(st, q)
                I.ensure_class(st, c)
            modn, n = self.c.target.split(':')
            if '.' in n:
                I.ensure_class(st, I.cls(st, modn + ':' + n.split('.')[0]))
            for q, d in self.c.opaque.items():
                I.opaque[q] = self.opaque_handler(q, d)
            d = SymDom(I, st)
            inp = self.c.build(d, self.variant)
            args, kwargs, ghost = inp.get('args', []), inp.get('kwargs', {}), inp.get('ghost', [])
            args = [d.const(a) for a in args]
            self.classattrs = {}
            for q, a in inp.get('modifies_class', ()):
                k = I.cls(st, q)
                I.ensure_class(st, k)
                self.classattrs.setdefault(k.loc, []).append(a)
            ghost = [d.const(a) for a in ghost]
            kwargs = {k: d.const(v) for k, v in kwargs.items()}
            I.facts = tuple(d.facts)
            F = list(d.facts)
            if self.c.requires:
                rf = I.function(st, self.c.requires)
                outs = self.outcomes(I, st.copy(), rf, args + ghost, kwargs)
                if len(outs) != 1 or outs[0][1] != RET:
                    raise Unsupported('precondition does not evaluate to one formula')
                pre = I.truth(outs[0][0], outs[0][2])
                F += list(prove._flat([pre]))
                I.facts = tuple(F)
            F = tuple(F)
            self.facts = F
            # vacuity: the precondition is satisfiable
            ob = Obligation('precondition is satisfiable')
            ob.ok = not logic.inconsistent(F)
            self.obls.append(ob)
            self.modset(st, args, inp.get('modifies'))
            self.scratch(st, [d.const(a) for a in inp.get('scratch', ())])
            f = self.target(I, st)
            fargs = args
            if self.c.call == 'method' and isinstance(f, Fn) and f.kind == 'staticmethod':
                fargs = args[1:]
            couts = self.outcomes(I, st.copy(), f, fargs, kwargs)
            code_called = set(I.called)
            saved = dict(I.opaque)
            sf = I.function(st, self.c.spec)
            souts = self.outcomes(I, st.copy(), sf, args + ghost, kwargs)
            self.called = code_called
            self.compare_all(I, st, couts, souts, F)
        except Unsupported as e:
            self.fail('the function is within the verified subset', 'unsupported: ' + str(e))
        except prove.Timeout:
            self.fail('obligations discharged in time', 'timeout')
        except PyRaise as e:
            self.fail('evaluation', 'exception %r outside a path' % (e.val,))
        except RecursionError:
            self.fail('evaluation', 'recursion limit')
        except Exception as e:
            self.fail('evaluation', 'internal error: ' + traceback.format_exc(limit=-int(__import__("os").environ.get("TBL","4"))))
        if len(self.obls) < 2:
            self.fail('obligations generated', 'vacuous: no obligation generated')
        return {'contract': self.c.id, 'variant': self.variant, 'time': time.time() - t0,
                'obligations': [o.dict() for o in self.obls], 'called': sorted(getattr(self, 'called', [])),
                'stats': dict(prove.STATS, **logic.STATS)}

    def fail(self, name, why):
        ob = Obligation(name)
        ob.ok = False
        ob.why = why
        self.obls.append(ob)

    # -------------------------------------------------------------- comparison
    def compare_all(self, I, st0, couts, souts, F):
        npairs = 0
        for i, (sc, kc, vc) in enumerate(couts):
            for j, (ss, ks, vs) in enumerate(souts):
                G = F + tuple(x for x in sc.pc) + tuple(x for x in ss.pc)
                if (sc.pc or ss.pc) and logic.inconsistent(G):
                    continue
                tag = '' if len(couts) == 1 and len(souts) == 1 else '[path %d/%d] ' % (i, j)
                if kc != ks:
                    ob = Obligation(tag + 'completion')
                    ob.ok = self.infeasible(G)
                    ob.why = '' if ob.ok else 'code %s %r, specification %s %r under %s' % (
                        kc, vc if kc == RAISE else '', ks, vs if ks == RAISE else '', [str(x)[:150] for x in sc.pc + ss.pc][:12])
                    self.obls.append(ob)
                    npairs += 1
                    continue
                npairs += 1
                if kc == RAISE:
                    ok = vc.name == vs.name if isinstance(vc, Exc) and isinstance(vs, Exc) else False
                    ok = ok or self.infeasible(G)
                    ob = Obligation(tag + 'exception')
                    ob.ok = ok
                    ob.why = '' if ok else 'code raises %r, specification %r under %s' % (vc, vs, [str(x)[:150] for x in sc.pc][:10])
                    self.obls.append(ob)
                else:
                    self.value(tag + 'result', G, vc, vs, sc, ss)
                    if self.c.fresh:
                        self.fresh(tag, st0, sc, vc)
                if self.c.frame and kc == RET:
                    self.frame(tag, G, st0, sc, ss)
        if npairs == 0:
            self.fail('outcomes', 'no feasible outcome pair')
        # side obligations of the code (index bounds, lengths, ...)
        seen = set()
        for sc, kc, vc in couts:
            for pc, cond, label in sc.obls:
                key = (pc, cond)
                if key in seen:
                    continue
                seen.add(key)
                ob = Obligation('side: ' + label)
                t0 = time.time()
                G = F + tuple(pc)
                ob.ok = self.P.entails(G, cond) or self.infeasible(G)
                if not ob.ok:
                    ob.ok = logic.entails(G + quant.instances(G, (cond,)), cond)
                if not ob.ok:
                    ob.why = '%s not implied by %s' % (str(cond)[:300], [str(p)[:120] for p in pc][:8])
                ob.time = time.time() - t0
                self.obls.append(ob)

    def infeasible(self, G):
        return logic.inconsistent(G, nl=True) or self.quantified(G)

    def quantified(self, G):
        ex = quant.instances(G, ())
        return bool(ex) and logic.inconsistent(G + ex)

    def leaf(self, name, G, a, b):
        ob = Obligation(name)
        t0 = time.time()
        self.P.why = ''
        self.P.counter = None
        self.P.fpe = None
        try:
            ob.ok = self.P.eq(a, b, G)
            if not ob.ok and self.infeasible(G):
                ob.ok = True
        except prove.Timeout:
            ob.ok = False
            self.P.why = 'timeout'
            self.P.deadline = time.time() + 5
        ob.time = time.time() - t0
        if not ob.ok:
            ob.counter = self.P.counter
            ob.why = '%s: code %s  specification %s' % (self.P.why, str(a)[:500], str(b)[:500])
            if self.P.deadline is not None:     # the contract has failed: do not spend the whole budget on the rest
                self.P.deadline = min(self.P.deadline, max(time.time() + 5, t0 + 20))
        self.obls.append(ob)
        return ob.ok

    def value(self, name, G, a, b, sc, ss, seen=None):
        seen = seen if seen is not None else set()
        if isinstance(a, Maybe) and isinstance(b, Maybe):
            self.leaf(name + ' bound', G, a.cond, b.cond)
            return self.value(name, G + (a.cond,), a.val, b.val, sc, ss, seen)
        if isinstance(a, Maybe):
            self.leaf(name + ' bound', G, a.cond, TRUE if b is not UNDEF else FALSE)
            return self.value(name, G + (a.cond,), a.val, b, sc, ss, seen) if b is not UNDEF else None
        if isinstance(b, Maybe):
            self.leaf(name + ' bound', G, TRUE if a is not UNDEF else FALSE, b.cond)
            return self.value(name, G + (b.cond,), a, b.val, sc, ss, seen) if a is not UNDEF else None
        la = isinstance(a, (T, bool, int, float)) and a is not None
        lb = isinstance(b, (T, bool, int, float)) and b is not None
        # arrays of one element and scalars are interchangeable
        if isinstance(a, Arr) and lb and all(x is ONE for x in a.shape):
            a = sc.arr_at(a, (ZERO,) * len(a.shape))
            la = True
        if isinstance(b, Arr) and (la or isinstance(a, C)) and all(x is ONE for x in b.shape):
            b = ss.arr_at(b, (ZERO,) * len(b.shape))
            lb = True
        if la and lb:
            x, y = scalar(a), scalar(b)
            if (x.sort == 'B') != (y.sort == 'B'):
                if x.sort == 'B':
                    x = t_.ite(x, ONE, ZERO)
                if y.sort == 'B':
                    y = t_.ite(y, ONE, ZERO)
            self.leaf(name, G, x, y)
            return
        if isinstance(a, C) or isinstance(b, C):
            if isinstance(a, (C, T)) and isinstance(b, (C, T)):
                ra, ia = (a.re, a.im) if isinstance(a, C) else (a, ZERO)
                rb, ib = (b.re, b.im) if isinstance(b, C) else (b, ZERO)
                self.leaf(name + ' (real part)', G, ra, rb)
                self.leaf(name + ' (imaginary part)', G, ia, ib)
                return
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.shape) != len(b.shape):
                ob = Obligation(name + ' rank')
                ob.ok = False
                ob.why = '%r / %r' % (a.shape, b.shape)
                self.obls.append(ob)
                return
            for d, (x, y) in enumerate(zip(a.shape, b.shape)):
                if x is not y:
                    self.leaf('%s length of axis %d' % (name, d), G, x, y)
            fixed = [range(int(n.args[0])) if len(a.shape) > 1 and n.op == 'num' and 1 < n.args[0] <= 8 else (None,) for n in a.shape]
            for at in itertools.product(*fixed):    # a short axis index by index
                ix = tuple(t_.fresh('i', 'I') if k is None else num(k) for k in at)
                G2 = G
                for k, n in zip(ix, a.shape):
                    if k.op != 'num':
                        G2 = G2 + (t_.le0(t_.neg(k)), t_.lt(k, n))
                ea, eb = sc.arr_at(a, ix), ss.arr_at(b, ix)
                at = [str(k) for k in at if k is not None]
                self.value(name + (' at every index' if not at else ' at every index, short axis at ' + ','.join(at)), G2, ea, eb, sc, ss, seen)
            return
        if isinstance(a, PList) and isinstance(b, PList):
            x, y = sc.heap[a.loc], ss.heap[b.loc]
            if isinstance(x, list) and isinstance(y, list):
                return self.value(name, G, tuple(x), tuple(y), sc, ss, seen)
            if isinstance(x, seqlib.Picked) and isinstance(y, seqlib.Picked):
                return seqlib.compare_picked(self, name, G, x, y, sc, ss, seen)
        if isinstance(a, (PList, Arr)) and isinstance(b, (PList, Arr)):
            try:
                a2 = nplib.as_array(self.I, sc, a) if not isinstance(a, Arr) else a
                b2 = nplib.as_array(self.I, ss, b) if not isinstance(b, Arr) else b
                return self.value(name, G, a2, b2, sc, ss, seen)
            except AttributeError:
                pass
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                ob = Obligation(name + ' length')
                ob.ok = self.infeasible(G)
                ob.why = 'code %d, specification %d' % (len(a), len(b))
                self.obls.append(ob)
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.value('%s[%d]' % (name, i), G, x, y, sc, ss, seen)
            return
        if isinstance(a, PDict) and isinstance(b, PDict):
            return self.mapping(name, G, sc.heap[a.loc], ss.heap[b.loc], sc, ss, seen)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if (a.loc, b.loc) in seen:
                return
            seen.add((a.loc, b.loc))
            ca, cb = getattr(a.cls, 'name', a.cls), getattr(b.cls, 'name', b.cls)
            if ca != cb:
                self.same_ob(name + ' class', G, ca, cb)
                return
            return self.mapping(name, G, sc.heap[a.loc], ss.heap[b.loc], sc, ss, seen, '.')
        if isinstance(a, DF) and isinstance(b, DF):
            self.same_ob(name + ' columns', G, list(a.cols), list(b.cols))
            if list(a.cols) == list(b.cols):
                if a.nblocks is not b.nblocks:
                    self.leaf(name + ' blocks', G, scalar(a.nblocks), scalar(b.nblocks))
                if a.rows is not b.rows:
                    self.leaf(name + ' rows', G, scalar(a.rows), scalar(b.rows))
                p, q = t_.fresh('i', 'I'), t_.fresh('i', 'I')
                G2 = G + (t_.le0(t_.neg(p)), t_.lt(p, scalar(a.nblocks)), t_.le0(t_.neg(q)), t_.lt(q, scalar(a.rows)))
                for k in a.cols:
                    self.value('%s[%s]' % (name, k), G2, a.cols[k](p, q), b.cols[k](p, q), sc, ss, seen)
            x, y = (sc.heap[a.attrs] if a.attrs is not None else {}), (ss.heap[b.attrs] if b.attrs is not None else {})
            if x or y:
                self.value(name + '.attrs', G, PDict(sc.alloc(x)), PDict(ss.alloc(y)), sc, ss, seen)
            return
        if isinstance(a, PFrame) and isinstance(b, PFrame):
            x, y = sc.heap[a.loc], ss.heap[b.loc]
            self.same_ob(name + ' columns', G, list(x.cols), list(y.cols))
            if x.rows is not y.rows:
                self.leaf(name + ' rows', G, scalar(x.rows), scalar(y.rows))
            q = t_.fresh('i', 'I')
            G2 = G + (t_.le0(t_.neg(q)), t_.lt(q, scalar(x.rows)))
            if x.keep is not None or y.keep is not None:
                kx, ky = (TRUE if z.keep is None else z.keep(q) for z in (x, y))
                self.leaf(name + ' rows kept', G2, kx, ky)
                self.same_ob(name + ' rows numbered', G, bool(x.fresh), bool(y.fresh))
                G2 = G2 + (kx,)
            for k in x.cols:
                if k in y.cols:
                    self.value('%s[%s]' % (name, k), G2, x.cols[k](q), y.cols[k](q), sc, ss, seen)
            self.value(name + '.attrs', G, PDict(x.attrs), PDict(y.attrs), sc, ss, seen)
            return
        if isinstance(a, (SText, str)) and isinstance(b, (SText, str)) and not (isinstance(a, str) and isinstance(b, str)):
            self.leaf(name + ' text', G, textlib.eq(a, b), TRUE)
            return
        if isinstance(a, Masked) and isinstance(b, Masked):
            ix = tuple(t_.fresh('i', 'I') for _ in a.shape)
            G2 = G
            for k, n in zip(ix, a.shape):
                G2 = G2 + (t_.le0(t_.neg(k)), t_.lt(k, n))
            ma, mb = a.mask(ix), b.mask(ix)
            self.leaf(name + ' selection', G2, ma, mb)
            self.value(name + ' selected', G2 + (ma,), a.fn(ix), b.fn(ix), sc, ss, seen)
            return
        if isinstance(a, Comp):
            return a.compare(self, name, G, b, sc, ss, seen)
        if isinstance(a, loops.SymList) or isinstance(b, loops.SymList):
            pass
        self.same_ob(name, G, a, b)

    def same_ob(self, name, G, a, b):
        ob = Obligation(name)
        try:
            ob.ok = a is b or not unknown(a) and not unknown(b) and (same(a, b) or (type(a) is type(b) and a == b))
        except Exception:
            ob.ok = False
        if not ob.ok:
            ob.ok = self.infeasible(G)
        if not ob.ok:
            ob.why = 'code %r, specification %r' % (a, b)
        self.obls.append(ob)

    def mapping(self, name, G, x, y, sc, ss, seen, dot=None):
        kx, ky = [k for k in x], [k for k in y]
        if set(kx) != set(ky):
            self.same_ob(name + ' keys', G, sorted(map(str, kx)), sorted(map(str, ky)))
        for k in kx:
            if k in y and x[k] is not y[k]:
                self.value('%s%s' % (name, '.%s' % k if dot else '[%r]' % (k,)), G, x[k], y[k], sc, ss, seen)

    def modset(self, st, args, names):
        """attributes of the receiver the call may leave in any state (work areas), with their arrays"""
        self.modself, self.modnames, self.modlocs = None, (), set()
        if names:
            o = args[0]
            self.modself, self.modnames = o.loc, tuple(names)
            for k in names:
                v = st.heap[o.loc].get(k)
                if isinstance(v, (Arr, PList, PDict, Obj)):
                    self.modlocs.add(v.loc)

    def scratch(self, st, objs):
        """objects (and everything they own) the call may leave in any state"""
        for o in objs:
            if isinstance(o, (Arr, PList, PDict, Obj)) and o.loc not in self.modlocs:
                self.modlocs.add(o.loc)
                h = st.heap[o.loc]
                self.scratch(st, h.values() if isinstance(h, dict) else h if isinstance(h, list) else ())

    def frame(self, tag, G, st0, sc, ss):
        """everything reachable before the call is afterwards what the specification says (unchanged by default)"""
        nchk = 0
        for loc in list(st0.heap):
            hc, hs = sc.heap.get(loc), ss.heap.get(loc)
            if loc in self.modlocs:
                continue
            if loc == self.modself and loc is not None:
                keep = [k for k in st0.heap[loc] if k not in self.modnames]
                for k in keep:
                    if hc.get(k, UNDEF) is not hs.get(k, UNDEF):
                        self.value('%sframe attribute %s' % (tag, k), G, hc.get(k, UNDEF), hs.get(k, UNDEF), sc, ss)
                continue
            if loc in self.classattrs:
                hc, hs = dict(hc), dict(hs)
                for k in self.classattrs[loc]:
                    hc.pop(k, None)
                    hs.pop(k, None)
            if hc is hs:
                nchk += 1
                continue
            name = '%sframe %s' % (tag, self.locname(st0, loc))
            if isinstance(hc, Buf) and isinstance(hs, Buf):
                ix = tuple(t_.fresh('i', 'I') for _ in hc.shape)
                G2 = G
                for k, n in zip(ix, hc.shape):
                    G2 = G2 + (t_.le0(t_.neg(k)), t_.lt(k, n))
                self.value(name, G2, hc.at(ix), hs.at(ix), sc, ss)
            elif isinstance(hc, dict) and isinstance(hs, dict):
                self.mapping(name, G, hc, hs, sc, ss, set(), '.')
            elif isinstance(hc, list) and isinstance(hs, list):
                self.value(name, G, tuple(hc), tuple(hs), sc, ss)
            else:
                self.value(name, G, hc, hs, sc, ss)
        # module globals assigned by the code
        for k in set(list(sc.heap) + list(ss.heap)):
            if isinstance(k, tuple) and k[0] == 'g' and k not in st0.heap and not k[1].startswith(('specs', 'contracts')):
                if k not in sc.heap:        # only the specification reads it
                    s0 = st0.copy()
                    self.value('%sframe module global %s.%s' % (tag, k[1], k[2]), G, self.initial(s0, k), ss.heap[k], s0, ss)
                elif k not in ss.heap:      # only the code reads it: unchanged
                    s0 = st0.copy()
                    self.value('%sframe module global %s.%s' % (tag, k[1], k[2]), G, sc.heap[k], self.initial(s0, k), sc, s0)
                else:
                    self.value('%sframe module global %s.%s' % (tag, k[1], k[2]), G, sc.heap[k], ss.heap[k], sc, ss)
        # class attributes of classes loaded on the way
        for k in set(list(sc.heap) + list(ss.heap)):
            if isinstance(k, int) and k not in st0.heap:
                c = self.classes().get(k)
                if c is not None:
                    hc, hs = sc.heap.get(k), ss.heap.get(k)
                    if hc is None or hs is None:
                        base = State()
                        continue
                    if hc is not hs:
                        self.mapping('%sframe class %s' % (tag, c.name), G, hc, hs, sc, ss, set(), '.')
        ob = Obligation(tag + 'frame: %d locations untouched' % nchk)
        ob.ok = True
        self.obls.append(ob)

    def initial(self, s0, k):
        self.I.lookup_global(s0, self.I.modules[k[1]], k[2])
        return s0.heap.get(k, UNDEF)

    def fresh(self, tag, st0, sc, v):
        """the result shares no storage with the arguments, the module's globals or the classes"""
        old = set()
        for x in list(st0.heap):
            if isinstance(x, int):
                old.add(x)
        for k, x in sc.heap.items():
            if isinstance(k, tuple) and k[0] == 'g':
                self.reach(sc, x, old)
        for c in self.classes():
            self.reach(sc, sc.heap.get(c), old)
        new = set()
        self.reach(sc, v, new)
        ob = Obligation(tag + 'result is not shared')
        ob.ok = not (new & old)
        ob.why = '' if ob.ok else 'the result is held by the module, a class or an argument'
        self.obls.append(ob)

    def reach(self, s, v, out):
        if isinstance(v, (tuple, list)):
            for x in v:
                self.reach(s, x, out)
        elif isinstance(v, dict):
            for x in v.values():
                self.reach(s, x, out)
        elif isinstance(v, Maybe):
            self.reach(s, v.val, out)
        elif isinstance(v, (Arr, PList, PDict, Obj)) and v.loc not in out:
            out.add(v.loc)
            self.reach(s, s.heap.get(v.loc), out)

    def classes(self):
        r = {}
        for m in self.I.modules.values():
            for v in m.cache.values():
                if isinstance(v, Cls):
                    r[v.loc] = v
        return r

    def locname(self, st0, loc):
        c = self.classes().get(loc)
        if c is not None:
            return 'class ' + c.name
        if isinstance(loc, tuple):
            return '.'.join(map(str, loc))
        h = st0.heap[loc]
        if isinstance(h, Buf):
            ix = tuple(t_.var('i%d' % j, 'I') for j in range(len(h.shape)))
            return 'array ' + str(h.at(ix))[:60]
        return 'object %s' % loc


def arg_term(I, st, v):
    """argument of an uninterpreted callee"""
    if v is None:
        return 'None'
    if isinstance(v, (T, str)):
        return v
    s = scalar(v)
    if s is not None:
        return s
    if isinstance(v, C):
        raise Unsupported('complex argument of a contract call')
    if isinstance(v, PList):
        v = nplib.as_array(I, st, v)
    if isinstance(v, Arr):
        f = st.arr_fn(v)

        def nest(d, ix):
            if d == len(v.shape):
                x = f(tuple(ix))
                return x
            k = t_.fresh('k', 'I')
            return t_.blam(v.shape[d], k, nest(d + 1, ix + [k]))
        return nest(0, [])
    if isinstance(v, Obj):
        return 'obj#%d' % v.loc
    if isinstance(v, PDict):
        return 'dict#%d' % v.loc
    if isinstance(v, (Cls, Opq)):
        return v.name
    raise Unsupported('argument %r of a contract call' % (v,))


def unknown(v):
    """a text or value whose content the interpreter does not know: equal to itself only"""
    return isinstance(v, Opq) and v.name in ('str', 'column', 'excattr', 'property', 'errstate') or isinstance(v, tuple) and any(unknown(x) for x in v)


def opaque_result(I, st, qual, desc, env):
    """apply the contract of a callee: its result is a function of its arguments (and the state listed in desc)"""
    names = [k for k in env if k != '__class__']
    if 'fn' in desc:
        return desc['fn'](I, st, env)
    state = []
    for q, attr in desc.get('reads', ()):
        c = I.cls(st, q)
        I.ensure_class(st, c)
        v = I.find_attr(st, c, attr)
        state.append('undefined' if v is None else arg_term(I, st, v))
    vals = [arg_term(I, st, env[k]) for k in names if k not in desc.get('drop', ())] + state

    def mk(kind, suffix):
        if kind == 'scalar':
            nm = qual + suffix
            if desc.get('sign'):
                t_.SIGN[nm] = desc['sign']
            return t_.app(nm, *vals)
        if kind == 'complex':
            return C(t_.app(qual + suffix + '.re', *vals), t_.app(qual + suffix + '.im', *vals))
        if kind[0] == 'array':
            shape = tuple(scalar(x) for x in kind[1](I, st, env))
            return st.new_arr(shape, lambda ix: t_.app(qual + suffix, *(list(ix) + vals)))
        if kind[0] == 'tuple':
            return tuple(mk(k, '%s.%d' % (suffix, i)) for i, k in enumerate(kind[1]))
        raise Unsupported('contract result kind')
    return mk(desc['result'], '')


def run_one(cid, variant, root, timeout):
    import sys
    sys.setrecursionlimit(20000)
    from contracts import base
    c = base.REGISTRY[cid]
    return Runner(c, variant, root, timeout).run()
