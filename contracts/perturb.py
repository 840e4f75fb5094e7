"""C13: spectroscopic parameters and their perturbation."""
from contracts.base import C
from contracts.absorption import A, DCE, H2OM, O2M, O3M, T1, P1, F1, h2oll, o2ll, o3ll
from contracts.spectrum import implemented, AB

S = 'specs.perturb:'
SPC = 'pyrtlib.uncertainty.absmod_uncertainty:SpectroscopicParameter'
GAS = {'h2oll': 'H2OAbsModel', 'o2ll': 'O2AbsModel', 'o3ll': 'O3AbsModel'}


def current(I, st, env):
    """import_lineshape(name): the catalogue of the model in use (the one the contract talks about)"""
    return I.find_attr(st, I.cls(st, AB + GAS[env['name']]), env['name'])


FILES = {'pyrtlib.utils:import_lineshape': {'fn': current}, AB + 'AbsModel.implemented_models': {'fn': implemented}}


def sp(d, value, uncer, name=''):
    return d.obj(SPC, value=value, uncer=uncer, units='u', refer='r', name=name)


def parameters(d):
    n, m = d.size('na', 1, rng=(1, 6)), d.size('nb', 1, rng=(1, 5))
    return n, d.pdict({'A': sp(d, d.array('A', (n,)), d.array('uA', (n,), '0+'), 'first'), 'B': sp(d, d.real('B', np=True), d.real('uB', '0+')),
                       'C': sp(d, d.array('C', (m,)), d.real('uC', '0+', np=True)), 'D': sp(d, d.real('D'), d.array('uD', (m,), '0+'))})


def perturbing(whole):
    def build(d, v):
        what, mode = v
        n, P = parameters(d)
        d.classattr(SPC, 'SP', d.pdict({}))
        return dict(args=[P, d.plist(list(what)), mode, None if whole else d.int('index', 0, rng=(0, 5))], modifies_class=[(SPC, 'SP')])
    return build


WHAT = [((), 'max'), ((), 'min'), ((), 'non'), (('A',), 'max'), (('A',), 'min'), (('C', 'A'), 'max'), (('B', 'D'), 'min'), (('A', 'B'), 'non'), (('A',), 'ran'), ((), 'up'), (('B',), '')]
for _w in (False, True):
    _ok = WHAT if _w else [x for x in WHAT if x[0] and 'C' not in x[0] or x[1] not in ('max', 'min')] + [((), 'max'), (('C', 'A'), 'min')]
    C('perturb_' + ('whole' if _w else 'index'), ['C13'], S + 'perturb', S + 'perturbed', perturbing(_w), variants=_ok, requires=S + 'in_range', preload=[SPC])
C('perturb_keeps', ['C13'], S + 'perturb_then_write', S + 'registered', perturbing(True), variants=[((), 'max'), (('A', 'B'), 'min'), ((), 'non')], preload=[SPC])


def table(make, cls, attr):
    def build(d, v):
        ll = make(d, v)
        d.classattr(AB + cls, 'model', 'none')
        d.classattr(AB + cls, attr, ll)
        if not d.symbolic:
            d.setglobal(AB[:-1], 'import_lineshape', lambda name: ll)
        return dict(args=[v], ghost=[ll], scratch=[])
    return build


def nonempty(make):
    return make


for _n, _m, _c, _a, _ms in (('water', h2oll, 'H2OAbsModel', 'h2oll', H2OM), ('oxygen', o2ll, 'O2AbsModel', 'o2ll', O2M), ('ozone', o3ll, 'O3AbsModel', 'o3ll', O3M)):
    C(_n + '_parameters', ['C13'], S + _n + '_table', S + _n + '_values', table(_m, _c, _a), variants=_ms, opaque=FILES, preload=[SPC, AB + _c])
    C(_n + '_parameters_own', ['C13'], S + _n + '_scribble', S + _n + '_scribbled', table(_m, _c, _a), variants=_ms, opaque=FILES, preload=[SPC, AB + _c], requires=S + 'has_lines')


# ------------------------------------------------------------------ absorption with parameters
def amu_of(d, cols):
    return d.pdict({k: sp(d, v, d.real('u' + k, '0+'), k) for k, v in cols.items()})


def h2o(d, m):
    n = d.size('n', 0, rng=(0, 8))
    ll = h2oll(d, m, n)
    arr = [('FL', '+', (20.0, 900.0)), ('S', '0+', (0.0, 1e-11)), ('B2', None, (0.1, 9.0)), ('gamma_a', '+', (2.0, 4.0)), ('n_a', None, (0.5, 0.9)), ('gamma_w', '+', (10.0, 20.0)), ('n_w', None, (0.5, 1.2))]
    if m not in ('R98', 'R03', 'R16', 'R17'):
        arr += [('delta_a', None, (-0.2, 0.2)), ('n_da', None, (0.3, 2.6)), ('delta_w', None, (-1.0, 1.0)), ('n_dw', None, (0.3, 2.0))]
    elif m != 'R98':
        arr += [('SR', None, (-0.1, 0.1))]
    cols = {k: d.array('amu_' + k, (n,), s, r) for k, s, r in arr}
    cols.update(con_Cf=d.real('acf', '+', (5e-10, 6e-10), np=True), con_Cs=d.real('acs', None, (-1e-8, 2e-8), np=True), con_Xf=d.real('axcf', None, (2.0, 4.0), np=True),
                con_Xs=d.real('axcs', None, (4.0, 9.0), np=True), con_Cf_factr=d.real('afr', '+', (0.8, 1.3)), con_Cs_factr=d.real('asr', '+', (0.7, 1.1)))
    d.classattr(A + 'H2OAbsModel', 'model', m)
    d.classattr(A + 'H2OAbsModel', 'h2oll', ll)
    return dict(args=[d.obj(A + 'H2OAbsModel', _h2oll=None), d.real('pdry', '+', (0.001, 108.0), log=True), d.real('vx', '+', (0.9, 1.7)),
                      d.real('ekpa', '+', (1e-6, 7.0), log=True, np=True), F1(d), amu_of(d, cols)], ghost=[m, ll], scratch=[ll], modifies_class=[(A + 'H2OAbsModel', 'h2oll')])


H2OPQ = dict(DCE, **{A + 'H2OAbsModel.h2o_continuum_mwl24': {'result': 'scalar', 'drop': ('self',)},
                     A + 'H2OAbsModel.h2o_continuum': {'result': ('array', lambda I, st, env: (env['nfreq'],)), 'drop': ('self',)}})
C('h2o_perturbed', ['C13'], A + 'H2OAbsModel.h2o_absorption', S + 'h2o_perturbed', h2o, variants=H2OM, opaque=H2OPQ)


def o2(d, m):
    n = d.size('n', 38 if m in ('R23', 'R24') else 1, rng=(38, 52) if m in ('R23', 'R24') else (1, 52))
    ll = o2ll(d, m, n)
    arr = [('O2FL', '+', (50.0, 70.0)), ('O2S', '+', (1e-19, 1e-14)), ('O2BE', None, (0.0, 7.0)), ('O2gamma', '+', (0.5, 2.0)), ('O2gamma_NL', '+', (0.5, 2.0))]
    if m in ('R98', 'R03', 'R17', 'R18', 'R19', 'R19SD'):
        arr += [('O2_V', None, (-0.2, 0.8)), ('O2_V_NL', None, (-0.2, 0.8))]
    else:
        arr += [('y1', None, (-0.2, 0.8)), ('dnu0', None, (-1e-3, 1e-3)), ('dnu1', None, (-1e-3, 1e-3))]
    if m in ('R98', 'R03', 'R17', 'R18', 'R19', 'R19SD', 'R23', 'R24'):
        arr += [('Y300', None, (-0.4, 0.6)), ('Y300_NL', None, (-0.4, 0.6))]
    else:
        arr += [('y0', None, (-0.4, 0.6))]
    cols = {k: d.array('amu_' + k, (n,), s, r) for k, s, r in arr}
    cols.update(WB300=d.real('awb', '+', (0.4, 0.6)), X05=d.real('ax', None, (0.7, 0.9)), w2a=1.2, X11=0.785, X16=0.765, Snr=1.6e-17, O2_nS=2.0)
    d.classattr(A + 'O2AbsModel', 'model', m)
    d.classattr(A + 'O2AbsModel', 'o2ll', ll)
    return dict(args=[d.obj(A + 'O2AbsModel', _o2ll=None), d.real('pdry', '+', (0.001, 108.0), log=True), d.real('vx', '+', (0.9, 1.7)),
                      d.real('ekpa', '0+', (1e-6, 7.0)), d.real('f', '+', (40.0, 80.0)), amu_of(d, cols)], ghost=[m, ll], scratch=[ll], modifies_class=[(A + 'O2AbsModel', 'o2ll')])


C('o2_perturbed', ['C13'], A + 'O2AbsModel.o2_absorption', S + 'o2_perturbed', o2, variants=O2M, opaque=DCE, requires='specs.absorption:o2_enough')


def o3(d, m):
    n = d.size('nz', 0, rng=(0, 8))
    ll = o3ll(d, m, n)
    cols = dict(O3_FL=d.array('afl', (n,), '+', (48.0, 54.0), kind='incr'), O3_S1=d.array('as1', (n,), '0+', (0.0, 5.0)), O3_B=d.array('ab', (n,), None, (0.0, 6.0)),
                O3_W=d.array('aw', (n,), '+', (1e-3, 3e-3)), O3_X=d.array('axx', (n,), None, (0.5, 0.9)), O3_SR=d.array('asr', (n,), None, (0.0, 0.1)))
    d.classattr(A + 'O3AbsModel', 'model', m)
    d.classattr(A + 'O3AbsModel', 'o3ll', ll)
    return dict(args=[d.obj(A + 'O3AbsModel', _o3ll=None), T1(d), P1(d), d.real('f', '+', (47.0, 55.0), special=()), d.real('o3n', '+', (1e15, 6e18), np=True), amu_of(d, cols)],
                ghost=[m, ll], scratch=[ll], modifies_class=[(A + 'O3AbsModel', 'o3ll')])


C('o3_perturbed', ['C13'], A + 'O3AbsModel.o3_absorption', S + 'o3_perturbed', o3, variants=O3M, opaque=DCE, requires=S + 'o3_amu_ordered')


def with_table(cls, attr, make, own):
    def build(d, m):
        ll = make(d, m)
        d.classattr(AB + cls, 'model', 'none')
        d.classattr(AB + cls, attr, ll)
        if not d.symbolic:
            d.setglobal(AB[:-1], 'import_lineshape', lambda name: ll)
        return dict(args=[d.obj(AB + cls, **{'_' + attr: None})] + own(d) + [m], ghost=[ll], scratch=[ll], modifies_class=[(AB + cls, attr)])
    return build


C('h2o_with_table', ['C13'], S + 'h2o_with_table', S + 'h2o_without', with_table('H2OAbsModel', 'h2oll', h2oll, lambda d: [
    d.real('pdry', '+', (0.001, 108.0), log=True), d.real('vx', '+', (0.9, 1.7)), d.real('ekpa', '+', (1e-6, 7.0), log=True, np=True), F1(d)]),
  variants=H2OM, opaque=dict(H2OPQ, **FILES), preload=[SPC, AB + 'H2OAbsModel'])
C('o2_with_table', ['C13'], S + 'o2_with_table', S + 'o2_without', with_table('O2AbsModel', 'o2ll', o2ll, lambda d: [
    d.real('pdry', '+', (0.001, 108.0), log=True), d.real('vx', '+', (0.9, 1.7)), d.real('ekpa', '0+', (1e-6, 7.0)), d.real('f', '+', (40.0, 80.0))]),
  variants=O2M, opaque=dict(DCE, **FILES), preload=[SPC, AB + 'O2AbsModel'], requires=S + 'o2_enough')
C('o3_with_table', ['C13'], S + 'o3_with_table', S + 'o3_without', with_table('O3AbsModel', 'o3ll', o3ll, lambda d: [
    T1(d), P1(d), d.real('f', '+', (47.0, 55.0), special=()), d.real('o3n', '+', (1e15, 6e18), np=True)]),
  variants=O3M, opaque=dict(DCE, **FILES), preload=[SPC, AB + 'O3AbsModel'], requires=S + 'o3_sorted')
