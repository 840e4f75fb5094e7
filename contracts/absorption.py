from contracts.base import C

A = 'pyrtlib.absorption_model:'
S = 'specs.absorption:'
DCE = {'pyrtlib.utils:_dcerror': {'result': 'complex'}}

N2M = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24']
H2OM = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
O2M = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R22', 'R23', 'R24']
O3M = ['R18', 'R22', 'R23']


def T1(d):
    return d.real('t', '+', (180.0, 330.0))


def P1(d):
    return d.real('p', '+', (0.01, 1080.0), log=True)


def F1(d, hi=900.0, special=(22.235, 118.75, 183.31)):
    return d.real('f', '+', (1.0, hi), special=special)


# ---------------------------------------------------------------- complex error function
C('dcerror', ['C07', 'C08', 'C09'], 'pyrtlib.utils:_dcerror', S + '_dcerror',
  lambda d, v: dict(args=[d.real('x', None, (-6.0, 6.0)), d.real('y', None, (-2.0, 6.0), special=(0.0,))]))

# ---------------------------------------------------------------- C09
def n2(d, v, n=True):
    d.classattr(A + 'N2AbsModel', 'model', v)
    return [T1(d), P1(d), F1(d)]


C('n2_absorption', ['C09'], A + 'N2AbsModel.n2_absorption', S + 'n2_absorption', lambda d, v: dict(args=n2(d, v), ghost=[v]),
  variants=N2M + ['R99', 'zzz'])
C('n2_absorption_mwl24', ['C09'], A + 'N2AbsModel.n2_absorption_mwl24', S + 'n2_absorption_mwl24', lambda d, v: dict(args=[T1(d), P1(d), F1(d)]))
C('n2_quadratic', ['C09'], S + 'n2_scaled', S + 'n2_scaled_law', lambda d, v: dict(args=[d.real('k', '+', (0.1, 9.0))] + n2(d, v)),
  variants=['R98', 'R03', 'R19', 'R24', 'MWL24'])


def o3ll(d, m, n=None):
    n = n if n is not None else d.size('nz', 0, rng=(0, 8))
    return d.ns('o3ll', fl=d.array('fl3', (n,), '+', (48.0, 54.0), kind='incr'), s1=d.array('s13', (n,), '0+', (0.0, 5.0)),
                b=d.array('b3', (n,), None, (0.0, 6.0)), w=d.array('w3', (n,), '+', (1e-3, 3e-3)), x=d.array('x3', (n,), None, (0.5, 0.9)),
                sr=d.array('sr3', (n,), None, (0.0, 0.1)), reftline=d.real('reft3', '+', (290.0, 300.0)))


def o3(d, v):
    m, zero = v
    ll = o3ll(d, m)
    d.classattr(A + 'O3AbsModel', 'model', m)
    d.classattr(A + 'O3AbsModel', 'o3ll', ll)
    return dict(args=[d.obj(A + 'O3AbsModel', _o3ll=None), T1(d), P1(d), d.real('f', '+', (47.0, 55.0), special=()),
                      d.real('o3n', '0+', (1e15, 6e18), np=True) if not zero else d.const0(), None], ghost=[m, ll])


C('o3_absorption', ['C09'], A + 'O3AbsModel.o3_absorption', S + 'o3_absorption', o3, requires=S + 'o3_ordered',
  variants=[(m, z) for m in O3M for z in (False, True)] + [('R22SD', False)], opaque=DCE)

# ---------------------------------------------------------------- C07
C('h2o_continuum', ['C07'], A + 'H2OAbsModel.h2o_continuum', S + 'h2o_continuum',
  lambda d, v: dict(args=[d.obj(A + 'H2OAbsModel', _h2oll=None), F1(d, special=(299.792458, 599.584916, 899.377374)), d.real('vx', '+', (0.9, 1.7)),
                          d.size('nfreq', 0, rng=(0, 3))]), requires=S + 'below_1199')
C('h2o_continuum_mwl24', ['C07'], A + 'H2OAbsModel.h2o_continuum_mwl24', S + 'h2o_continuum_mwl24',
  lambda d, v: dict(args=[d.obj(A + 'H2OAbsModel', _h2oll=None), F1(d), d.real('vx', '+', (0.9, 1.7))]))
H2OLL = [('fl', '+', (20.0, 900.0)), ('s1', '0+', (0.0, 1e-11)), ('b2', None, (0.1, 9.0)), ('w0', '+', (2e-3, 4e-3)), ('x', None, (0.5, 0.9)),
         ('w0s', '+', (0.01, 0.02)), ('xs', None, (0.5, 1.2))]
H2OSH = [('sh', None, (-2e-4, 2e-4)), ('xh', None, (0.3, 2.6)), ('shs', None, (-1e-3, 1e-3)), ('xhs', None, (0.3, 2.0))]


def h2oll(d, m, n=None):
    n = n if n is not None else d.size('n', 0, rng=(0, 8))
    cols = list(H2OLL)
    if m in ('R03', 'R16', 'R17'):
        cols.append(('sr', None, (-0.1, 0.1)))
    elif m != 'R98':
        cols += H2OSH
        if m != 'R18':
            cols += [('aair', None, (0.0, 3.0)), ('aself', None, (0.0, 12.0))]
    if m in SDM:
        cols += [('w2', None if m in SD2 else '0+', (0.0, 7e-4)), ('w2s', '0+', (0.0, 4e-3))]
    if m in SD2:
        cols += [('xw2', None, (0.3, 0.6)), ('xw2s', None, (0.3, 1.2)), ('d2', None, (-3e-5, 1e-5)), ('d2s', None, (0.0, 2e-3))]
    at = {c: d.array(c, (n,), s, r, zeros=0.3 if c in ('w2', 'w2s') else 0.0, special=(0.0,) if c == 'w2' else ()) for c, s, r in cols}
    if m == 'R20SD':
        at.update(d2air=d.real('d2air', None, (-3e-5, 3e-5)), d2self=d.real('d2self', None, (-3e-4, 3e-4)))
    at.update(reftline=d.real('reftline', '+', (290.0, 300.0)), reftcon=d.real('reftcon', '+', (290.0, 300.0)), cf=d.real('cf', '+', (5e-10, 6e-10)),
              xcf=d.real('xcf', None, (2.0, 4.0)), cs=d.real('cs', None, (-1e-8, 2e-8)), xcs=d.real('xcs', None, (4.0, 9.0)))
    return d.ns('h2oll', **at)


SDM = ('R19SD', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24')
SD2 = ('R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24')


def h2o(d, v):
    m, dry = v
    ll = h2oll(d, m)
    d.classattr(A + 'H2OAbsModel', 'model', m)
    d.classattr(A + 'H2OAbsModel', 'h2oll', ll)
    return dict(args=[d.obj(A + 'H2OAbsModel', _h2oll=None), d.real('pdry', '+', (0.001, 108.0), log=True), d.real('vx', '+', (0.9, 1.7)),
                      d.const0() if dry else d.real('ekpa', '+', (1e-6, 7.0), log=True, np=True), F1(d), None], ghost=[m, ll])


C('h2o_absorption', ['C07'], A + 'H2OAbsModel.h2o_absorption', S + 'h2o_absorption', h2o,
  variants=[(m, False) for m in H2OM] + [('R98', True), ('R24', True), ('R19SD', True)],
  opaque=dict(DCE, **{A + 'H2OAbsModel.h2o_continuum_mwl24': {'result': 'scalar', 'drop': ('self',)},
                      A + 'H2OAbsModel.h2o_continuum': {'result': ('array', lambda I, st, env: (env['nfreq'],)), 'drop': ('self',)}}))

# ---------------------------------------------------------------- C08
O2LL = [('fk', '+', (50.0, 70.0)), ('s300', '+', (1e-19, 1e-14)), ('be', None, (0.0, 7.0)), ('w300', '+', (0.5, 2.0))]


def o2ll(d, m, n=None):
    n = n if n is not None else d.size('n', 38 if m in ('R23', 'R24') else 1, rng=(38, 44) if m in ('R23', 'R24') else (1, 8))
    cols = list(O2LL)
    if m in ('R98', 'R03', 'R17', 'R18', 'R19', 'R19SD'):
        cols += [('y300', None, (-0.4, 0.6)), ('v', None, (-0.2, 0.8))]
    else:
        cols += [('y300' if m in ('R23', 'R24') else 'y0', None, (-0.4, 0.6)), ('y1', None, (-0.2, 0.8)), ('g0', None, (-0.1, 0.1)), ('g1', None, (-0.1, 0.1)),
                 ('dnu0', None, (-1e-3, 1e-3)), ('dnu1', None, (-1e-3, 1e-3))]
    at = {c: d.array(c, (n,), s, r) for c, s, r in cols}
    at['f'] = at.pop('fk')
    return d.ns('o2ll', wb300=d.real('wb300', '+', (0.4, 0.6)), x=d.real('x', None, (0.7, 0.9)), **at)


def o2(d, v):
    m = v
    ll = o2ll(d, m)
    d.classattr(A + 'O2AbsModel', 'model', m)
    d.classattr(A + 'O2AbsModel', 'o2ll', ll)
    return dict(args=[d.obj(A + 'O2AbsModel', _o2ll=None), d.real('pdry', '+', (0.001, 108.0), log=True), d.real('vx', '+', (0.9, 1.7)),
                      d.real('ekpa', '0+', (1e-6, 7.0)), d.real('f', '+', (40.0, 80.0)), None], ghost=[m, ll])


C('o2_absorption', ['C08'], A + 'O2AbsModel.o2_absorption', S + 'o2_absorption', o2, requires=S + 'o2_enough', variants=O2M, opaque=DCE, weight=2.0)
