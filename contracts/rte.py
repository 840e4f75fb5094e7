from contracts.base import C
from contracts.basic import T, with_n
from contracts.absorption import h2oll, o2ll, o3ll, O2M

R = 'pyrtlib.rt_equation:RTEquation.'
RTE = 'pyrtlib.rt_equation:RTEquation'
S = 'specs.rte:'

# ---------------------------------------------------------------- C03
C('exponential_integration', ['C03', 'C11'], R + 'exponential_integration', S + 'exponential_integration',
  with_n(lambda d, v, n: dict(args=[v[0], d.array('x', (n,), '0+' if v[1] else None, (0.0, 5.0) if v[1] else (-1.0, 9.0), zeros=0.4, special=(1e-10, 1e-9)),
                                    d.array('ds', (n,), '0+', (0.0, 2.0)),
                                    d.size('ibeg', 0, rng=(0, 3)), n, d.real('factor', None, (0.05, 2.0))])),
  requires=S + 'ei_pre', variants=[(True, True), (False, True), (True, False), (False, False)])

# ---------------------------------------------------------------- C05
C('ray_tracing', ['C05', 'C11'], R + 'ray_tracing', S + 'ray_tracing',
  with_n(lambda d, v, n: dict(args=[d.array('z', (n,), '0+', (0.0, 30.0), kind='incr'),
                                    d.array('nref', (n,), '+', (0.9999999, 1.0004), special=(1.0, 1.0001)),
                                    d.real('angle', None, (-95.0, 95.0), special=(89.0, 91.0, -89.0, -91.0, 90.0)), d.real('z0', None, (-0.4, 4.0))])),
  weight=2.0)

# through a medium of constant refractive index the ray is a straight line
C('straight_ray', ['C05'], R + 'ray_tracing', S + 'straight_ray',
  lambda d, v: dict(args=[d.constarray([0.0, 1.0, 10.0, 25.0]), d.constarray([1.0, 1.0, 1.0, 1.0]), d.const(10.0), d.const(0.0)]))

# ---------------------------------------------------------------- C01
TAU = dict(sign='0+', rng=(0.0, 3.0), zeros=0.1)


def tau(d, n, name='tau'):
    return d.array(name, (n,), '0+', (0.0, 3.0), zeros=0.1, special=(60.0, 125.0, 200.0))


def direction(d, v):
    d.classattr(RTE, '_from_sat', v == 'up')
    if v == 'up':
        e = d.real('eps', '0+', (0.0, 1.0), special=(0.0, 1.0))
        d.classattr(RTE, '_emissivity', e)
        return [e]
    return []


for _v in ('down', 'up'):
  C('planck_' + _v, ['C01', 'C11'], R + 'planck', S + 'planck_' + _v,
  with_n(lambda d, v, n: dict(args=[d.real('frq', '+', (1.0, 300.0)), T(d, n), tau(d, n)], ghost=direction(d, v))),
    variants=[_v], weight=3.0)


def sky(d, v):
    d.classattr(RTE, '_from_sat', v == 'up')
    e = d.real('eps', '0+', (0.0, 1.0), special=(0.0, 1.0))
    if v == 'up':
        d.classattr(RTE, '_emissivity', e)
    return e


for _v in ('down', 'up'):
    C('isothermal_step_' + _v, ['C01'], S + 'isothermal_step_' + _v, S + 'isothermal_step_' + _v + '_law',
      with_n(lambda d, v, n: dict(args=[d.real('frq', '+', (1.0, 300.0)), d.real('t0', '+', (180.0, 330.0)), tau(d, n), d.size('i', 0, rng=(0, 5))],
                                  ghost=(sky(d, v), [])[1])), variants=[_v], requires=S + 'inside', tol=1e-6, atol=1e-9)
    C('layer_step_' + _v, ['C01'], S + 'layer_step_' + _v, S + 'layer_step_' + _v + '_law',
      with_n(lambda d, v, n: dict(args=[d.real('frq', '+', (1.0, 300.0)), T(d, n), tau(d, n), d.size('i', 0, rng=(0, 5))],
                                  ghost=(sky(d, v), [])[1])), variants=[_v], requires=S + 'inside', tol=1e-6, atol=1e-9)

# ---------------------------------------------------------------- C04
def cloud_layer(d, v, n):
    """opacities and emitted radiances of the path; sampled with values that can occur (neither decreases upwards)"""
    if d.symbolic:
        tp, ba = d.array('tp', (n,), '0+'), d.array('ba', (n,), '0+')
    else:
        tp = d.array('tp', (n,), '0+', (1e-3, 250.0), log=True, kind='incr', special=(125.0,))
        ba = d.array('ba', (n,), '0+', (0.1, 60.0), kind='incr')
    return dict(args=[d.size('ib', 0, rng=(0, 2)), d.size('it', 0, rng=(0, 5)), d.real('hvk', '+', (0.1, 10.0)), tp, ba])


C('cloud_radiating_temperature', ['C04', 'C11'], R + 'cloud_radiating_temperature', S + 'cloud_radiating_temperature', with_n(cloud_layer),
  requires=S + 'crt_pre')
C('cloud_integrated_density', ['C04', 'C11'], R + 'cloud_integrated_density', S + 'cloud_integrated_density',
  lambda d, v: (lambda n, m: dict(args=[d.array('den', (n,), '0+', (0.0, 2.0)), d.array('ds', (n,), '0+', (0.0, 2.0)),
                                        d.array('base', (m,), '0+', (0, 4), dtype='I'), d.array('top', (m,), '0+', (0, 6), dtype='I')]))(
      d.size('n', 1), d.size('m', 0, rng=(0, 4))), requires=S + 'cid_pre')
LIQ = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24']
LA = 'pyrtlib.absorption_model:LiqAbsModel'


def liq(d, v, ghost=True):
    d.classattr(LA, 'model', v)
    a = [d.real('water', None, (-0.2, 2.0), special=(0.0,)), d.real('frq', '+', (1.0, 400.0)), d.real('t', '+', (230.0, 310.0))]
    return dict(args=a, ghost=[v] if ghost else [])


C('liquid', ['C04'], LA + '.liquid_water_absorption', S + 'liquid_water_absorption', liq, variants=LIQ)
C('liquid_unknown', ['C04'], LA + '.liquid_water_absorption', S + 'liquid_unknown', liq, variants=['R99', 'zzz'], weight=0.2)
C('dilec12', ['C04'], 'pyrtlib.utils:dilec12', S + 'dilec12', lambda d, v: dict(args=[d.real('frq', '+', (1.0, 400.0)), d.real('t', '+', (230.0, 310.0))]))


def liqk(d, v):
    d.classattr(LA, 'model', v)
    return dict(args=[d.real('k', '+', (0.1, 5.0)), d.real('water', '0+', (0.0, 2.0)), d.real('frq', '+', (1.0, 400.0)), d.real('t', '+', (230.0, 310.0))])


C('liquid_linear', ['C04'], S + 'liquid_scaled', S + 'liquid_scaled_law', liqk, variants=['R98', 'R03', 'R19SD'])


def cloudy(d, v, n):
    d.classattr(LA, 'model', 'R19SD')
    return dict(args=[d.array('t', (n,), '+', (230.0, 310.0)), d.array('denl', (n,), None, (-0.1, 1.0), zeros=0.3),
                      d.array('deni', (n,), None, (-0.1, 1.0), zeros=0.3), d.real('frq', '+', (1.0, 400.0))])


C('cloudy_absorption', ['C04', 'C11'], R + 'cloudy_absorption', S + 'cloudy_absorption', with_n(cloudy),
  opaque={LA + '.liquid_water_absorption': {'result': 'scalar', 'reads': [(LA, 'model')]}})

# ---------------------------------------------------------------- C10
AB = 'pyrtlib.absorption_model:'
GAS = {AB + 'H2OAbsModel.h2o_absorption': {'result': ('tuple', ['scalar', 'scalar']), 'drop': ('self',)},
       AB + 'O2AbsModel.o2_absorption': {'result': ('tuple', ['scalar', 'scalar']), 'drop': ('self',)},
       AB + 'O3AbsModel.o3_absorption': {'result': 'scalar', 'drop': ('self',)},
       AB + 'N2AbsModel.n2_absorption': {'result': 'scalar'}}


# names any loaded catalogue carries
LOADED = {'h2oll': ('mtx', 'ctr', 'fl', 's1', 'b2', 'w0', 'x', 'reftline'), 'o2ll': ('f', 's300', 'be', 'w300', 'wb300', 'x'),
          'o3ll': ('mtx', 'fl', 's1', 'b', 'w', 'x', 'sr', 'reftline')}


def gases(d, m, n2, o3):
    """the gas models in force; their line catalogues only matter to the absorption functions, used through their contract"""
    for c, ll, mk, mod in (('H2OAbsModel', 'h2oll', h2oll, m), ('O2AbsModel', 'o2ll', o2ll, m if m in O2M else 'R22'),
                           ('O3AbsModel', 'o3ll', o3ll, o3)):
        d.classattr(AB + c, 'model', mod)
        if d.symbolic:      # loaded by an earlier run, for whatever model
            d.classattr(AB + c, ll, d.ns(ll, **{a: d.array('old_%s_%s' % (ll, a), (2,)) for a in LOADED[ll]}))
        elif mod:
            old = mk(d, mod)
            for a in LOADED[ll]:
                if not hasattr(old, a):
                    setattr(old, a, d.array('old_%s_%s' % (ll, a), (2,)))
            d.classattr(AB + c, ll, old)
    d.classattr(AB + 'N2AbsModel', 'model', n2)


def clearsky(d, v, n):
    m, n2, o3, ozone, amu = v
    gases(d, m, n2, o3)
    return dict(args=[d.array('p', (n,), '+', (10.0, 1050.0)), T(d, n), d.array('e', (n,), '0+', (1e-4, 9.0)), d.real('frq', '+', (10.0, 200.0)),
                      d.array('o3n', (n,), '0+', (1e15, 6e18)) if ozone else None, d.pdict({}) if amu and d.symbolic else None], ghost=[n2, o3])


C('clearsky_absorption', ['C10', 'C11'], R + 'clearsky_absorption', S + 'clearsky_absorption', with_n(clearsky), opaque=GAS,
  variants=[('R98', 'R98', '', True, False), ('R19SD', '', 'R18', True, False), ('R03', 'R03', 'R18', False, True), ('R22SD', 'R22SD', 'R22', True, True),
            ('R24', 'R24', 'R23', True, True), ('R20', 'R20', 'R98', True, True), ('R16', None, 'R18', True, False), ('MWL24', 'MWL24', 'R22', True, False),
            ('R17', 'R17', 'R21', True, False), ('R18', 'R18', 'R21SD', True, False), ('R19', 'R19', 'R22SD', True, False),
            ('R20SD', 'R20SD', 'R23SD', True, False), ('R21SD', 'R21SD', 'R24', True, False), ('R23SD', 'R23SD', 'R19', True, False)])
