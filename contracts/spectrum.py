import numpy as np
from contracts.base import C
from contracts.basic import T, with_n
from contracts.rte import R, RTE, AB, gases

S = 'specs.spectrum:'
TB = 'pyrtlib.tb_spectrum:TbCloudRTE'
GASES = ('H2OAbsModel', 'O2AbsModel', 'O3AbsModel')
ARRAYS = ('sptaudry', 'sptauwet', 'sptauliq', 'sptauice', 'awet', 'adry', 'ptaudry', 'ptaulay', 'ptauwet', 'ptauliq', 'ptauice',
          'tbtotal', 'tbatm', 'tmr', 'tmrcld', 'srho', 'swet', 'sdry', 'sliq', 'sice')


def levels(arg):
    """as many levels as positional argument number arg"""
    return lambda I, st, env: ([v for k, v in env.items() if k != '__class__'][arg].shape[0],)


MODELS = [(AB + c, a) for c in GASES for a in ('model', c[:-8].lower() + 'll')] + [(AB + 'N2AbsModel', 'model')]
STEPS = {
    R + 'vapor': {'result': ('tuple', [('array', levels(0)), ('array', levels(0))])},
    R + 'refractivity': {'result': ('tuple', [('array', levels(0))] * 3)},
    R + 'ray_tracing': {'result': ('array', levels(0))},
    R + 'exponential_integration': {'result': ('tuple', ['scalar', ('array', levels(1))])},
    R + 'clearsky_absorption': {'result': ('tuple', [('array', levels(1))] * 2), 'reads': MODELS},
    R + 'cloudy_absorption': {'result': ('tuple', [('array', levels(0))] * 2), 'reads': [(AB + 'LiqAbsModel', 'model')]},
    R + 'cloud_integrated_density': {'result': 'scalar'},
    R + 'planck': {'result': ('tuple', ['scalar', ('array', levels(1)), 'scalar', ('array', levels(1)), 'scalar', ('array', levels(1)), 'scalar']), 'reads': [(RTE, '_from_sat'), (RTE, '_emissivity')]},
    R + 'bright': {'result': 'scalar'},
    R + 'cloud_radiating_temperature': {'result': 'scalar'},
}


def catalogue(I, st, env):
    """import_lineshape(name): the catalogue of the model the class is set to"""
    from pyvc.values import Opq
    c = I.cls(st, AB + {'h2oll': 'H2OAbsModel', 'o2ll': 'O2AbsModel', 'o3ll': 'O3AbsModel'}[env['name']])
    return Opq('catalogue:%s:%s' % (env['name'], I.find_attr(st, c, 'model')))


IMPL = {'Oxygen': ('R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R22', 'R23', 'R24'),
        'WaterVapour': ('R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24'),
        'Ozone': ('R18', 'R22', 'R23')}


def implemented(I, st, env):
    from pyvc.values import PDict, PList
    return PDict(st.alloc({k: PList(st.alloc(list(v))) for k, v in IMPL.items()}))


FILES = {'pyrtlib.utils:import_lineshape': {'fn': catalogue}, AB + 'AbsModel.implemented_models': {'fn': implemented}}
STEPS.update(FILES)


def run_object(d, n, nf, na, v, prior=True):
    """a configured simulation in the state any earlier use may have left it"""
    m, n2, o3, sat, ray, cloudy, ozone, amu = v
    gases(d, m, n2, o3)
    d.classattr(AB + 'LiqAbsModel', 'model', m)
    d.classattr(RTE, '_from_sat', d.bool('old_from_sat'))
    d.classattr(RTE, '_emissivity', d.real('old_emissivity', '0+', (0.0, 1.0)))
    z = d.array('z', (n,), '0+', (0.0, 30.0), kind='incr')
    at = dict(z=z, p=d.array('p', (n,), '+', (10.0, 1000.0)), tk=T(d, n), rh=d.array('rh', (n,), '0+', (0.0, 1.0)),
              frq=d.array('frq', (nf,), '+', (10.0, 190.0)), angles=d.array('angles', (na,), '+', (10.0, 170.0), special=(90.0,)),
              o3n=d.array('o3n', (n,), '0+', (1e15, 6e18)) if ozone else None, amu=d.pdict({}) if amu and d.symbolic else None,
              ray_tracing=ray, _satellite=sat, cloudy=cloudy, _uncertainty=bool(amu and d.symbolic), nl=n, nf=nf, nang=na, ice=d.bool('ice'),
              _es=d.array('es', (nf,), '0+', (0.0, 1.0)), z0=d.real('z0', None, (-0.4, 2.0)))
    if cloudy:
        m1 = d.size('ncld', 1, rng=(1, 3))
        at.update(denliq=d.array('denliq', (n,), '0+', (0.0, 0.5), zeros=0.5), denice=d.array('denice', (n,), '0+', (0.0, 0.3), zeros=0.5),
                  beglev=d.array('beglev', (m1,), '0+', (0, 2), dtype='I'), endlev=d.array('endlev', (m1,), '0+', (1, 5), dtype='I'),
                  cldh=d.array('cldh', (2, m1), '0+'))
    if prior:
        shp = {'srho': (1, na), 'swet': (1, na), 'sdry': (1, na), 'sliq': (1, na), 'sice': (1, na)}
        for a in ARRAYS:
            sh = shp.get(a) or ((nf, na, n) if a.startswith('pt') or a in ('awet', 'adry') else (nf, na))
            at[a] = d.array('old_' + a, sh, None, (0.0, 300.0))
    return d.obj(TB, **at)


def execute(only_bt):
    def build(d, v):
        n, nf, na = d.size('n', 2, rng=(2, 9)), d.size('nf', 1, rng=(1, 3)), d.size('na', 1, rng=(1, 3))
        return dict(args=[run_object(d, n, nf, na, v), only_bt], ghost=[IMPL['Ozone']], modifies=ARRAYS,
                    modifies_class=[(RTE, '_from_sat'), (RTE, '_emissivity')] + [(AB + c, c[:-8].lower() + 'll') for c in GASES])
    return build


RUNS = [('R98', 'R98', '', True, False, False, False, False), ('R24', 'R24', 'R18', False, False, True, True, False),
        ('R19SD', 'R19SD', 'R18', True, True, True, True, True), ('R22SD', '', '', False, True, False, True, True)]
for _b in (True, False):
    C('execute_' + ('table' if _b else 'full'), ['C11', 'C12'] if _b else ['C11'], TB + '.execute', S + 'execute', execute(_b), variants=RUNS, opaque=STEPS,
      weight=3.0, requires=S + 'run_pre')


# ---------------------------------------------------------------- C12
def profile(kind):
    def build(d, v):
        absmdl, ozone, ray, sat, cloudy = v
        n, nf, na = d.size('n', 2, rng=(2, 9)), d.size('nf', 1, rng=(1, 3)), d.size('na', 1, rng=(1, 3))
        gases(d, 'R98', 'R98', '')
        d.classattr(AB + 'LiqAbsModel', 'model', 'R03')
        return dict(args=[d.array('z', (n,), None, (0.0, 30.0), kind=kind), d.array('p', (n,), '+', (1.0, 1000.0)), T(d, n), d.array('rh', (n,), '0+', (0.0, 1.0)),
                          d.array('frq', (nf,), '+', (10.0, 190.0)), d.array('angles', (na,), '+', (10.0, 170.0)),
                          d.array('o3n', (n,), '0+', (1e15, 6e18)) if ozone else None, absmdl, ray, sat, cloudy])
    return build


SETUPS = [('', False, False, True, False), ('R98', True, True, False, False), ('R19SD', True, False, True, True)]
for _k in ('incr', 'decr', 'any'):
    C('create_' + _k, ['C12'], S + 'create', S + 'created', profile(_k), variants=SETUPS, preload=[TB])
C('create_upside_down', ['C12'], S + 'create_upside_down', S + 'create', profile('incr'), variants=SETUPS, requires=S + 'several_levels', preload=[TB])


def simulation(value):
    def build(d, v):
        n, nf, na = d.size('n', 2, rng=(2, 9)), d.size('nf', 1, rng=(1, 3)), d.size('na', 1, rng=(1, 3))
        o = run_object(d, n, nf, na, ('R98', 'R98', '', v, False, False, False, False), prior=False)
        return dict(args=[o] + value(d, nf))
    return build


C('satellite_set', ['C12'], S + 'set_direction', S + 'set_direction_spec', simulation(lambda d, nf: [d.bool('v')]), variants=[True, False], preload=[TB])
for _n, _v in (('number', 'int'), ('text', 'True'), ('none', None), ('real', 0.5)):
    C('satellite_rejects_' + _n, ['C12'], S + 'set_direction', S + 'set_direction_spec', simulation(lambda d, nf, _v=_v: [d.int('v') if _v == 'int' else _v]), preload=[TB], weight=0.2)
    C('satellite_keeps_' + _n, ['C12'], S + 'keep_direction', S + 'always', simulation(lambda d, nf, _v=_v: [d.int('v') if _v == 'int' else _v]), variants=[True, False], preload=[TB], weight=0.2)
    if _n != 'real':
        C('emissivity_rejects_' + _n, ['C12'], S + 'set_emissivity', S + 'set_emissivity_bad', simulation(lambda d, nf, _v=_v: [d.int('v') if _v == 'int' else _v]), preload=[TB], weight=0.2)
        C('emissivity_keeps_' + _n, ['C12'], S + 'keep_emissivity', S + 'kept_emissivity', simulation(lambda d, nf, _v=_v: [d.int('v') if _v == 'int' else _v]), preload=[TB], weight=0.2)
C('emissivity_float', ['C12'], S + 'set_emissivity', S + 'set_emissivity_float', simulation(lambda d, nf: [d.real('v', None, (0.0, 1.0))]), preload=[TB])
C('emissivity_array', ['C12'], S + 'set_emissivity', S + 'set_emissivity_array', simulation(lambda d, nf: [d.array('v', (nf,), None, (0.0, 1.0))]), preload=[TB])
C('init_absmdl', ['C12'], S + 'set_model', S + 'model_set', simulation(lambda d, nf: ['R20']), preload=[TB])
C('set_amu', ['C12', 'C13'], S + 'set_perturbation', S + 'perturbation_set', simulation(lambda d, nf: [d.pdict({'gamma_a': 1.0})]), preload=[TB])


def clouds(d, v):
    order, cloudy = v
    n, m = d.size('n', 2, rng=(2, 9)), d.size('ncld', 1, rng=(1, 3))
    z = d.array('z', (n,), None, (0.0, 30.0), kind=order)
    h = d.array('cldh', (2, m), '0+', (0.0, 30.0))
    if not d.symbolic:      # heights of levels, mostly
        for i in range(2):
            for j in range(m):
                if d.rng.random() < 0.8:
                    h[i, j] = z[d.rng.randrange(n)]
    return dict(args=[z, d.array('p', (n,), '+', (1.0, 1000.0)), T(d, n), d.array('rh', (n,), '0+', (0.0, 1.0)), d.array('frq', (1,), '+', (10.0, 190.0)),
                      d.array('angles', (1,), '+', (10.0, 170.0)), True, cloudy, h, d.array('denice', (n,), '0+', (0.0, 0.3)),
                      d.array('denliq', (n,), '0+', (0.0, 0.3))])


C('init_cloudy', ['C12', 'C11'], S + 'set_clouds', S + 'clouds_set', clouds, variants=[(o, c) for o in ('incr', 'decr') for c in (True, False)], preload=[TB],
  requires=S + 'monotone')
