from contracts.base import C
from contracts.rte import AB
from contracts.spectrum import IMPL

MODELS = {'H2O': IMPL['WaterVapour'], 'O2': IMPL['Oxygen'], 'O3': IMPL['Ozone']}
A = 'pyrtlib.climatology.atmospheric_profiles:AtmosphericProfiles'
S = 'specs.catalogues:'
C('atm_profiles', ['C22'], A + '.atm_profiles', S + 'atm_profiles', lambda d, v: dict(args=[]), fresh=True, weight=0.3)
C('gl_atm', ['C22'], A + '.gl_atm', S + 'gl_atm', lambda d, v: dict(args=[d.int('atm', rng=(-3, 8))]), fresh=True)
C('gl_atm_minor', ['C22'], A + '.gl_atm_minor', S + 'gl_atm_minor', lambda d, v: dict(args=[d.int('gas', rng=(-3, 50))]), fresh=True)
C('gl_atm_trace', ['C22'], A + '.gl_atm_trace', S + 'gl_atm_trace', lambda d, v: dict(args=[d.int('gas', rng=(-3, 50))]), fresh=True)
for _g in ('minor', 'trace'):
    C('gl_atm_%s_list' % _g, ['C22'], A + '.gl_atm_' + _g, S + 'gl_atm_%s_list' % _g,
      lambda d, v: dict(args=[d.array('gases', (d.size('n', 1, rng=(1, 3)),), None, (5, 45), dtype='I')]), fresh=True)
C('implemented_models', ['C22'], AB + 'AbsModel.implemented_models', S + 'implemented_models', lambda d, v: dict(args=[]), fresh=True, weight=0.5)


def loading(gas):
    def build(d, v):
        c = AB + gas + 'AbsModel'
        d.classattr(c, 'model', 'R98')
        d.classattr(c, gas.lower() + 'll', None)
        return dict(args=[v, None if d.symbolic else d.pick('before', (None,) + (v,) * (3 * (v in MODELS[gas])) + MODELS[gas])],
                    modifies_class=[(c, 'model'), (c, gas.lower() + 'll')])
    return build


for _g, _x in (('H2O', ('R99', 'R22')), ('O2', ('R21SD', '')), ('O3', ('R24', 'R98'))):
    C('catalogue_' + _g.lower(), ['C22'], S + 'load_' + _g.lower(), S + 'catalogue_' + _g.lower(), loading(_g), variants=MODELS[_g] + _x,
      preload=[AB + _g + 'AbsModel'], weight=0.5, hist=False)
C('covariance_matrices', ['C22'], S + 'load_covariances', S + 'covariances', lambda d, v: dict(args=[]), weight=0.2, hist=False)
