from contracts.base import C
from contracts.basic import T
from contracts.rte import RTE, AB, gases
from contracts.spectrum import STEPS, IMPL, GASES

S = 'specs.weighting:'
WF = 'pyrtlib.weighting_functions:WeightingFunctions'


def profiles(d, v):
    n = d.size('n', 1)
    return dict(args=[d.array('z', (n,), '0+', (0.0, 40.0), kind='incr'), d.array('p', (n,), '+', (1.0, 1000.0)), T(d, n),
                      d.array('rh', (n,), '0+', (0.0, 1.0))] + ([d.real('step', '+', (0.2, 5.0))] if v else []))


C('wf_new', ['C20'], S + 'create', S + 'created', profiles, variants=[False, True], requires=S + 'ascending', preload=[WF])


def weighting(d, n, nf, sat=None, em=None, model='R19SD', angle=None, **more):
    gases(d, 'R98', 'R98', '')
    return d.obj(WF, zinterp=d.array('z', (n,), '0+', (0.0, 60.0), kind='incr'), pinterp=d.array('p', (n,), '+', (1.0, 1000.0)),
                 tinterp=T(d, n), rhinterp=d.array('rh', (n,), '0+', (0.0, 1.0)), _frequencies=d.array('frq', (nf,), '+', (10.0, 190.0)),
                 _satellite=sat, emissivity=em, model=model, angle=angle, bandpass=None, legend_labels=None, **more)


def simulation(d, v):
    sat, vec, model = v
    n, nf = d.size('n', 2, rng=(2, 9)), d.size('nf', 1, rng=(1, 3))
    o = weighting(d, n, nf, sat, d.array('es', (nf,), '0+', (0.0, 1.0)) if vec else d.real('es', '0+', (0.0, 1.0)), model,
                  d.real('angle', '+', (5.0, 170.0), special=(90.0,)))
    d.classattr(RTE, '_from_sat', d.bool('old_from_sat'))
    d.classattr(RTE, '_emissivity', d.real('old_emissivity', '0+', (0.0, 1.0)))
    return dict(args=[o], ghost=[d.plist(list(IMPL['Oxygen']))],
                modifies_class=[(RTE, '_from_sat'), (RTE, '_emissivity')] + [(AB + c, 'model') for c in ('H2OAbsModel', 'O2AbsModel', 'N2AbsModel', 'LiqAbsModel')] +
                [(AB + c, c[:-8].lower() + 'll') for c in GASES])


C('wf_calculation', ['C20'], WF + '._perform_calculation', S + 'calculation', simulation,
  variants=[(True, False, 'R19SD'), (False, False, 'R98'), (True, True, 'R24'), (False, True, 'R22SD')], opaque=STEPS,
  requires=S + 'calculation_defined', weight=2.0)


def result_of_run(I, st, env):
    """what a simulation returns: arrays of one value per frequency, angle (one) and level"""
    from pyvc import terms as t_
    from pyvc.values import PDict
    o = env['self']
    nf, n = st.heap[o.loc]['_frequencies'].shape[0], st.heap[o.loc]['zinterp'].shape[0]
    return PDict(st.alloc({k: st.new_arr((nf, t_.ONE, n), lambda ix, k=k: t_.app('run:' + k, *ix))
                           for k in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry')}))


C('wf_generate', ['C20'], WF + '.generate_wf', S + 'generate',
  lambda d, v: dict(args=[weighting(d, d.size('n', 2, rng=(2, 9)), d.size('nf', 1, rng=(1, 3)), v, 1.0, 'R19SD', 90.0)], modifies=('l0',)),
  variants=[True, False], opaque={WF + '._perform_calculation': {'fn': result_of_run}}, requires=S + 'generate_defined')


def table(d, v):
    m, c = d.size('m', 1, rng=(1, 5)), d.size('c', 1)
    bp = d.array('bandpass', (m,), '+', (1, 4), dtype='I')
    rows = d.size('rows', 1) if d.symbolic else int(bp.sum())
    return dict(args=[d.obj(WF), d.array('a', (rows, c), None, (0.0, 5.0)), bp])


C('wf_mean_channel', ['C20'], WF + '._mean_channel', S + 'mean_channel', table, requires=S + 'channels_fit')
for _n, _v in (('array', lambda d: d.array('f', (d.size('k', 1),), '+')), ('list', lambda d: d.plist([1.0])), ('real', lambda d: d.real('f')), ('none', lambda d: None)):
    C('wf_frequencies_' + _n, ['C20'], WF + '.frequencies', S + 'set_frequencies',
      lambda d, v, _v=_v: dict(args=[weighting(d, d.size('n', 2, rng=(2, 9)), 2, True, 1.0, 'R98', 90.0), _v(d)], modifies=('_frequencies',)), call='set', weight=0.3)
for _n, _v in (('bool', lambda d: d.bool('b')), ('int', lambda d: d.int('b')), ('text', lambda d: 'True'), ('none', lambda d: None)):
    C('wf_satellite_' + _n, ['C20'], WF + '.satellite', S + 'set_satellite',
      lambda d, v, _v=_v: dict(args=[weighting(d, d.size('n', 2, rng=(2, 9)), 2, True, 1.0, 'R98', 90.0), _v(d)], modifies=('_satellite',)), call='set', weight=0.3)
C('wf_get_frequencies', ['C20'], WF + '.frequencies', S + 'get_frequencies', lambda d, v: dict(args=[weighting(d, 3, 2, True, 1.0, 'R98', 90.0)]), weight=0.3)
C('wf_get_satellite', ['C20'], WF + '.satellite', S + 'get_satellite', lambda d, v: dict(args=[weighting(d, 3, 2, d.bool('s'), 1.0, 'R98', 90.0)]), weight=0.3)
