from contracts.base import C

U = 'pyrtlib.utils:'
R = 'pyrtlib.rt_equation:RTEquation.'
S = 'specs.basic:'
NAMES = ['avogadro', 'boltzmann', 'EarthRadius', 'gravity', 'light', 'Np2dB', 'planck', 'Rdry', 'Rwatvap', 'Tcosmicbkg', 'R',
         'speed', 'Planck', 'r']


def T(d, n, name='t'):
    return d.array(name, (n,), '+', rng=(180.0, 330.0), special=(273.15, 263.16, 273.16, 373.16))


def P(d, n, name='p'):
    return d.array(name, (n,), '+', rng=(0.05, 1050.0), log=True, special=(1013.25,))


def pos(d, n, name, hi=50.0, zeros=0.1):
    return d.array(name, (n,), '0+', rng=(1e-4, hi), zeros=zeros)


# ---------------------------------------------------------------- C02
C('constants', ['C02'], U + 'constants', S + 'constants', lambda d, v: dict(args=[v]), variants=NAMES, weight=0.2)
C('constants_all', ['C02'], U + 'constants', S + 'constants_all', lambda d, v: dict(args=[]), weight=0.2)
C('tk2b_mod', ['C01', 'C02', 'C04', 'C11'], U + 'tk2b_mod', S + 'tk2b_mod',
  lambda d, v: dict(args=[d.real('hvk', '+', (0.01, 60.0), log=True), d.real('t', '+', (2.0, 400.0))]))
C('bright', ['C02', 'C04', 'C11'], R + 'bright', S + 'bright',
  lambda d, v: dict(args=[d.real('hvk', '+', (0.01, 60.0), log=True), d.real('b', '0+', (0.0, 400.0), special=(0.0, 1e-9, 1e-4))]))
C('planck_roundtrip', ['C02'], 'specs.glue:planck_roundtrip', 'specs.glue:planck_roundtrip_spec',
  lambda d, v: dict(args=[d.real('hvk', '+', (0.01, 60.0)), d.real('t', '+', (2.0, 400.0))]))
C('radiance_roundtrip', ['C02'], 'specs.glue:radiance_roundtrip', 'specs.glue:radiance_roundtrip_spec',
  lambda d, v: dict(args=[d.real('hvk', '+', (0.01, 60.0)), d.real('b', '+', (1e-3, 400.0), special=(1e-9, 1e-7, 1e-5))]))
C('planck_positive', ['C02'], 'specs.glue:planck_positive', 'specs.glue:always',
  lambda d, v: dict(args=[d.real('hvk', '+', (0.01, 60.0), hard=True), d.real('t', '+', (2.0, 400.0), hard=True)]))
C('planck_monotone', ['C02'], 'specs.glue:planck_increasing', 'specs.glue:always',
  lambda d, v: dict(args=[d.real('hvk', '+', (0.01, 60.0), hard=True), d.real('t', '+', (2.0, 400.0), hard=True),
                          d.real('dt', '+', (0.01, 50.0), hard=True)]))

# ---------------------------------------------------------------- C14
C('uncertainty_propagation', ['C14'], 'pyrtlib.uncertainty.absmod_uncertainty:AbsModUncertainty.uncertainty_propagation',
  S + 'uncertainty_propagation',
  lambda d, v: dict(args=[v, d.real('A', '+' if v == 'A^a' else None, (0.1, 9.0) if v == 'A^a' else (-9.0, 9.0)),
                          d.real('B', None, (-9.0, 9.0)), d.real('sA', '0+', (0.0, 3.0)), d.real('sB', '0+', (0.0, 3.0)),
                          d.real('a', None, (-4.0, 4.0)), d.real('b', None, (-4.0, 4.0)), d.real('sAB', None, (-1.0, 1.0))]),
  variants=['aA', 'aA+bB', 'aA-bB', 'A*B', 'A/B', 'A^a', 'A+B', 'xx', ''])
C('uncertainty_defaults', ['C14'], 'pyrtlib.uncertainty.absmod_uncertainty:AbsModUncertainty.uncertainty_propagation',
  S + 'uncertainty_propagation',
  lambda d, v: dict(args=[v, d.real('A', '+', (0.1, 9.0)), d.real('B', '+', (0.1, 9.0)), d.real('sA', '0+', (0.0, 3.0)),
                          d.real('sB', '0+', (0.0, 3.0))]),
  variants=['aA', 'aA+bB', 'aA-bB', 'A*B', 'A/B', 'A^a'])
C('uncertainty_arrays', ['C14'], 'pyrtlib.uncertainty.absmod_uncertainty:AbsModUncertainty.uncertainty_propagation',
  'specs.glue:uncertainty_arrays_spec',
  lambda d, v: (lambda n: dict(args=[v] + [d.array(x, (n,), '+', (0.1, 9.0)) for x in ('A', 'B')] + [
      d.array(x, (n,), '0+', (0.0, 3.0)) for x in ('sA', 'sB')] + [d.real('a', None, (-4.0, 4.0)), d.real('b', None, (-4.0, 4.0)),
                                                                 d.real('sAB', None, (-0.2, 0.2))]))(d.size('n', 1)),
  variants=['aA', 'aA+bB', 'aA-bB', 'A*B', 'A/B', 'A^a'])
C('uncertainty_homogeneous', ['C14'], 'specs.glue:uncertainty_scaled', 'specs.glue:uncertainty_scaled_spec',
  lambda d, v: dict(args=[v, d.real('k', '+', (0.1, 5.0)), d.real('A', '+', (0.1, 9.0)), d.real('B', '+', (0.1, 9.0)),
                          d.real('sA', '0+', (0.0, 3.0)), d.real('sB', '0+', (0.0, 3.0)), d.real('a', None, (-4.0, 4.0)),
                          d.real('b', None, (-4.0, 4.0)), d.real('sAB', None, (-0.2, 0.2))]),
  variants=['aA', 'aA+bB', 'aA-bB', 'A*B', 'A/B', 'A^a'])
C('uncertainty_sum_diff', ['C14'], 'specs.glue:uncertainty_sum', 'specs.glue:uncertainty_diff',
  lambda d, v: dict(args=[d.real('A', None, (-9.0, 9.0)), d.real('B', None, (-9.0, 9.0)),
                          d.real('sA', '0+', (0.0, 3.0)), d.real('sB', '0+', (0.0, 3.0)), d.real('a', None, (-4.0, 4.0)),
                          d.real('b', None, (-4.0, 4.0))]))


# ---------------------------------------------------------------- C16
def with_n(f):
    def g(d, v):
        n = d.size('n', 1)
        return f(d, v, n)
    return g


C('eswat', ['C16', 'C15'], U + 'eswat_goffgratch', S + 'eswat', with_n(lambda d, v, n: dict(args=[T(d, n)])))
C('esice', ['C16', 'C15'], U + 'esice_goffgratch', S + 'esice', with_n(lambda d, v, n: dict(args=[T(d, n)])))
C('eswat_scalar', ['C16'], U + 'eswat_goffgratch', S + 'eswat_scalar', lambda d, v: dict(args=[d.real('t', '+', (180.0, 330.0))]))
C('esice_scalar', ['C16'], U + 'esice_goffgratch', S + 'esice_scalar', lambda d, v: dict(args=[d.real('t', '+', (180.0, 330.0))]))
TC = ['none', 'zero', 'threshold']


def tconv(d, v):
    return {'none': lambda: [], 'zero': lambda: [0.0], 'threshold': lambda: [d.real('tc', '+', (230.0, 290.0))]}[v]()


C('satvap', ['C16', 'C15'], U + 'satvap', S + 'satvap', with_n(lambda d, v, n: dict(args=[T(d, n)] + tconv(d, v))), variants=TC)
C('satmix', ['C16', 'C15'], U + 'satmix', S + 'satmix', with_n(lambda d, v, n: dict(args=[P(d, n), T(d, n)] + tconv(d, v))), variants=TC)
C('es_agree', ['C16'], 'specs.glue:es_from_rte', 'specs.glue:es_from_utils', with_n(lambda d, v, n: dict(args=[T(d, n)])))
C('es_positive', ['C16'], 'specs.glue:es_positive', 'specs.glue:always', lambda d, v: dict(args=[d.real('t', '+', (180.0, 330.0))]))

# ---------------------------------------------------------------- C06
C('vapor', ['C06', 'C11', 'C16'], R + 'vapor', S + 'vapor',
  with_n(lambda d, v, n: dict(args=[T(d, n), d.array('rh', (n,), '0+', (0.0, 1.2))] + ([] if v is None else [v]))),
  variants=[None, False, True])
C('refractivity', ['C06', 'C11'], R + 'refractivity', S + 'refractivity',
  with_n(lambda d, v, n: dict(args=[P(d, n), T(d, n), pos(d, n, 'e', 30.0)])))

# ---------------------------------------------------------------- C15
C('e2mr', ['C15'], U + 'e2mr', S + 'e2mr', with_n(lambda d, v, n: dict(args=[P(d, n), pos(d, n, 'e', 40.0)])))
C('mr2e', ['C15'], U + 'mr2e', S + 'mr2e', with_n(lambda d, v, n: dict(args=[P(d, n), pos(d, n, 'w')])))
C('mr2rh', ['C15'], U + 'mr2rh', S + 'mr2rh', with_n(lambda d, v, n: dict(args=[P(d, n), T(d, n), pos(d, n, 'w')] + tconv(d, v))), variants=TC)
C('mr2rho', ['C15'], U + 'mr2rho', S + 'mr2rho', with_n(lambda d, v, n: dict(args=[pos(d, n, 'w'), T(d, n), P(d, n)])))
C('rho2mr', ['C15'], U + 'rho2mr', S + 'rho2mr', with_n(lambda d, v, n: dict(args=[pos(d, n, 'rho'), T(d, n), P(d, n)])))
C('rho2rh', ['C15'], U + 'rho2rh', S + 'rho2rh', with_n(lambda d, v, n: dict(args=[pos(d, n, 'rho', 20.0), T(d, n), P(d, n)])))
C('kgkg_to_kgm3', ['C15'], U + 'kgkg_to_kgm3', S + 'kgkg_to_kgm3', with_n(lambda d, v, n: dict(args=[pos(d, n, 'q', 0.03), P(d, n), T(d, n)])))
C('ppmv_to_moleculesm3', ['C15'], U + 'ppmv_to_moleculesm3', S + 'ppmv_to_moleculesm3',
  with_n(lambda d, v, n: dict(args=[pos(d, n, 'm', 10.0), P(d, n), T(d, n)])))
C('dewpoint2rh', ['C15'], U + 'dewpoint2rh', S + 'dewpoint2rh',
  lambda d, v: dict(args=[d.real('td', None, (-60.0, 40.0)), d.real('t', None, (-60.0, 40.0))], kwargs=dict(v)),
  variants=[(), (('method', 'arm'),), (('method', 'other'),), (('ice', True),), (('ice', True), ('method', 'x')), (('ice', False), ('method', 'x'))],
  requires='specs.glue:dew_defined')
C('ppmv2gkg', ['C15'], U + 'ppmv2gkg', S + 'ppmv2gkg',
  with_n(lambda d, v, n: dict(args=[pos(d, n, 'm', 400.0), v])), variants=list(range(32)) + [99])
for nm, doc in (('e_w_e', 'e'), ('w_e_w', 'w'), ('rho_w_rho', 'rho'), ('w_rho_w', 'w')):
    C('inverse_' + nm, ['C15'], 'specs.glue:' + nm, 'specs.glue:first_arg',
      with_n(lambda d, v, n, doc=doc: dict(args=[pos(d, n, doc, 20.0), T(d, n), P(d, n)])), requires='specs.glue:pre_' + nm)

# ---------------------------------------------------------------- C17
C('pressure_to_height', ['C17'], U + 'pressure_to_height', S + 'pressure_to_height', lambda d, v: dict(args=[d.real('p', '+', (1.0, 1100.0))]))
C('height_to_pressure', ['C17'], U + 'height_to_pressure', S + 'height_to_pressure',
  lambda d, v: dict(args=[d.real('h', None, (-500.0, 40000.0))]), requires='specs.glue:height_ok')
C('p_h_p', ['C17'], 'specs.glue:p_h_p', 'specs.glue:ident', lambda d, v: dict(args=[d.real('p', '+', (1.0, 1100.0))]))
C('h_p_h', ['C17'], 'specs.glue:h_p_h', 'specs.glue:ident', lambda d, v: dict(args=[d.real('h', None, (-500.0, 40000.0))]), requires='specs.glue:height_ok')
C('p2h_decreasing', ['C17'], 'specs.glue:p2h_decreasing', 'specs.glue:always',
  lambda d, v: dict(args=[d.real('p', '+', (1.0, 1100.0)), d.real('dp', '+', (0.1, 100.0))]))
C('h2p_decreasing', ['C17'], 'specs.glue:h2p_decreasing', 'specs.glue:always',
  lambda d, v: dict(args=[d.real('h', None, (-500.0, 40000.0)), d.real('dh', '+', (0.1, 1000.0))]), requires='specs.glue:height_ok')
C('virtual_temperature', ['C17'], U + 'virtual_temperature', S + 'virtual_temperature',
  with_n(lambda d, v, n: dict(args=[T(d, n), pos(d, n, 'mr', 0.04)])))
C('virtual_dry', ['C17'], 'specs.glue:virtual_dry', 'specs.glue:ident', lambda d, v: dict(args=[d.real('t', '+', (180.0, 330.0))]))
C('virtual_exceeds', ['C17'], 'specs.glue:virtual_exceeds', 'specs.glue:always',
  lambda d, v: dict(args=[d.real('t', '+', (180.0, 330.0)), d.real('mr', '+', (1e-6, 0.05))]))
C('thickness', ['C17'], U + '_thickness_hydrostatic', S + 'thickness',
  with_n(lambda d, v, n: dict(args=[P(d, n), T(d, n)] + ([pos(d, n, 'mr', 0.04)] if v == 'moist' else [] if v == 'default' else [None]))),
  variants=['default', 'dry', 'moist'])
C('atmospheric_tickness', ['C17'], U + 'atmospheric_tickness', S + 'atmospheric_thickness',
  with_n(lambda d, v, n: dict(args=[P(d, n), T(d, n)] + ([pos(d, n, 'mr', 0.04)] if v == 'moist' else [] if v == 'default' else [None]))),
  variants=['default', 'dry', 'moist'])
C('to_kelvin', ['C17'], U + 'to_kelvin', S + 'to_kelvin', with_n(lambda d, v, n: dict(args=[d.array('t', (n,), None, (-90.0, 60.0))])))
C('to_celsius', ['C17'], U + 'to_celsius', S + 'to_celsius', with_n(lambda d, v, n: dict(args=[d.array('t', (n,), None, (180.0, 330.0))])))
C('kelvin_celsius', ['C17'], 'specs.glue:k_c', 'specs.glue:ident', lambda d, v: dict(args=[d.real('t', None, (180.0, 330.0))]))
C('celsius_kelvin', ['C17'], 'specs.glue:c_k', 'specs.glue:ident', lambda d, v: dict(args=[d.real('t', None, (-90.0, 60.0))]))
C('celsius_increasing', ['C17'], 'specs.glue:c_increasing', 'specs.glue:always', lambda d, v: dict(args=[d.real('t', None, (-90.0, 60.0)), d.real('dt', '+', (0.01, 60.0))]))
