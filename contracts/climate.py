from contracts.base import C
from specs.climate import LAW

E = 'pyrtlib.climatology.extrapolation:'
S = 'specs.climate:'
EDGES = (0.0, 8.5, 10.0, 11.0, 13.0, 15.0, 17.0, 20.0, 23.0, 30.0, 32.0, 33.0, 47.0, 48.0, 50.0, 51.0, 52.0, 53.0, 54.0, 71.0, 72.0,
         79.0, 80.0, 86.0, 91.0, 100.0)
HS = [False, True]


def height(d, arr):
    return d.array('h', (d.size('n', 1),), '0+', rng=(0.0, 100.0), special=EDGES) if arr else \
        d.real('h', '0+', (0.0, 100.0), special=EDGES)


def model(d):
    return d.obj(E + '_ITU835_6')


def wrapper(d):
    return d.obj(E + 'ProfileExtrapolation', instance=model(d), _height=d.array('hh', (d.size('m', 1),), '0+', rng=(0.0, 100.0)))


# ---------------------------------------------------------------- C18
for nm in LAW:
    std = nm.startswith('standard')
    C('itu_' + nm, ['C18'], E + '_ITU835_6.' + nm, S + 'law', lambda d, v, nm=nm: dict(args=[model(d), height(d, v)], ghost=[nm]),
      variants=HS, call='method', requires=S + ('covered' if std else 'in_range'))


def where(d, v):
    """latitude(s) and height(s)"""
    season, la, ha = v
    n = d.size('n', 1) if la or ha else None
    lat = d.array('lat', (n,), None, rng=(-90.0, 90.0), special=(22.0, 45.0, -22.0, -45.0)) if la else \
        d.real('lat', None, (-90.0, 90.0), special=(22.0, 45.0, -22.0, -45.0))
    h = d.array('h', (n,), '0+', rng=(0.0, 100.0), special=EDGES) if ha else d.real('h', '0+', (0.0, 100.0), special=EDGES)
    return [lat, h] + ([season] if season is not None else [])


SEASONS = [(s, la, ha) for s in ('summer', 'winter') for la in (False, True) for ha in (False, True)] + \
    [(None, False, True), ('autumn', False, True), ('', False, False)]
for nm in ('temperature', 'pressure', 'water_vapour_density'):
    C('itu_' + nm, ['C18'], E + '_ITU835_6.' + nm, S + nm, lambda d, v: dict(args=[model(d)] + where(d, v)),
      variants=SEASONS, requires=S + 'in_range_lat', call='method')
    C('pe_' + nm, ['C18'], E + 'ProfileExtrapolation.' + nm, S + nm, lambda d, v: dict(args=[wrapper(d)] + where(d, v)),
      variants=SEASONS, requires=S + 'in_range_lat', call='method')


def scale(d, v):
    """defaults or explicit scale height and surface density"""
    return [d.real('h0', '+', (0.5, 8.0)), d.real('rho0', '0+', (0.0, 30.0))][:v]


T0 = [288.15, 1013.25]
for cl, mk, pre in (('_ITU835_6.', model, 'itu_'), ('ProfileExtrapolation.', wrapper, 'pe_')):
    for nm, most in (('standard_temperature', 1), ('standard_pressure', 2)):
        if pre == 'itu_':
            continue
        C(pre + nm, ['C18'], E + cl + nm, S + nm,
          lambda d, v, mk=mk, most=most: dict(args=[mk(d), height(d, v)] + T0[:most]),
          variants=HS, requires=S + 'covered', call='method')
    C(pre + 'standard_water_vapour_density', ['C18'], E + cl + 'standard_water_vapour_density', S + 'standard_water_vapour_density',
      lambda d, v, mk=mk: dict(args=[mk(d), height(d, v[0])] + scale(d, v[1])),
      variants=[(a, k) for a in HS for k in ((0, 1, 2) if pre == 'itu_' else (2,))], call='method')
    C(pre + 'standard_water_vapour_pressure', ['C18'], E + cl + 'standard_water_vapour_pressure', S + 'standard_water_vapour_pressure',
      lambda d, v, mk=mk: dict(args=[mk(d), height(d, v[0])] + scale(d, v[1])),
      variants=[(a, k) for a in HS for k in (0, 1, 2)], requires=S + 'covered', call='method')
C('pe_new', ['C18'], 'specs.glue:extrapolation_grid', S + 'new_extrapolation', lambda d, v: dict(args=list(v)),
  variants=[(), ('ITU-Annex1',), ('ITU',), ('',), (None,)])
C('pe_get_height', ['C18'], E + 'ProfileExtrapolation.height', S + 'get_height', lambda d, v: dict(args=[wrapper(d)]))
C('pe_set_height', ['C18'], E + 'ProfileExtrapolation.height', S + 'set_height',
  lambda d, v: (lambda o: dict(args=[o, d.array('h', (d.size('n', 1),)) if v == 'array' else d.plist([1.0, 2.0]) if v == 'list' else
                                     None if v == 'none' else d.real('h')], modifies=('_height',)))(wrapper(d)),
  variants=['array', 'list', 'none', 'scalar'], call='set')

# ---------------------------------------------------------------- C19
C('get_season', ['C19'], E + 'ProfileExtrapolation._get_season', S + 'season_of',
  lambda d, v: dict(args=[wrapper(d), d.real('lat', None, (-90.0, 90.0), special=(20.0, -20.0)), v]),
  variants=list(range(1, 13)), call='method')


def sounding(d, v):
    """a profile of any length on any ascending grid"""
    n, m = d.size('n', 1), d.size('m', 1)
    arr = lambda nm, rng: d.array(nm, (n,), '0+', rng=rng)  # noqa: E731
    o = d.obj(E + 'ProfileExtrapolation', instance=model(d), _height=d.array('grid', (m,), '0+', rng=(0.0, 100.0), kind='incr', special=(55.0, 60.0, 70.0)))
    z = d.array('z', (n,), '0+', rng=(0.0, v[1]), kind='incr' if v[1] < 99 else None, special=(55.0, 60.0, 70.0) if v[1] == 99 else ())
    return dict(args=[o, d.real('lat', None, (-90.0, 90.0), special=(20.0, -20.0, 22.0, 45.0)), v[0], z,
                      (arr('p', (1.0, 1013.0)), arr('t', (190.0, 310.0)), arr('rh', (0.0, 1.0)))])


def pointwise(what, lat, h, season):
    """the reference atmosphere through its contract (C18): one value per latitude, season and height"""
    def fn(I, st, env):
        from pyvc import terms as t_
        from pyvc.nplib import mapn
        v = [x for k, x in env.items() if k != '__class__']
        ssn = season if isinstance(season, str) else v[season]
        nm = 'itu_%s:%s' % (what, ssn)
        if ssn == 'standard':
            return mapn(I, st, lambda x: t_.app(nm, x), v[h])
        return mapn(I, st, lambda la, x: t_.app(nm, la, x), v[lat], v[h])
    return {'fn': fn}


ATMOSPHERE = {E + '_ITU835_6.' + nm: pointwise(w, 1, 2, 3) for nm, w in
              (('pressure', 'p'), ('temperature', 't'), ('water_vapour_density', 'rho'))}
ATMOSPHERE.update({E + '_ITU835_6.standard_' + nm: pointwise(w, None, 0, 'standard') for nm, w in
                   (('pressure', 'p'), ('temperature', 't'), ('water_vapour_density', 'rho'))})
ATMOSPHERE.update({S + 'ref_' + w: pointwise(w, 0, 2, 1) for w in ('p', 't', 'rho')})
C('profile_extrapolation', ['C19'], E + 'ProfileExtrapolation.profile_extrapolation', S + 'profile_extrapolation', sounding,
  variants=[(m, top) for m in (1, 4, 7, 12) for top in (40.0, 99.0)], requires=S + 'extrapolation_defined', call='method', opaque=ATMOSPHERE)
