from contracts.base import C


S = 'specs.era5:'
LEVELS = {'pyrtlib.utils:atmospheric_tickness': {'result': ('array', lambda I, st, env: (list(env.values())[0].shape[0],))}}


def reanalysis(d, nlat, nlon, nlev, lat=None, lon=None):
    v = {'latitude': d.array('lat', (nlat,), None, (30.0, 60.0)) if lat is None else lat,
         'longitude': d.array('lon', (nlon,), None, (-10.0, 40.0)) if lon is None else lon,
         'level': d.array('level', (nlev,), '+', (1.0, 1000.0), kind='incr'), 'time': d.array('time', (1,), '+', (0, 1000000), dtype='I'),
         't': d.array('t', (1, nlev, nlat, nlon), '+', (180.0, 310.0)), 'q': d.array('q', (1, nlev, nlat, nlon), '+', (1e-6, 0.02)),
         'r': d.array('r', (1, nlev, nlat, nlon), None, (0.0, 110.0))}
    for k in ('clwc', 'ciwc', 'crwc', 'cswc', 'o3'):
        v[k] = d.array(k, (1, nlev, nlat, nlon), '0+', (0.0, 1e-3))
    return d.ncfile('reanalysis', v)


def file(d, v):
    n = d.size('n', 1, rng=(1, 3))
    return dict(args=[reanalysis(d, n, n, d.size('nlev', 1, rng=(2, 6))), (d.real('lon0', None, (-10.0, 40.0)), d.real('lat0', None, (30.0, 60.0)))])


C('era5_profile', ['C25'], S + 'read', S + 'nearest_diagonal', file, requires=S + 'diagonal', opaque=LEVELS, preload=['pyrtlib.apiwebservices.erafive:ERA5Reanalysis'])


def off_diagonal(d, v):
    a = d.constarray
    lonlat = (d.const(10.9), d.const(40.1))
    return dict(args=[reanalysis(d, 2, 2, 3, a([40.0, 41.0]), a([10.0, 11.0])), lonlat])


# request whose nearest grid point has different latitude and longitude indices
C('era5_off_diagonal', ['C25'], S + 'read', S + 'nearest', off_diagonal, opaque=LEVELS, preload=['pyrtlib.apiwebservices.erafive:ERA5Reanalysis'])


def hour_of(d, v):
    hour, box = v
    if d.symbolic:
        when = d.date('when', hour)
    else:
        import datetime
        r = d.rng
        when = datetime.datetime(r.randint(1940, 2030), r.randint(1, 12), r.randint(1, 28), hour, r.randint(0, 59), r.randint(0, 59))
    lonlat = (d.real('lon0', None, (-180.0, 180.0)), d.real('lat0', None, (-90.0, 90.0)))
    return dict(args=['/scratch/era5', when, lonlat, (d.real('resolution', '+', (0.1, 1.0)), d.real('offset', '+', (0.1, 2.0))) if box else None])


C('era5_request', ['C25'], S + 'ask', S + 'answer', hour_of, variants=[(h, h % 2 == 0) for h in range(24)], frame=False, weight=0.05,
  preload=['pyrtlib.apiwebservices.erafive:ERA5Reanalysis'])
