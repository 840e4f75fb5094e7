"""Reading ERA5 profiles."""
import types
import numpy as np
import pandas as pd
from pyrtlib.apiwebservices import erafive
from pyrtlib.apiwebservices.erafive import ERA5Reanalysis
from pyrtlib.utils import atmospheric_tickness
from specs.dsl import All, Array, Frame, Variable, size

UNITS = {'p': 'hPa', 'z': 'km', 't': 'K', 'rh': 'fraction', 'clwc': 'kg kg-1', 'ciwc': 'kg kg-1', 'crwc': 'kg kg-1', 'cswc': 'kg kg-1',
         'o3': 'kg kg-1', 'q': 'kg kg-1'}


def read(path, lonlat):
    return ERA5Reanalysis.read_data(path, lonlat)


def distance(lat, lon, lat0, lon0):
    """angular distance on the sphere, degrees in"""
    a = np.sin((np.radians(lat) - np.radians(lat0)) / 2)
    b = np.sin((np.radians(lon) - np.radians(lon0)) / 2)
    return 2 * np.arcsin(np.sqrt(a * a + np.cos(np.radians(lat)) * np.cos(np.radians(lat0)) * (b * b)))


def diagonal(path, lonlat):
    """no grid point is nearer than the nearest of those whose latitude and longitude have the same index"""
    lat, lon = Variable(path, 'latitude'), Variable(path, 'longitude')
    if size(lat) != size(lon):
        return False
    n = size(lat)
    k = np.argmin(Array(n, lambda i: distance(lat[i], lon[i], lonlat[1], lonlat[0])))
    d = distance(lat[k], lon[k], lonlat[1], lonlat[0])
    return All(n, lambda i: All(n, lambda j: not distance(lat[i], lon[j], lonlat[1], lonlat[0]) < d))


def profile(path, i, j):
    """column of the grid point (i, j), from the surface up"""
    level = Variable(path, 'level')
    n = size(level)

    def up(name):
        v = Variable(path, name)
        return lambda k: v[0, n - 1 - k, i, j]
    t, q, r = up('t'), up('q'), up('r')
    z = atmospheric_tickness(Array(n, lambda k: level[n - 1 - k]), Array(n, t), Array(n, q))
    time = pd.to_datetime(Variable(path, 'time'), origin='1900-01-01 00:00:00.0', unit='h')
    df = Frame(1, n, {'p': lambda b, k: level[n - 1 - k], 'z': lambda b, k: z[k], 't': lambda b, k: t(k), 'rh': lambda b, k: r(k) / 100,
                      'clwc': lambda b, k: up('clwc')(k), 'ciwc': lambda b, k: up('ciwc')(k), 'crwc': lambda b, k: up('crwc')(k),
                      'cswc': lambda b, k: up('cswc')(k), 'o3': lambda b, k: up('o3')(k), 'q': lambda b, k: q(k),
                      'time': lambda b, k: time[0]})
    df.attrs['units'] = UNITS
    return df


def nearest_diagonal(path, lonlat):
    lat, lon = Variable(path, 'latitude'), Variable(path, 'longitude')
    k = np.argmin(Array(size(lat), lambda i: distance(lat[i], lon[i], lonlat[1], lonlat[0])))
    return profile(path, k, k)


def nearest(path, lonlat):
    """column of the grid point nearest to the request"""
    lat, lon = Variable(path, 'latitude'), Variable(path, 'longitude')
    n = size(lon)
    m = np.argmin(Array(size(lat) * n, lambda m: distance(lat[m // n], lon[m % n], lonlat[1], lonlat[0])))
    return profile(path, m // n, m % n)


LEVELS = [1, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 125, 150, 175, 200, 225, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700, 750, 775, 800, 825, 850,
          875, 900, 925, 950, 975, 1000]
FIELDS = ['ozone_mass_mixing_ratio', 'relative_humidity', 'specific_cloud_ice_water_content', 'specific_cloud_liquid_water_content',
          'specific_humidity', 'specific_rain_water_content', 'specific_snow_water_content', 'temperature']


def ask(path, time, lonlat, box):
    """(driver) request_data with the climate data store replaced by one that records what it is asked for"""
    asked = []

    def retrieve(name, request, target):
        asked.append((name, dict(request), target))
    erafive.cdsapi = types.SimpleNamespace(Client=lambda: types.SimpleNamespace(retrieve=retrieve))
    if box is None:
        file = ERA5Reanalysis.request_data(path, time, lonlat)
    else:
        file = ERA5Reanalysis.request_data(path, time, lonlat, resolution=box[0], offset=box[1])
    if len(asked) != 1:
        return file, len(asked), None
    name, r, target = asked[0]
    hour = r['time'].split(':')
    return file, name, target, sorted(r['variable']), sorted([int(x) for x in r['pressure_level']]), int(r['year']), int(r['month']), int(r['day']), \
        int(hour[0]), hour[1], tuple(r['area']), tuple(r['grid']), r['product_type'], r['format']


def answer(path, time, lonlat, box):
    """all fields and levels of the hour in the box of the given half width around the point (north, west, south, east)"""
    resolution, offset = (0.25, 0.4) if box is None else box
    file = path + '/era5_reanalysis-' + time.isoformat() + '.nc'
    return file, 'reanalysis-era5-pressure-levels', file, FIELDS, LEVELS, time.year, time.month, time.day, time.hour, '00', \
        (lonlat[1] + offset, lonlat[0] - offset, lonlat[1] - offset, lonlat[0] + offset), (resolution, resolution), 'reanalysis', 'netcdf'
