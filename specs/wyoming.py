"""University of Wyoming sounding pages (TEXT:LIST): eleven right-aligned columns of seven characters, then the station's data."""
import types
from datetime import datetime
import numpy as np
from pyrtlib.apiwebservices.wyomingupperair import WyomingUpperAir
from specs.dsl import Kept, size

COLUMNS = {'pressure': 'PRES', 'height': 'HGHT', 'temperature': 'TEMP', 'dewpoint': 'DWPT', 'rh': 'RELH', 'mixr': 'MIXR'}
UNITS = {'pressure': 'hPa', 'height': 'meter', 'temperature': 'degC', 'dewpoint': 'degC', 'rh': '%', 'mixr': 'g/kg', 'station': None,
         'station_number': None, 'time': None, 'latitude': 'degrees', 'longitude': 'degrees', 'elevation': 'meter'}


def with_page(page, call):
    """the call with the download replaced by the given page, and what was downloaded"""
    paths = []

    def get(self, path):
        paths.append(self._base + '|' + path)
        return types.SimpleNamespace(text=page)
    WyomingUpperAir._get_path = get
    try:
        result = call()
    except ValueError as e:
        result = ('ValueError', e.args[0])
    return paths, result


def request(page, cells, meta, time, site):
    """(driver) request_data with the download replaced by the given page"""
    return with_page(page, lambda: WyomingUpperAir.request_data(time, site))


def requested(page, cells, meta, time, site):
    path = 'http://weather.uwyo.edu/cgi-bin/sounding|?region=naconf&TYPE=TEXT%3ALIST&YEAR=' + time.strftime('%Y') + '&MONTH=' + time.strftime('%m') + \
        '&FROM=' + time.strftime('%d%H') + '&TO=' + time.strftime('%d%H') + '&STNM=' + str(site)
    if cells is None:
        return [path], ('ValueError', 'No data available for ' + time.strftime('%Y-%m-%d %HZ') + ' for station ' + str(site) + '.')

    def keep(i):
        return not (np.isnan(cells['TEMP'][i]) or np.isnan(cells['DWPT'][i]))
    cols = {c: (lambda i, c=c: cells[COLUMNS[c]][i]) for c in COLUMNS}
    moment = datetime.strptime(meta['time'], '%y%m%d/%H%M')
    cols.update(station=lambda i: meta['station'], station_number=lambda i: int(meta['number']), time=lambda i: moment,
                latitude=lambda i: float(meta['latitude']), longitude=lambda i: float(meta['longitude']), elevation=lambda i: float(meta['elevation']),
                title=lambda i: meta['title'])
    x = Kept(size(cells['PRES']), keep, cols)
    x.attrs['units'] = UNITS
    return [path], x


def stations(page, titles, region):
    """(driver) get_stations with the download replaced by the given page"""
    if region is None:
        return with_page(page, lambda: WyomingUpperAir.get_stations())
    return with_page(page, lambda: WyomingUpperAir.get_stations(region))


def listed(page, titles, region):
    import pandas as pd
    return ['http://weather.uwyo.edu/upperair/|%s.html' % ('europe' if region is None else region)], pd.DataFrame(
        {'station_id': [t[0] for t in titles], 'station_name': [t[1] for t in titles]})
