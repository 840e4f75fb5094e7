"""IGRA2 sounding files: documented columns, scaling and missing values (igra2-data-format.txt, igra2-derived-format.txt)."""
import io
import types
import zipfile
from datetime import datetime
import numpy as np
from pyrtlib.apiwebservices.igra2 import IGRAUpperAir
from pyrtlib.apiwebservices.webservices import HTTPError
from specs.dsl import archive, Any, Kept, numbered, size

# first and last column (from 1) and kind of every field; a number is the power of ten the file's integer is divided by
BODY = {'lvltyp1': (1, 1, 0), 'lvltyp2': (2, 2, 0), 'etime': (4, 8, 'MMMSS'), 'pressure': (10, 15, 2), 'pflag': (16, 16, 'flag'),
        'height': (17, 21, 0), 'zflag': (22, 22, 'flag'), 'temperature': (23, 27, 1), 'tflag': (28, 28, 'flag'),
        'relative_humidity': (29, 33, 1), 'dewpoint_depression': (35, 39, 1), 'direction': (41, 45, 0), 'speed': (47, 51, 1)}
HEADER = {'site_id': (2, 12, 'text'), 'year': (14, 17, 'text'), 'month': (19, 20, 'text'), 'day': (22, 23, 'text'), 'hour': (25, 26, 'text'),
          'release_time': (28, 31, 'HHMM'), 'number_levels': (33, 36, 0), 'pressure_source_code': (38, 45, 'text'),
          'non_pressure_source_code': (47, 54, 'text'), 'latitude': (56, 62, 4), 'longitude': (64, 71, 4)}
DERIVED_BODY = {'pressure': (1, 7, 2), 'reported_height': (9, 15, 0), 'calculated_height': (17, 23, 0), 'temperature': (25, 31, 1),
                'temperature_gradient': (33, 39, 1), 'potential_temperature': (41, 47, 1), 'potential_temperature_gradient': (49, 55, 1),
                'virtual_temperature': (57, 63, 1), 'virtual_potential_temperature': (65, 71, 1), 'vapor_pressure': (73, 79, 3),
                'saturation_vapor_pressure': (81, 87, 3), 'reported_relative_humidity': (89, 95, 1), 'calculated_relative_humidity': (97, 103, 1),
                'relative_humidity_gradient': (105, 111, 1), 'u_wind': (113, 119, 1), 'u_wind_gradient': (121, 127, 1), 'v_wind': (129, 135, 1),
                'v_wind_gradient': (137, 143, 1), 'refractive_index': (145, 151, 0)}
DERIVED_HEADER = {'site_id': (2, 12, 'text'), 'year': (14, 17, 0), 'month': (19, 20, 0), 'day': (22, 23, 0), 'hour': (25, 26, 0),
                  'release_time': (28, 31, 'HHMM'), 'number_levels': (32, 36, 0), 'precipitable_water': (38, 43, 2), 'inv_pressure': (44, 49, 2),
                  'inv_height': (50, 55, 0), 'inv_strength': (56, 61, 1), 'mixed_layer_pressure': (62, 67, 2), 'mixed_layer_height': (68, 73, 0),
                  'freezing_point_pressure': (74, 79, 2), 'freezing_point_height': (80, 85, 0), 'lcl_pressure': (86, 91, 2),
                  'lcl_height': (92, 97, 0), 'lfc_pressure': (98, 103, 2), 'lfc_height': (104, 109, 0), 'lnb_pressure': (110, 115, 2),
                  'lnb_height': (116, 121, 0), 'lifted_index': (122, 127, 0), 'showalter_index': (128, 133, 0), 'k_index': (134, 139, 0),
                  'total_totals_index': (140, 145, 0), 'cape': (146, 151, 0), 'convective_inhibition': (152, 157, 0)}
FORMATS = {('-data.txt', 'body'): BODY, ('-data.txt', 'header'): HEADER, ('-drvd.txt', 'body'): DERIVED_BODY, ('-drvd.txt', 'header'): DERIVED_HEADER}


def fields(self, part):
    """(driver) columns, missing-value codes and options given to the fixed-width reader"""
    p = self._get_fwf_params()[part]
    return list(p['names']), list(p['colspecs']), list(p['na_values']), p['index_col']


def documented_fields(self, part):
    f = FORMATS[(self.suffix, part)]
    return list(f), [(f[k][0] - 1, f[k][1]) for k in f], ['-99999'] if self.suffix == '-drvd.txt' else ['-8888', '-9999'], False


def convert(self, part, name, text):
    """(driver) value of the text of a field"""
    c = self._get_fwf_params()[part]['converters']
    return c[name](text) if name in c else text


def documented_value(self, part, name, text):
    kind = FORMATS[(self.suffix, part)][name][2]
    if kind == 'text':
        return text
    if kind == 'flag':
        return 1 if text == 'A' else 2 if text == 'B' else 0
    n = int(text)
    if kind == 'MMMSS' or kind == 'HHMM':
        if n < 0 or n == 9999:
            return np.nan
        first = int(n / 100)
        rest = n - 100 * first
        return first * 60 + rest if kind == 'MMMSS' else first * 3600 + rest * 60
    if kind == 0:
        return n
    if kind < 4 and (n == -9999 or n == -8888 or n == -99999):
        return np.nan
    return n / 10**kind


def request(lines, time, derived, beg2021):
    """(driver) request_data with the download replaced by the given file"""
    paths = []

    def get(self, path, *a, **k):
        paths.append(path)
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w') as z:
            z.writestr('station.txt', ''.join(line + '\n' for line in lines))
        return types.SimpleNamespace(content=buf.getvalue())
    IGRAUpperAir._get_path = get
    try:
        body, header = IGRAUpperAir.request_data(time, 'ITM00016320', beg2021=beg2021, derived=derived)
    finally:
        del IGRAUpperAir._get_path
    return paths, body, header


def parsed(line, columns, suffix):
    row = {}
    for name in columns:
        first, last, kind = columns[name]
        text = line[first - 1:last].strip()
        if kind == 'text':
            row[name] = float('nan') if not text else int(text) if text.lstrip('-').isdigit() else text
        elif kind == 'flag':
            row[name] = 1 if text == 'A' else 2 if text == 'B' else 0
        elif int(text) in ((-99999,) if suffix == '-drvd.txt' else (-9999, -8888)) or kind == 'HHMM' and int(text) == 9999:
            row[name] = float('nan')
        elif kind in ('MMMSS', 'HHMM'):
            a, b = divmod(int(text), 100)
            row[name] = a * 60 + b if kind == 'MMMSS' else a * 3600 + b * 60
        else:
            row[name] = int(text) / 10**kind if kind else int(text)
    return row


UNITS_BODY = {'etime': 'second', 'pressure': 'hPa', 'height': 'meter', 'temperature': 'degC', 'dewpoint': 'degC', 'direction': 'degrees',
              'speed': 'meter / second', 'u_wind': 'meter / second', 'v_wind': 'meter / second'}
UNITS_HEADER = {'release_time': 'second', 'latitude': 'degrees', 'longitude': 'degrees'}

UNITS_DERIVED_BODY = {'pressure': 'hPa', 'reported_height': 'meter', 'calculated_height': 'meter', 'temperature': 'Kelvin',
                      'temperature_gradient': 'Kelvin / kilometer', 'potential_temperature': 'Kelvin',
                      'potential_temperature_gradient': 'Kelvin / kilometer', 'virtual_temperature': 'Kelvin',
                      'virtual_potential_temperature': 'Kelvin', 'vapor_pressure': 'hPa', 'saturation_vapor_pressure': 'hPa',
                      'reported_relative_humidity': 'percent', 'calculated_relative_humidity': 'percent',
                      'relative_humidity_gradient': 'percent / kilometer', 'u_wind': 'meter / second',
                      'u_wind_gradient': '(meter / second) / kilometer)', 'v_wind': 'meter / second',
                      'v_wind_gradient': '(meter / second) / kilometer)', 'refractive_index': 'unitless'}
UNITS_DERIVED_HEADER = {'release_time': 'second', 'precipitable_water': 'millimeter', 'inv_pressure': 'hPa', 'inv_height': 'meter',
                        'inv_strength': 'Kelvin', 'mixed_layer_pressure': 'hPa', 'mixed_layer_height': 'meter',
                        'freezing_point_pressure': 'hPa', 'freezing_point_height': 'meter', 'lcl_pressure': 'hPa', 'lcl_height': 'meter',
                        'lfc_pressure': 'hPa', 'lfc_height': 'meter', 'lnb_pressure': 'hPa', 'lnb_height': 'meter', 'lifted_index': 'degC',
                        'showalter_index': 'degC', 'k_index': 'degC', 'total_totals_index': 'degC', 'cape': 'Joule / kilogram',
                        'convective_inhibition': 'Joule / kilogram'}


def requested(lines, time, derived, beg2021):
    """the soundings of the range, their levels with any measurement, and where the file is"""
    import pandas as pd
    suffix = '-drvd.txt' if derived else '-data-beg2021.txt' if beg2021 else '-data.txt'
    folder = 'derived-por/' if derived else 'data-y2d/' if beg2021 else 'data-por/'
    begin, end = time if isinstance(time, (tuple, list)) else (time, time)
    kind = '-drvd.txt' if derived else '-data.txt'
    body, header = FORMATS[(kind, 'body')], FORMATS[(kind, 'header')]
    rows, heads = [], []
    i = 0
    while i < len(lines):
        h = parsed(lines[i], header, kind)
        n = int(lines[i][32:36])
        hour = int(lines[i][24:26])
        date = datetime(int(lines[i][13:17]), int(lines[i][18:20]), int(lines[i][21:23]), 0 if hour == 99 else hour)
        if begin <= date <= end:
            h['date'] = date
            heads.append(h)
            for line in lines[i + 1:i + 1 + n]:
                r = parsed(line, body, kind)
                r['date'] = date
                if derived:
                    keep = ('temperature', 'reported_relative_humidity', 'u_wind', 'v_wind')
                else:
                    a = np.radians(r['direction'])
                    r['u_wind'] = round(-r['speed'] * np.sin(a), 1)
                    r['v_wind'] = round(-r['speed'] * np.cos(a), 1)
                    keep = ('temperature', 'direction', 'speed', 'dewpoint_depression')
                    r['dewpoint'] = r['temperature'] - r['dewpoint_depression']
                if any(r[k] == r[k] for k in keep):
                    r.pop('dewpoint_depression', None)
                    rows.append(r)
        i += 1 + n
    if not heads:
        raise ValueError('none')
    cols = [k for k in body if k != 'dewpoint_depression'] + ['date'] + ([] if derived else ['u_wind', 'v_wind', 'dewpoint'])
    x, y = numbered(pd.DataFrame({c: [r[c] for r in rows] for c in cols})), pd.DataFrame({c: [h[c] for h in heads] for c in list(header) + ['date']})
    x.attrs['units'], y.attrs['units'] = (UNITS_DERIVED_BODY, UNITS_DERIVED_HEADER) if derived else (UNITS_BODY, UNITS_HEADER)
    return [folder + 'ITM00016320' + suffix + '.zip'], x, y


def cleaned(self, df):
    """the levels with a measurement; wind components and dewpoint of the sounding files; units"""
    if self.suffix == '-drvd.txt':
        def keep(i):
            return not (np.isnan(df['temperature'][i]) and np.isnan(df['reported_relative_humidity'][i]) and np.isnan(df['u_wind'][i])
                        and np.isnan(df['v_wind'][i]))
        x = Kept(size(df['temperature']), keep, {c: (lambda i, c=c: df[c][i]) for c in df.columns})
        x.attrs['units'] = UNITS_DERIVED_BODY
        return x

    def keep(i):
        return not (np.isnan(df['temperature'][i]) and np.isnan(df['direction'][i]) and np.isnan(df['speed'][i])
                    and np.isnan(df['dewpoint_depression'][i]))
    cols = {c: (lambda i, c=c: df[c][i]) for c in df.columns if c != 'dewpoint_depression'}
    cols['u_wind'] = lambda i: np.round(-df['speed'][i] * np.sin(np.radians(df['direction'][i])), 1)
    cols['v_wind'] = lambda i: np.round(-df['speed'][i] * np.cos(np.radians(df['direction'][i])), 1)
    cols['dewpoint'] = lambda i: df['temperature'][i] - df['dewpoint_depression'][i]
    x = Kept(size(df['temperature']), keep, cols)
    x.attrs['units'] = UNITS_BODY
    return x


def cleaned_header(self, df):
    x = Kept(size(df['number_levels']), lambda i: True, {c: (lambda i, c=c: df[c][i]) for c in df.columns})
    x.attrs['units'] = UNITS_DERIVED_HEADER if self.suffix == '-drvd.txt' else UNITS_HEADER
    return x


def when(line):
    """date and hour of a heading; a sounding without an hour counts as hour 0"""
    year, month, day, hour = [int(x) for x in line[13:26].split()]
    if hour < 0 or hour > 23:
        return datetime(year, month, day)
    return datetime(year, month, day, hour)


def selected(self, lines):
    """headings within the range (both ends included), the levels that follow them, and the date of each"""
    n = size(lines)

    def wanted(i):
        return lines[i][0] == '#' and self.begin_date <= when(lines[i]) <= self.end_date

    def level(j):
        return Any(n, lambda i: wanted(i) and i < j and j <= i + int(lines[i][32:36]))
    if not Any(n, wanted):
        raise ValueError()
    headings = [i for i in range(n) if wanted(i)]
    dates = [when(lines[i]) for i in headings]
    return (''.join([lines[j] for j in range(n) if level(j)]), ''.join([lines[i] for i in headings]),
            np.repeat(dates, [int(lines[i][32:36]) for i in headings]), dates)


def station(lines, time, derived, beg2021):
    """(driver) request_data with the download replaced by the archive of the given lines"""
    asked = []

    def get(self, path):
        asked.append(path)
        return types.SimpleNamespace(content=archive(lines))
    IGRAUpperAir._get_path = get
    body, header = IGRAUpperAir.request_data(time, 'ITM00016320', beg2021=beg2021, derived=derived)
    return asked, body, header


def assembled(lines, time, derived, beg2021):
    """the file of the station; its levels and soundings of the range, read by the columns of the format, dated and cleaned"""
    import io
    import pandas as pd
    me = types.SimpleNamespace(suffix='-drvd.txt' if derived else '-data-beg2021.txt' if beg2021 else '-data.txt',
                               begin_date=time[0] if isinstance(time, tuple) else time, end_date=time[1] if isinstance(time, tuple) else time)
    folder = 'derived-por/' if derived else 'data-y2d/' if beg2021 else 'data-por/'
    body, header, levels, soundings = IGRAUpperAir._select_date_range(me, lines)
    params = IGRAUpperAir._get_fwf_params(me)
    x = pd.read_fwf(io.StringIO(body), **params['body'])
    y = pd.read_fwf(io.StringIO(header), **params['header'])
    x['date'] = levels
    y['date'] = soundings
    return [folder + 'ITM00016320' + me.suffix + '.zip'], cleaned(me, x), cleaned_header(me, y)


def absent(time, derived, beg2021):
    """(driver) request_data for a station the server does not have"""
    asked = []

    def get(self, path):
        asked.append(path)
        raise HTTPError('no such file')
    IGRAUpperAir._get_path = get
    try:
        IGRAUpperAir.request_data(time, 'ITM00016320', beg2021=beg2021, derived=derived)
        return asked, 'data'
    except ValueError as e:
        return asked, e.args[0]


def refused(time, derived, beg2021):
    folder, suffix = ('derived-por/', '-drvd.txt') if derived else ('data-y2d/', '-data-beg2021.txt') if beg2021 else ('data-por/', '-data.txt')
    return [folder + 'ITM00016320' + suffix + '.zip'], 'No data available for ' + (time[0] if isinstance(time, tuple) else time).strftime('%Y-%m-%d %HZ') + \
        ' for station ITM00016320.'
