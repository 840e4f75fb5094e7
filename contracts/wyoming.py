from contracts.base import C

S = 'specs.wyoming:'
WY = 'pyrtlib.apiwebservices.wyomingupperair:WyomingUpperAir'
WORDS = ['Brindisi', 'Pratica Di Mare', 'Trapani/Birgi', 'S. Pietro', 'Heraklion (AUT)', 'Oakland Int']


NAMES = 'PRES HGHT TEMP DWPT RELH MIXR DRCT SKNT THTA THTE THTV'.split()
RULE = '-' * 77 + '\n'


def numbers(d, v):
    """texts of the station's lines: number, time, latitude, longitude, elevation"""
    i = VARIANTS.index(v)
    return dict(number=d.field('number', ['ndddd', 'nddd', 'ndddd', 'ndddd'][i]), time=d.field('time', 'dddddd/dddd') if d.symbolic else moment(d),
                latitude=d.field('latitude', ['nd.dd', '-d.dd', 'd.dd', 'd.d'][i]), longitude=d.field('longitude', ['-nd.dd', 'ndd.dd', '-d.d', 'd'][i]),
                elevation=d.field('elevation', ['nd.d', '-d.d', 'nddd.d', 'd'][i]))


def moment(d):
    import datetime
    r = d.rng
    return datetime.datetime(r.randint(1973, 2023), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.choice([0, 0, 30])).strftime('%y%m%d/%H%M')


def info_lines(meta, named):
    info = [('Station identifier', 'LIBR')] * named + [('Station number', meta['number']), ('Observation time', meta['time']),
                                                        ('Station latitude', meta['latitude']), ('Station longitude', meta['longitude']),
                                                        ('Station elevation', meta['elevation'])]
    return [x for k, t in info for x in ('%43s: ' % k, t, '\n')]


def sounding_page(d, v):
    """a page with any number of levels; any measurement may be missing (blank), the pressure is always there"""
    kind, site = v
    if d.symbolic:
        when = d.date('when')
        if kind == 'no data':
            return dict(args=['<HTML><BODY>Can\'t get %s Observations.</BODY></HTML>\n' % site, None, None, when, site])
        meta = numbers(d, v)
        cells = d.frame('cell', d.size('n', 0), NAMES)
        title = '16320 LIBR Brindisi Observations at 12Z 22 Apr 2021'
        page = d.page('p', cells, info_lines(meta, kind == 'page'), title)
        return dict(args=[page, cells, d.pdict(dict(meta, station='LIBR' if kind == 'page' else '', title=title)), when, site])
    import datetime
    import pandas as pd
    r = d.rng
    when = datetime.datetime(r.randint(1973, 2023), r.randint(1, 12), r.randint(1, 28), r.choice([0, 6, 12, 18, r.randint(0, 23)]))
    name = r.choice(WORDS)
    if kind == 'no data':
        head, tail = r.choice([('<HTML><BODY>', '</BODY></HTML>\n'), ('', '')])
        return dict(args=[head + 'Can\'t get %s %s Observations at %s.' % (site, name, when) + tail, None, None, when, site])
    rows = []
    p = r.uniform(400, 1050)
    for _ in range(r.randint(1, 40)):
        f = ['%.1f' % p, '%d' % r.randint(-50, 35000), '%.1f' % r.uniform(-90, 40), '%.1f' % r.uniform(-99.9, 30), '%d' % r.randint(1, 100),
             '%.2f' % r.uniform(0, 25), '%d' % r.randint(0, 360), '%d' % r.randint(0, 180), '%.1f' % r.uniform(250, 999), '%.1f' % r.uniform(250, 999),
             '%.1f' % r.uniform(250, 999)]
        gap = r.choice(['full'] * 4 + ['no moisture', 'no wind', 'any', 'only pressure'])
        gone = {'full': [], 'no moisture': [3, 4, 5], 'no wind': [6, 7], 'any': [j for j in range(1, 11) if r.random() < 0.4],
                'only pressure': list(range(1, 11))}[gap]
        rows.append(['' if j in gone else t for j, t in enumerate(f)])
        p *= r.uniform(0.9, 0.999)
    meta = numbers(d, v)
    title = '%s LIBR %s Observations at %02dZ %02d %s %d' % (meta['number'], name, when.hour, when.day, when.strftime('%b'), when.year)
    units = ['hPa', 'm ', 'C', 'C', '%', 'g/kg', 'deg', 'knot', 'K', 'K', 'K']
    head = ''.join('%7s' % t for t in NAMES) + '\n' + ''.join('%7s' % t for t in units) + '\n'
    cut = r.random() < 0.5
    body = ''.join((lambda t: t.rstrip() if cut else t)(''.join('%7s' % t for t in row)) + '\n' for row in rows)
    more = '%43s: %.2f\n' % ('Showalter index', r.uniform(-9, 30)) * r.randint(0, 1) + '%43s: 21.07\n' % 'Precipitable water [mm] for entire sounding'
    page = '<HTML>\n<TITLE>University of Wyoming - Radiosonde Data</TITLE>\n<BODY BGCOLOR="white">\n<H2>%s</H2>\n<PRE>\n' % title + RULE + head + RULE + \
        body + '</PRE><H3>Station information and sounding indices</H3><PRE>\n' + ''.join(info_lines(meta, kind == 'page')) + more + \
        '</PRE>\n<P>Description of the <A HREF="/upperair/columns.html">data columns</A></P>\n</BODY>\n</HTML>\n'
    d.log['page'] = page
    cells = pd.DataFrame([[float(t) if t else float('nan') for t in row] for row in rows], columns=NAMES, dtype=float)
    return dict(args=[page, cells, dict(meta, station='LIBR' if kind == 'page' else '', title=title), when, site])


def station_page(d, v):
    r = d.rng
    titles = []
    for i in range(r.randint(1, 12)):
        code = '%05d' % (1000 * i + r.randint(0, 999))
        if r.random() < 0.2:
            code = r.choice('KPLX') + r.choice('ABC') + '%02d' % i
        titles.append((code, r.choice(WORDS)))
    areas = list(titles)
    if r.random() < 0.3:        # a station drawn twice is one station
        areas.insert(r.randint(1, len(areas)), areas[0])
    page = '<HTML><BODY><MAP NAME="map">\n' + ''.join(
        '<AREA COORDS="%d,%d,%d" SHAPE="CIRCLE" TITLE="%s  %s" HREF="javascript:g(\'%s\')">\n' % (r.randint(0, 900), r.randint(0, 900), 5, c, n, c)
        for c, n in areas) + '<AREA SHAPE="default" NOHREF>\n</MAP></BODY></HTML>'
    d.log['page'] = page
    return dict(args=[page, titles, v])


VARIANTS = [('page', 'LIBR'), ('page', 16320), ('unnamed station', '72493'), ('no data', 'LIBR')]
C('wyoming_request', ['C24'], S + 'request', S + 'requested', sounding_page, variants=VARIANTS, weight=4.0, preload=[WY], frame=False)
C('wyoming_stations', ['C24'], S + 'stations', S + 'listed', station_page, variants=[None, 'samer', 'mideast'], prove=False, weight=1.0, preload=[WY],
  frame=False)
