from contracts.base import C

S = 'specs.igra2:'
IG = 'pyrtlib.apiwebservices.igra2:IGRAUpperAir'
C('igra2_columns', ['C23'], S + 'fields', S + 'documented_fields', lambda d, v: dict(args=[d.obj(IG, suffix=v[0]), v[1]]),
  variants=[(s, p) for s in ('-data.txt', '-drvd.txt') for p in ('body', 'header')], preload=[IG], weight=0.3)


def patterns(name, width):
    """every text of a right-aligned integer field; times may have leading zeros"""
    if name.endswith('time'):
        return ['d' * k for k in range(1, width + 1)] + ['-9999'] * (width > 4)
    return ['d'] + ['n' + 'd' * k for k in range(1, width)] + ['-n' + 'd' * k for k in range(width - 1)]


FIELDS = [('-data.txt', 'body', n, w) for n, w in (('etime', 5), ('pressure', 6), ('temperature', 5), ('relative_humidity', 5),
                                                   ('dewpoint_depression', 5), ('speed', 5), ('height', 5), ('direction', 5))] + \
    [('-data.txt', 'header', n, w) for n, w in (('release_time', 4), ('latitude', 7), ('longitude', 8), ('number_levels', 4))] + \
    [('-drvd.txt', 'body', n, 7) for n in ('pressure', 'reported_height', 'calculated_height', 'temperature', 'temperature_gradient', 'potential_temperature',
     'potential_temperature_gradient', 'virtual_temperature', 'virtual_potential_temperature', 'vapor_pressure', 'saturation_vapor_pressure',
     'reported_relative_humidity', 'calculated_relative_humidity', 'relative_humidity_gradient', 'u_wind', 'u_wind_gradient', 'v_wind', 'v_wind_gradient',
     'refractive_index')] + \
    [('-drvd.txt', 'header', n, 6) for n in ('precipitable_water', 'inv_pressure', 'inv_height', 'inv_strength', 'mixed_layer_pressure', 'mixed_layer_height',
     'freezing_point_pressure', 'freezing_point_height', 'lcl_pressure', 'lcl_height', 'lfc_pressure', 'lfc_height', 'lnb_pressure', 'lnb_height',
     'lifted_index', 'showalter_index', 'k_index', 'total_totals_index', 'cape', 'convective_inhibition')] + \
    [('-drvd.txt', 'header', n, w) for n, w in (('release_time', 4), ('number_levels', 5), ('year', 4), ('month', 2), ('day', 2), ('hour', 2))]
TEXTS = [('-data.txt', 'body', n, t) for n in ('pflag', 'zflag', 'tflag') for t in ('A', 'B', '', 'C')] + \
    [(s, 'header', 'site_id', 'ITM000163ddd') for s in ('-data.txt', '-drvd.txt')]
for _s, _p, _n, _w in FIELDS:
    C('igra2_%s_%s' % ('data' if _s == '-data.txt' else 'derived', _n if _p == 'body' else _n + '_header'), ['C23'], S + 'convert', S + 'documented_value',
      lambda d, v, _s=_s, _p=_p, _n=_n: dict(args=[d.obj(IG, suffix=_s), _p, _n, d.field('text', v)]), variants=patterns(_n, _w), preload=[IG], weight=0.02)
C('igra2_text', ['C23'], S + 'convert', S + 'documented_value', lambda d, v: dict(args=[d.obj(IG, suffix=v[0]), v[1], v[2], d.field('text', v[3])]),
  variants=TEXTS, preload=[IG], weight=0.2)


def station_file(d, derived):
    """a well-formed file: up to 6 soundings in order of date and hour (a missing hour comes last), up to 4 levels each"""
    import datetime
    from specs.igra2 import FORMATS
    r = d.rng
    kind = '-drvd.txt' if derived else '-data.txt'
    missing = ['-99999'] if derived else ['-9999', '-8888']

    def put(line, first, last, text):
        return line[:first - 1] + text.rjust(last - first + 1) + line[last:]

    def number(width):
        n = str(r.randint(0, 10 ** r.randint(1, width) - 1))
        return n if r.random() < 0.7 or len(n) == width else '-' + n

    def fill(part, given):
        line = ' ' * FORMATS[(kind, part)][list(FORMATS[(kind, part)])[-1]][1]
        for name, (first, last, k) in FORMATS[(kind, part)].items():
            w = last - first + 1
            if name in given:
                t = given[name]
            elif k == 'flag':
                t = r.choice(['A', 'B', ' '])
            elif k == 'text':
                t = r.choice(['ncdc-gts', 'ncdc6322'])
            elif k == 'MMMSS':
                t = '%d%02d' % (r.randint(0, 120), r.randint(0, 59)) if r.random() < 0.8 else r.choice(missing)
            elif name in ('latitude', 'longitude'):
                t = str(r.randint(-899999, 899999))
            elif r.random() < 0.3 and w > 2:
                t = r.choice(missing)
            else:
                t = number(min(w - 1, 4)) if derived else number(w - (w > 1))
                t = '1' if t in ('-9999', '-8888', '-99999') else t
            line = put(line, first, last, t)
        return line
    lines, dates = [], []
    day = datetime.datetime(r.randint(1990, 2023), r.randint(1, 12), r.randint(1, 28))
    for _ in range(r.randint(1, 3)):
        hours = sorted(r.sample(range(24), r.randint(0, 2)))
        for h in hours + ([99] if r.random() < 0.3 else []):
            n = r.randint(1, 4)
            g = {'site_id': 'ITM00016320', 'year': '%d' % day.year, 'month': '%02d' % day.month, 'day': '%02d' % day.day, 'hour': '%02d' % h,
                 'release_time': r.choice(['9999', '%02d%02d' % (r.randint(0, 23), r.randint(0, 59))]), 'number_levels': '%d' % n}
            head = fill('header', g)
            lines.append('#' + head[1:])
            dates.append(day.replace(hour=0 if h == 99 else h))
            for _ in range(n):
                lines.append(fill('body', {'lvltyp1': '2', 'lvltyp2': '0'}))
        day += datetime.timedelta(days=1)
    if not dates:
        return station_file(d, derived)
    a, b = sorted([r.choice(dates) + datetime.timedelta(hours=r.choice([0, 0, 0, -1, 1])), r.choice(dates)])
    when = r.choice(dates) if r.random() < 0.3 else (a, b)
    d.log['lines'], d.log['time'] = lines, str(when)
    return lines, when


def request(d, v):
    derived, new = v
    lines, when = station_file(d, derived)
    return dict(args=[lines, when, derived, new])


C('igra2_request', ['C23'], S + 'request', S + 'requested', request, variants=[(False, False), (True, False), (False, True)], prove=False, weight=6.0,
  preload=[IG], frame=False, atol=0.11)


def level_frame(d, v, part):
    if part == 'body':
        cols = [n for s, p, n, w in FIELDS if s == v and p == part] + ['date']
    else:
        cols = ['site_id'] + [n for s, p, n, w in FIELDS if s == v and p == part]
    return dict(args=[d.obj(IG, suffix=v), d.frame('levels', d.size('n', 0, rng=(0, 8)), cols)])


C('igra2_clean_body', ['C23'], IG + '._clean_body_df', S + 'cleaned', lambda d, v: level_frame(d, v, 'body'), variants=['-data.txt', '-drvd.txt'],
  preload=[IG], weight=0.3, frame=False, atol=0.11)
C('igra2_clean_header', ['C23'], IG + '._clean_header_df', S + 'cleaned_header', lambda d, v: level_frame(d, v, 'header'),
  variants=['-data.txt', '-drvd.txt'], preload=[IG], weight=0.2, frame=False)


def chosen(d, v):
    if d.symbolic:
        lines = d.records('file', d.size('n', 0), [(13, 17, 'year'), (18, 20, 'month'), (21, 23, 'day'), (24, 26, 'hour'), (32, 36, 'levels')], 36)
        return dict(args=[d.obj(IG, begin_date=d.moment('begin'), end_date=d.moment('end')), lines])
    lines, when = station_file(d, v)
    begin, end = when if isinstance(when, tuple) else (when, when)
    return dict(args=[d.obj(IG, begin_date=begin, end_date=end), [x + '\n' for x in lines]])


C('igra2_select', ['C23'], IG + '._select_date_range', S + 'selected', chosen, variants=[False, True], preload=[IG], weight=1.0)


def selection(I, st, env):
    """contract of _select_date_range as its caller sees it: texts and dates that depend on the lines and on the range only"""
    from pyvc import terms as t, loops, seqlib
    from pyvc.values import Opq, Unsupported
    me, lines = env['self'], st.heap[env['lines'].loc]
    begin, end = I.getattr_(st, me, 'begin_date'), I.getattr_(st, me, 'end_date')
    if not isinstance(lines, loops.SymList) or not isinstance(begin, seqlib.When) or not isinstance(end, seqlib.When):
        raise Unsupported('selection from these lines')
    i = t.fresh('i', 'I')
    line = lines.item(i)
    if not isinstance(line, seqlib.Line) or line.i is not i:
        raise Unsupported('selection from other lines')
    key = (begin.t, end.t)
    n, m = t.var('levels', 'I', '0+'), t.var('soundings', 'I', '+')
    for part, rows in (('levels', n), ('soundings', m)):
        I.texts['text:%s of %s' % (part, line.file.name)] = (part, rows, key)
    dated = lambda part, rows: st.new_arr((rows,), lambda ix: t.app('date of ' + part, ix[0], *key))
    return Opq('text:levels of %s' % line.file.name), Opq('text:soundings of %s' % line.file.name), dated('levels', n), dated('soundings', m)


def whole(d, v):
    derived, new, single = v
    if d.symbolic:
        lines = d.records('file', d.size('n', 0), [(13, 17, 'year'), (18, 20, 'month'), (21, 23, 'day'), (24, 26, 'hour'), (32, 36, 'levels')], 36)
        when = d.moment('begin') if single else (d.moment('begin'), d.moment('end'))
    else:
        lines, when = station_file(d, derived)
        if single:
            when = when[0] if isinstance(when, tuple) else when
        elif not isinstance(when, tuple):
            when = (when, when)
        lines = [x + '\n' for x in lines]
    return dict(args=[lines, when, derived, new])


WAYS = [(False, False), (True, False), (False, True), (True, True)]
C('igra2_station', ['C23'], S + 'station', S + 'assembled', whole, variants=[w + (s,) for w in WAYS for s in (False, True)], preload=[IG], frame=False,
  weight=0.4, atol=0.11, opaque={IG + '._select_date_range': {'fn': selection}})


def nowhere(d, v):
    import datetime
    r = d.rng if not d.symbolic else None
    mk = d.date if d.symbolic else lambda n: datetime.datetime(r.randint(1950, 2023), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23))
    return dict(args=[mk('begin') if v[2] else (mk('begin'), mk('end')), v[0], v[1]])


C('igra2_absent', ['C23'], S + 'absent', S + 'refused', nowhere, variants=[w + (s,) for w in WAYS for s in (False, True)], preload=[IG], frame=False, weight=0.1)
