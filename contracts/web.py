from contracts.base import C

S = 'specs.web:'
WEB = 'pyrtlib.apiwebservices.webservices:'
BASES = ['http://weather.uwyo.edu/cgi-bin/sounding', 'https://www.ncei.noaa.gov/pub/data/igra/data/']
PATHS = [('?region=naconf&TYPE=TEXT', None), ('data-por/ITM00016320-data.txt.zip', None), ('a b.html', {'lon': '12'}), (None, {'q': 'x', 'n': '2'})]
KINDS = [None, 'text/html', 'text/html; charset=UTF-8', 'text/plain', 'application/json']


def asked(d, v):
    base, (path, query), status, kind = v
    return dict(args=[base, path, d.pdict(query) if query is not None else None, d.const(status), kind, 'Not Found', 'no such file'])


C('web_get', ['C26'], S + 'get', S + 'got', asked, weight=0.05, frame=False, preload=[WEB + 'HTTPEndPoint'],
  variants=[(b, p, s, k) for b in BASES for p in PATHS for s, k in ((200, None), (200, 'text/html'), (404, None), (404, 'text/html; charset=UTF-8'),
                                                                      (500, 'text/plain'), (204, 'application/json'), (302, 'text/html'))])


def any_status(d, v):
    return dict(args=[BASES[0], 'x', None, d.int('status', 100, 599, special=(200,))])


C('web_status', ['C26'], S + 'outcome', S + 'decided', any_status, frame=False, weight=0.3, preload=[WEB + 'HTTPEndPoint'])
C('web_session', ['C26'], S + 'session', S + 'made', lambda d, v: dict(args=[None if o is None else d.pdict(o) for o in v]), frame=False, weight=0.1,
  preload=[WEB + 'HTTPSessionManager'],
  variants=[(None, None), ({'trust_env': 'no'}, None), ({'trust_env': 'no', 'max_redirects': 'three'}, None), ({'verify': 'x'}, {'cert': 'y'}),
            ({'verify': 'x'}, {})])
