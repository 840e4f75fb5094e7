"""Requests to the archives' web servers."""
import types
from pyrtlib.apiwebservices.webservices import HTTPEndPoint, HTTPError, HTTPSessionManager
from pyrtlib.version import __version__


def get(base, path, query, status, kind, reason, text):
    """(driver) a relative request to an endpoint whose session records what it is asked for and gives the response"""
    asked = []
    response = types.SimpleNamespace(status_code=status, headers={} if kind is None else {'Content-Type': kind}, reason=reason, text=text,
                                     request=types.SimpleNamespace(url='http://server/there'))

    def answer(url, params=None):
        asked.append((url, params))
        return response
    end = HTTPEndPoint(base)
    end._session = types.SimpleNamespace(get=answer)
    try:
        if path is None:
            r = end._get_query(query)
        elif query is None:
            r = end._get_path(path)
        else:
            r = end._get_path(path, query)
    except HTTPError as e:
        return asked, 'HTTPError', e.args[0]
    return asked, r is response, ''


def got(base, path, query, status, kind, reason, text):
    """the address is that of the base and the path; anything but 200 is an error that tells what the server said"""
    if path is None:
        url = base[:-1] if base.endswith('/') else base
    else:
        url = base + path if base.endswith('/') else base + '/' + path
    if status == 200:
        return [(url, query)], True, ''
    said = reason if kind is not None and kind.startswith('text/html') else text
    return [(url, query)], 'HTTPError', 'Error accessing http://server/there\nServer Error (' + str(status) + ': ' + said + ')'


def outcome(base, path, query, status):
    """(driver) the same without the message"""
    asked, r, _ = get(base, path, query, status, 'text/html', 'reason', 'text')
    return asked, r


def decided(base, path, query, status):
    url = base + '/' + path
    return [(url, query)], True if status == 200 else 'HTTPError'


def session(options, again):
    """(driver) sessions made by a manager with the options"""
    m = HTTPSessionManager()
    if options is not None:
        m.set_session_options(**options)
    if again is not None:
        m.set_session_options(**again)
    s, t = m.create_session(), m.create_session()
    chosen = again if again is not None else options if options is not None else {}
    gone = [k for k in options if k not in chosen] if options is not None else []
    return s is t, s.headers['User-Agent'], [getattr(s, k) for k in chosen], [getattr(t, k) for k in chosen], \
        [getattr(t, k, None) == options[k] for k in gone]


def made(options, again):
    """own sessions, with pyrtlib's user agent and the options given last"""
    chosen = again if again is not None else options if options is not None else {}
    gone = [k for k in options if k not in chosen] if options is not None else []
    return False, 'pyrtlib (' + __version__ + ')', [chosen[k] for k in chosen], [chosen[k] for k in chosen], [False for k in gone]
