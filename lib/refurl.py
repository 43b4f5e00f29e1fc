"""Reference URL semantics (RFC 3986), independent of the code under test."""
import re

UNRESERVED = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
_SPLIT = re.compile(r'^(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$', re.S)


def split(url):
    """(scheme, authority, path, query, fragment), missing parts None."""
    return _SPLIT.match(url).groups()


def pct(s):
    """Canonical percent-encoding: unreserved decoded, others upper-case, non-ASCII as UTF-8."""
    if s is None:
        return None
    out = []
    raw = s.encode('utf-8')
    i = 0
    while i < len(raw):
        c = raw[i]
        if c == 0x25 and re.match(rb'%[0-9A-Fa-f]{2}', raw[i:i + 3]):
            v = int(raw[i + 1:i + 3], 16)
            out.append(chr(v) if v in UNRESERVED else '%%%02X' % v)
            i += 3
        elif c >= 0x80:
            out.append('%%%02X' % c)
            i += 1
        else:
            out.append(chr(c))
            i += 1
    return ''.join(out)


def dots(path):
    """remove_dot_segments of RFC 3986 5.2.4, literally."""
    inp, out = path, ''
    while inp:
        if inp.startswith('../'):
            inp = inp[3:]
        elif inp.startswith('./'):
            inp = inp[2:]
        elif inp.startswith('/./'):
            inp = inp[2:]
        elif inp == '/.':
            inp = '/'
        elif inp.startswith('/../'):
            inp = inp[3:]
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp == '/..':
            inp = '/'
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp in ('.', '..'):
            inp = ''
        else:
            i = inp.find('/', 1) if inp.startswith('/') else inp.find('/')
            if i < 0:
                i = len(inp)
            out += inp[:i]
            inp = inp[i:]
    return out


def canon(url):
    """What the URL denotes: (scheme, userinfo, host, port, path, query, fragment), percent-encoding canonical."""
    scheme, auth, path, query, frag = split(url)
    scheme = (scheme or '').lower()
    userinfo, _, hostport = (auth or '').rpartition('@')
    host, port = hostport, ''
    m = re.match(r'^(\[[^\]]*\]|[^:]*)(?::(.*))?$', hostport)
    if m:
        host, port = m.group(1), m.group(2) or ''
    host = pct(host).lower()
    if (scheme, port) in (('http', '80'), ('https', '443')):
        port = ''
    path = dots(pct(path)) or '/'
    return scheme, userinfo, host, port, path, pct(query), pct(frag)
