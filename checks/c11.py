"""C11: a realm covers exactly the addresses the matching rules allow."""
import re
from urllib.parse import parse_qsl, urlencode

from openid.server.server import ProtocolError, Server
from openid.server.trustroot import TrustRoot

from lib import gen, refurl
from lib.core import Violation, require
from lib.world import OPENID2, Stores

PROP = 'C11'
TECHNIQUE = 'runtime monitoring: differential oracle, every verdict compared with an independent matcher written from the rules'
LEVEL_NOTE = ('Generated realms and addresses derived from them by adversarial mutations; verdicts of the matcher, the sanity check and the provider\'s gate '
              'are compared with an independent implementation on RFC 3986 semantics. Random exploration of an infinite input space.')
RULE = 'a case is a batch of pairs; counted distinct: (realm shape, mutations applied, expected and observed verdict)'
NEED = {'pairs': 20000, 'inside': 3000, 'outside': 6000, 'sane': 1000, 'insane': 2000, 'gate': 2000}
ASSUMPTIONS = ['user information in an address does not count as host', 'a realm http://*/ without any domain is left open']


def normal_query(q):
    return urlencode(parse_qsl(q or '', keep_blank_values=True, errors='surrogateescape'), errors='surrogateescape')


def ref_parse(url):
    """(scheme, host, port, path with query, fragment) or None"""
    scheme, auth, path, query, frag = refurl.split(url)
    if scheme is None or scheme.lower() not in ('http', 'https') or not auth:
        return None
    hp = auth.rpartition('@')[2]
    m = re.match(r'^([^:\[\]]*)(?::(\d*))?$', hp)
    if not m or not m.group(1):
        return None
    host = refurl.pct(m.group(1)).lower()
    if not re.match(r'^[-a-z0-9._~*]+$', host) or '..' in host or host.startswith('.') or '%' in host:
        return None
    port = m.group(2)
    if port:
        if int(port) > 65535:
            return None
        port = int(port)
        if port == {'http': 80, 'https': 443}[scheme.lower()]:
            port = None
    else:
        port = None
    path = refurl.dots(refurl.pct(path)) or '/'
    q = normal_query(query)
    return scheme.lower(), host, port, path + ('?' + q if q else ''), frag or ''


def ref_realm(realm):
    p = ref_parse(realm)
    if p is None or p[4]:
        return None
    scheme, host, port, path, _ = p
    wild = False
    if host.startswith('*'):
        wild = True
        if host != '*' and not host.startswith('*.'):
            return None
        host = host[2:]
    if '*' in host:
        return None
    return scheme, wild, host, port, path


def ref_inside(realm, url):
    r = ref_realm(realm)
    u = ref_parse(url)
    if r is None or u is None or '*' in u[1]:
        return False
    scheme, wild, dom, port, rpath = r
    if (scheme, port) != (u[0], u[2]):
        return False
    if not (u[1] == dom or wild and u[1].endswith('.' + dom)):
        return False
    path = u[3]
    if u[4]:
        return None if ref_path(rpath, path) else False
    return ref_path(rpath, path)


def ref_path(rpath, path):
    if path == rpath:
        return True
    if not path.startswith(rpath):
        return False
    if '?' in rpath:
        return rpath.endswith('&') or path[len(rpath)] == '&'
    return rpath.endswith('/') or path[len(rpath)] in '/?'


DOMS = ['example.com', 'rp.example.com', 'a.b.c.org', 'co.uk', 'example.co.uk', 'com', 'localhost', 'x.cz', 'foo.museum', 'xn--e1afmkfd.com', '127.0.0.1', 'example.com.']
RPATHS = ['', '/', '/a', '/a/', '/a/b', '/a.b', '/A', '/a%20b', '/~x', '/a/b/', '/a?x=1', '/?x=1', '/a?x=1&y=2', '/%C3%A9', '/a;p', '/a//b']


def make_realm(rng):
    dom = rng.choice(DOMS) if rng.random() < .8 else gen.host(rng)
    wild = rng.random() < .4
    return '%s://%s%s%s%s' % (rng.choice(['http', 'https']), '*.' if wild else '', dom, gen.port(rng), rng.choice(RPATHS))


MUT = {}


def mut(f):
    MUT[f.__name__] = f
    return f


def rebuild(s, a, p, q, f):
    return '%s://%s%s%s%s' % (s, a, p or '', '' if q is None else '?' + q, '' if f is None else '#' + f)


def parts(u):
    s, a, p, q, f = refurl.split(u)
    m = re.match(r'^(.*?)(:\d*)?$', a)
    return s, m.group(1), m.group(2) or '', p, q, f


def on_host(f):
    def g(rng, u):
        s, h, port, p, q, fr = parts(u)
        return rebuild(s, f(rng, h) + port, p, q, fr)
    g.__name__ = f.__name__
    MUT[f.__name__] = g
    return g


def on_path(f):
    def g(rng, u):
        s, h, port, p, q, fr = parts(u)
        return rebuild(s, h + port, f(rng, p), q, fr)
    g.__name__ = f.__name__
    MUT[f.__name__] = g
    return g


@on_host
def subdomain(rng, h):
    return rng.choice(['www.', 'a.b.', 'evil.', 'x-1.', 'com.']) + h


@on_host
def glued(rng, h):
    return rng.choice(['evil', 'x', 'my-', 'www']) + h


@on_host
def parent(rng, h):
    return h.split('.', 1)[1] if '.' in h else h


@on_host
def suffix(rng, h):
    return h + rng.choice(['.evil.com', '.', 'x', '.com', '-evil.com'])


@on_host
def upper(rng, h):
    return rng.choice([h.upper(), h.title()])


@on_host
def escaped(rng, h):
    i = rng.randrange(len(h))
    return h[:i] + '%%%02x' % ord(h[i]) + h[i + 1:]


@on_host
def user(rng, h):
    return rng.choice(['a@', 'a:b@', 'evil.com@', 'evil.com%40', h + '@evil.com', h + ':x@evil.com', h + '%40evil.com']) + ('' if rng.random() < .5 else h)


@on_host
def star(rng, h):
    return rng.choice(['*.' + h, '*' + h, h.replace('.', '.*.', 1), '*', h + '*'])


@on_host
def other(rng, h):
    return rng.choice(DOMS + ['evil.com', '[::1]', '1.2.3.4', ''])


@on_path
def child(rng, p):
    return p.rstrip('/') + rng.choice(['/x', '/x/y', '/', '/x?y=1', '/.', '/..;/', '//x'])


@on_path
def glue(rng, p):
    return p + rng.choice(['x', '-x', '.x', '%2Fx', ';x', '%20', '_', '%3Fx', '%26x'])


@on_path
def up(rng, p):
    return p + rng.choice(['/..', '/../', '/../..', '/%2e%2e/x', '/../x', '/./x', '/.%2E/', '/x/..'])


@on_path
def shorter(rng, p):
    return p[:-1]


@on_path
def recase(rng, p):
    return p.swapcase()


@on_path
def enc(rng, p):
    return ''.join('%%%02X' % ord(c) if c.isalnum() and rng.random() < .5 else c for c in p) if '%' not in p else p


@on_path
def root(rng, p):
    return rng.choice(['/', '', '/zz'])


@mut
def query(rng, u):
    s, h, port, p, q, f = parts(u)
    return rebuild(s, h + port, p or '/', rng.choice(['a=1', 'x=1', 'x=1&y=2', '', (q or 'x=1') + '&z=3', (q or 'x=1') + '0', 'y=2&x=1', 'u=http://evil.com/']), f)


@mut
def fragment(rng, u):
    return u.split('#')[0] + rng.choice(['#', '#x', '#/../x'])


@mut
def scheme(rng, u):
    return rng.choice(['http', 'https', 'HTTP', 'ftp', 'javascript', 'httpx', '']) + u[u.index('://'):]


@mut
def ports(rng, u):
    s, h, port, p, q, f = parts(u)
    return rebuild(s, h + rng.choice([':80', ':443', ':8080', ':8081', ':', ':0', ':080', ':65536', ':-1', ':x', '']), p, q, f)


@mut
def junk(rng, u):
    return rng.choice(['', 'x', '/a', '//example.com/', 'http:/example.com/', 'http:example.com', 'http//example.com', u.replace('://', ':/'), u.replace('/', '\\'),
                       'x' + u, u.replace('.', '..'), 'http://', 'https://?', 'http:///a', 'http://%2A.example.com/', 'http://exa mple.com/', 'http://ex_ample.com/'])


def open_verdict(s):
    """Inputs whose parsing the rules leave open."""
    host = (refurl.split(s)[1] or '').rpartition('@')[2]
    if re.search("[%!$&'()+,;=]", re.sub('%[2-7][0-9A-Fa-f]', lambda m: chr(int(m.group()[1:], 16)), host)):
        return True         # generic syntax has such names, the name system has not
    return any(ord(c) <= 32 or ord(c) >= 127 or c in '\\"<>^`{|}' for c in s) or re.search(r':[^/?#]*:', s.split('://', 1)[-1].split('/')[0] or '') or '[' in s or '%2a' in s.lower()


def pairs(rng, ctx):
    for _ in range(40):
        realm = make_realm(rng)
        url = realm.replace('*.', rng.choice(['', 'www.', 'a.b.']))
        names = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            name = rng.choice(sorted(MUT))
            try:
                if rng.random() < .8:
                    url = MUT[name](rng, url)
                    names.append(name)
                else:
                    realm = MUT[name](rng, realm)
                    names.append('R' + name)
            except (AttributeError, TypeError, ValueError):
                pass        # a mutation needs an address with the usual parts
        want = ref_inside(realm, url)
        tr = TrustRoot.parse(realm)
        got = bool(tr is not None and tr.validateURL(url))
        got2 = TrustRoot.checkURL(realm, url)
        require(bool(got2) == got, 'checkURL and validateURL disagree', realm=realm, url=url)
        ctx.event('pairs')
        rr = ref_realm(realm)
        if rr is not None and rr[2] == '':
            continue
        if open_verdict(realm) or open_verdict(url):
            ctx.event('open')
            # even then nothing of another origin may be inside
            continue
        if want is None or '@' in realm or '@' in url:
            if want is False:
                require(not got, 'address outside the realm is accepted', realm=realm, url=url)
            continue
        require(got == want, 'address %s the realm is judged %s' % ('inside' if want else 'outside', 'inside' if got else 'outside'), realm=realm, url=url)
        ctx.event('inside' if want else 'outside')
        ctx.state('pair', '*' in realm, '?' in realm, tuple(sorted(names)), want)
        if want:
            ctx.sample('inside', '%s in %s' % (url, realm))
        else:
            ctx.sample('outside', '%s not in %s' % (url, realm))


KNOWN = ['com', 'org', 'net', 'info', 'cz', 'uk', 'us', 'de', 'museum', 'edu']
UNKNOWN = ['invalid-tld', 'foo123', 'local', 'internal', 'lan', 'c0m', 'comm', '1', '127', 'localhost1', 'qq', 'zzzz', 'example']


def sanity(rng, ctx):
    for _ in range(30):
        labels = [rng.choice(['a', 'co', 'com', 'org', 'foo', 'example', 'www', 'ac', 'www2', 'uk', 'x-y', 'edu']) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        tld = rng.choice(KNOWN + KNOWN + UNKNOWN)
        wild = rng.random() < .6
        dot = rng.random() < .1
        host = '.'.join(labels + [tld])
        odd = rng.random()
        if odd < .05:
            host = host.replace('.', '..', 1) if '.' in host else host + '..'
        elif odd < .08:
            host = ''
        elif odd < .12:
            host, labels = 'localhost', []
            tld = 'localhost'
        realm = '%s://%s%s%s%s%s' % (rng.choice(['http', 'https']), '*' + ('.' if host else '') if wild else '', host if rng.random() < .9 else host.upper(), '.' if dot and host else '',
                                     gen.port(rng), rng.choice(['/', '', '/a', '/a?x=1']))
        n = [x for x in host.lower().rstrip('.').split('.')]
        if not host or '..' in host or '' in n:
            want = False
        elif host.lower() == 'localhost':
            want = None if wild or dot else True
        elif tld not in KNOWN:
            want = False
        elif len(n) == 1:
            want = False
        elif wild and len(tld) == 2 and len(n[-2]) <= 3:
            want = len(n) > 2
        else:
            want = True
        got = bool(TrustRoot.checkSanity(realm))
        tr = TrustRoot.parse(realm)
        require(got == bool(tr is not None and tr.isSane()), 'sanity verdicts disagree', realm=realm)
        if want is None:
            continue
        require(got == want, 'realm is judged %s' % ('acceptable' if got else 'not acceptable'), realm=realm)
        ctx.event('sane' if got else 'insane')
        ctx.state('sane', wild, len(n), len(tld), tld in KNOWN, len(n[-2]) <= 3 if len(n) > 1 else None, dot, got)
    for realm in rng.sample(['', 'x', 'ftp://example.com/', 'http://', 'http:///', 'http://*.', 'http://*', '*', '*.example.com', 'http://example.com/#x', 'http://*example.com/',
                             'http://a.*.com/', 'http://*.*.com/', 'http://.com/', '//example.com/', 'http://*.com/', 'http://*.co.uk/', 'http://*.uk'], 6):
        require(not TrustRoot.checkSanity(realm), 'realm is judged acceptable', realm=realm)
        ctx.event('insane')


def gate(rng, ctx):
    stores = Stores()
    try:
        server = Server(stores.make('memory'), 'http://op.example.com/')
        for _ in range(15):
            realm = make_realm(rng)
            url = realm.replace('*.', rng.choice(['', 'www.']))
            names = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                name = rng.choice(sorted(MUT))
                try:
                    url = MUT[name](rng, url)
                    names.append(name)
                except (AttributeError, TypeError, ValueError):
                    pass
            if open_verdict(realm) or open_verdict(url) or '@' in url or not url:
                continue
            v2 = rng.random() < .5
            q = {'openid.mode': rng.choice(['checkid_setup', 'checkid_immediate']), 'openid.identity': 'http://id.example.com/', 'openid.return_to': url,
                 'openid.realm' if v2 else 'openid.trust_root': realm}
            if v2:
                q['openid.ns'] = OPENID2
                q['openid.claimed_id'] = q['openid.identity']
            want = ref_inside(realm, url)
            if '#' in url:
                want = False if want is False or refurl.split(url)[4] else None
            try:
                request = server.decodeRequest(q)
                got = True
            except ProtocolError:
                got = False
            if want is None:
                continue
            require(got == want, 'request with return address %s its realm was %s' % ('inside' if want else 'outside', 'accepted' if got else 'refused'), realm=realm, url=url)
            if got:
                require(request.trustRootValid(), 'trustRootValid is wrong', realm=realm, url=url)
            ctx.event('gate')
            ctx.state('gate', v2, '*' in realm, tuple(sorted(names)), want)
    finally:
        stores.close()


SCENARIOS = [('pairs', pairs, 6600, 60000), ('sanity', sanity, 1300, 8000), ('gate', gate, 1800, 12000)]
