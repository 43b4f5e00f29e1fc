"""C27: return address verification trusts only what the realm itself publishes."""
import re
from urllib.parse import urlsplit

from openid import fetchers
from openid.consumer.discover import DiscoveryFailure as CD
from openid.server import server as server_module
from openid.server import trustroot
from openid.server.server import CheckIDRequest, ProtocolError, Server
from openid.store.memstore import MemoryStore
from openid.yadis.discover import DiscoveryFailure

from lib import gen
from lib.core import Violation, require
from lib.world import OPENID2, T_20, T_SERVER, NetError, html_page
from checks.c11 import MUT, make_realm, open_verdict, ref_inside, ref_realm
from checks.c21 import meaning
from checks.c22 import Model, ctype

PROP = 'C27'
TECHNIQUE = ('runtime monitoring: the real verification runs against a scripted network; an independent reference over what was really published, fetched and redirected decides every verdict, '
             'and the log of fetched addresses is watched')
LEVEL_NOTE = 'Random realms, return addresses and published documents (all three ways of publishing, decoys, wildcards, malformed), redirects and failures; sampling.'
RULE = 'a case is one verification; counted distinct: (way of publishing, redirect kind, wildcard realm, kinds of published addresses, expected, outcome)'
NEED = {'verified': 4000, 'yes': 800, 'no': 1500, 'redirected away': 400, 'redirected home': 100, 'failures': 500, 'wildcard realm': 800, 'matching': 4000, 'bad realms': 300, 'through request': 800}
ASSUMPTIONS = ['the fetcher reports the address the document really came from (C24)']

RP_TYPE = 'http://specs.openid.net/auth/2.0/return_to'
ALLOWED = (DiscoveryFailure, CD, fetchers.HTTPFetchingError)


def key(url):
    try:
        m = meaning(url)
    except ValueError:
        return url
    return repr(sorted(dict(m, fragment=b'').items(), key=str))


class Web(fetchers.HTTPFetcher):
    """Resource -> ('go', target) | ('page', status, headers, body) | ('fail', exception); spellings do not matter."""

    def __init__(self):
        self.routes = {}
        self.asked = []
        self.seen = []
        fetchers.setDefaultFetcher(self)

    def fetch(self, url, body=None, headers=None):
        self.asked.append(url)
        for _ in range(20):
            self.seen.append(url)
            if re.search(r'[\s<>"{}|\\^`]', re.split('[/?#]', url.partition('://')[2])[0]):
                raise NetError('can not be fetched: %r' % (url,))     # no real fetcher gets an answer from there
            r = self.routes.get(key(url))
            if r is None:
                raise NetError('no route to %r' % (url,))
            if r[0] == 'seq':
                r = r[1].pop(0) if len(r[1]) > 1 else r[1][0]
            if r[0] == 'fail':
                raise r[1]
            if r[0] == 'go':
                url = r[1]
                try:
                    meaning(url)
                    urlsplit(url).port
                except ValueError:
                    raise NetError('can not be fetched: %r' % (url,))
                continue
            _, status, rheaders, rbody = r
            return fetchers.HTTPResponse(url, status, dict(rheaders), rbody)
        raise NetError('too many redirects')


def discovery_url(realm):
    """Address where the realm publishes."""
    return realm.replace('//*.', '//www.', 1)


def mutated(rng, url, n):
    for _ in range(n):
        try:
            url = MUT[rng.choice(sorted(MUT))](rng, url)
        except (AttributeError, TypeError, ValueError):
            pass
    return url


def published(rng, realm, rt):
    """Addresses a realm may publish, good and bad."""
    head, _, rest = rt.partition('://')
    host, slash, path = rest.partition('/')
    out = []
    # sometimes after many addresses of no importance
    out += ['http://other%d.example.com/cb' % i for i in range(gen.bulk(rng, .01, 150))]
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        r = rng.random()
        if r < 0.25:
            u = rt.partition('#')[0]
        elif r < 0.4:
            u = rt.partition('?')[0].rpartition('/')[0] + '/' if path else rt
        elif r < 0.5:
            u = '%s://%s' % (head, host)
        elif r < 0.65:
            # a wildcard that would cover it
            parts = host.split('.')
            u = '%s://*.%s%s%s' % (head, '.'.join(parts[rng.choice((0, 1)):]), slash, path.partition('#')[0])
        elif r < 0.85:
            u = mutated(rng, rt, rng.randint(1, 2))
        elif r < 0.95:
            u = rng.choice(['', 'x', 'http://', '/cb', 'javascript:1', 'http://*', 'http://*/', 'https://*.com/', 'ftp://rp.example.com/', 'http://[', 'http://rp.example.com:x/', '*', 'http://*.*.com/'])
        else:
            u = realm
        out.append(u)
    return out


def odd_host(url):
    """Host names made of characters not used in the Internet; the rules leave them open."""
    return re.search('[^-A-Za-z0-9._~*:]', re.split('[/?#]', url.partition('://')[2])[0])


def covered(urls, rt):
    """True, False or None (left open)."""
    open_ = open_verdict(rt) or '@' in rt
    result = False
    for p in urls:
        r = ref_realm(p)
        if open_verdict(p) or '@' in p or odd_host(p) or r is not None and r[2] == '':
            open_ = True
            continue
        if r is None or r[1]:
            continue
        v = ref_inside(p, rt)
        if v is None:
            open_ = True
        elif v:
            result = True
    if result and not (open_verdict(rt) or '@' in rt):
        return True
    return None if open_ else False


def document(rng, urls):
    """A document publishing the addresses, among decoys of other types."""
    m = Model(rng, n=0)
    services = []
    for u in urls:
        types = rng.choice([[RP_TYPE], [RP_TYPE], [RP_TYPE, 'http://other.example/'], ['http://other.example/', RP_TYPE]])
        if services and rng.random() < 0.2:
            services[-1]['uris'].append((u, None))
            continue
        services.append({'types': types, 'uris': [(u, m.prio())], 'local': [], 'delegate': [], 'prio': m.prio()})
    if rng.random() < 0.1:
        services.append({'types': [RP_TYPE], 'uris': [], 'local': [], 'delegate': [], 'prio': None})
    m.services = services
    return m


def decoy(rng, m, rt):
    base = rt.partition('#')[0]
    for _ in range(rng.choice((0, 1, 1, 2))):
        t = rng.choice([T_20, T_SERVER, 'http://specs.openid.net/auth/2.0/return_too', 'http://specs.openid.net/auth/2.0/return_to/', 'http://specs.openid.net/auth/2.0/RETURN_TO', 'http://openid.net/return_to',
                        'http://specs.openid.net/auth/2.0', 'https://specs.openid.net/auth/2.0/return_to', 'http://specs.openid.net/auth/2.0/return', 'http://specs.openid.net/auth/2.1/return_to'])
        m.services.insert(rng.randint(0, len(m.services)), {'types': [t], 'uris': [(base, None)], 'local': [], 'delegate': [], 'prio': rng.choice([None, '0'])})


def publish(rng, web, url, doc):
    """How the document is found at the address."""
    how = rng.choice(['direct', 'direct', 'header', 'meta'])
    xrds = ('page', 200, {'Content-Type': ctype(rng, 'application/xrds+xml')}, doc)
    if how == 'direct':
        return how, xrds
    # the document itself may be anywhere and may even be moved
    loc = rng.choice(['http://docs.example/%s', 'https://cdn.example/x?d=%s']) % gen.word(rng, 3, 6)
    if rng.random() < 0.2:
        web.routes[key(loc)] = ('go', loc + 'moved')
        web.routes[key(loc + 'moved')] = xrds
    else:
        web.routes[key(loc)] = xrds
    if how == 'header':
        return how, ('page', 200, {rng.choice(['X-XRDS-Location', 'x-xrds-location']): loc, 'Content-Type': 'text/html'}, b'<html></html>')
    return how, ('page', 200, {'Content-Type': 'text/html'}, html_page([], [('X-XRDS-Location', loc)]).encode())


def other_spelling(rng, url):
    head, _, rest = url.partition('://')
    host, slash, path = rest.partition('/')
    return rng.choice([head.upper() + '://' + rest, head + '://' + host.upper() + slash + path, url if slash else url + '/', '%s://%s%s%s' % (head, host, slash or '/', './' + path)])


def verify(rng, ctx):
    web = Web()
    realm = make_realm(rng)
    bad_realm = False
    if rng.random() < 0.3:
        realm = mutated(rng, realm, 1)
    rr = ref_realm(realm)
    if rr is None or rr[2] == '' or open_verdict(realm) or '@' in realm or odd_host(realm):
        bad_realm = True
    base = realm.replace('*.', rng.choice(['', 'www.', 'a.b.']))
    rt = base
    if rng.random() < 0.8:
        # inside or near the realm
        rt = mutated(rng, base, rng.choice((0, 1, 2)))
    if not rt or rng.random() < 0.2:
        rt = 'http://rp.example.com/cb' + rng.choice(['', '/x', '?a=b'])
    urls = published(rng, realm, rt)
    m = document(rng, urls)
    decoy(rng, m, rt)
    doc = m.write()
    disc = discovery_url(realm)
    how, answer = publish(rng, web, disc, doc)
    kind = rng.choice(['none', 'none', 'none', 'none', 'away', 'away', 'home', 'failure', 'failure', 'nothing'])
    expected = covered(urls, rt)
    if kind == 'none':
        web.routes[key(disc)] = answer
    elif kind == 'away':
        head, _, rest = disc.partition('://')
        host, slash, path = rest.partition('/')
        target = rng.choice([disc + '/', disc.rstrip('/') if disc.count('/') > 2 else disc + '/', disc.swapcase(), disc + '?', disc + '&']) if rng.random() < .25 else rng.choice(['http://evil.example/', rt.partition('#')[0] if ref_realm(rt) else 'http://evil.example/rt', '%s://%s/%s' % ({'http': 'https', 'https': 'http'}.get(head, 'http'), host, path),
                             '%s://%s%s%s' % (head, 'www.' + host, slash, path), '%s://%s%s%s' % (head, host.replace('www.', '', 1), slash, path), disc + 'x' if path else disc + '/x', disc.partition('?')[0].rstrip('/') + '/login',
                             '%s://%s/' % (head, host), disc + '?next=1', '%s://%s:8081%s%s' % (head, host.partition(':')[0], slash, path), 'http://*.%s/' % host])
        if key(target) == key(disc):
            kind = 'none'
            web.routes[key(disc)] = answer
        else:
            web.routes[key(disc)] = ('go', target)
            if rng.random() < 0.2:
                web.routes[key(target)] = ('go', 'http://evil.example/second')
                if key(disc) != key('http://evil.example/second'):
                    web.routes[key('http://evil.example/second')] = answer
            else:
                web.routes[key(target)] = answer
            expected = False
    elif kind == 'home':
        # through another place back to the same resource in the same or another spelling
        try:
            spelled = other_spelling(rng, disc)
            if key(spelled) != key(disc) or '#' in disc:
                spelled = disc
        except ValueError:
            spelled = disc
        web.routes[key(disc)] = ('seq', [('go', 'http://login.example/'), answer])
        web.routes[key('http://login.example/')] = ('go', spelled)
        if expected:
            ctx.event('redirected home')
    elif kind == 'failure':
        expected = False
        f = rng.choice(['exception', 'exception', 'status', 'garbage', 'empty', 'html', 'location fails', 'location empty', 'location loop', 'final'])
        if f == 'exception':
            r = ('fail', rng.choice([OSError('x'), fetchers.HTTPFetchingError('y'), ValueError('z'), NetError('w'), UnicodeError('v')]))
        elif f == 'status':
            r = ('page', rng.choice([404, 500, 403, 301, 204]), {'Content-Type': 'application/xrds+xml'}, doc)
        elif f == 'garbage':
            r = ('page', 200, {'Content-Type': 'application/xrds+xml'}, rng.choice([b'', b'<', doc[:len(doc) // 2], b'<html></html>', b'\xff\xfe\x00', b'<XRDS></XRDS>', b'<xrds:XRDS xmlns:xrds="xri://$xrds"></xrds:XRDS>']))
        elif f == 'empty':
            empty = document(rng, [])
            decoy(rng, empty, rt)
            r = ('page', 200, {'Content-Type': 'application/xrds+xml'}, empty.write())
        elif f == 'html':
            r = ('page', 200, {'Content-Type': 'text/html'}, rng.choice([doc, html_page([('openid2.provider', rt)]).encode('utf-8'), b'']))
            if r[3] is doc:
                expected = None           # a service document under a wrong name
        elif f == 'final':
            r = ('go', rng.choice(['http://a_b.example/', 'http://evil.example/a b', 'http://evil.example/|"<>', 'http://\u00e9.example/\u00e9', 'http://evil.example/%zz', 'http://u:p@evil.example/', 'http://[::1]/x']))
            web.routes[key(r[1])] = ('page', 200, {'Content-Type': 'application/xrds+xml'}, doc)
        else:
            loc = {'location fails': 'http://gone.example/', 'location empty': '', 'location loop': disc}[f]
            r = ('page', 200, {'X-XRDS-Location': loc, 'Content-Type': 'text/html'}, b'<html></html>')
        web.routes[key(disc)] = r
    else:
        expected = False
    if bad_realm:
        expected = False if rr is None and not odd_host(realm) else None
    through = False
    try:
        if rng.random() < 0.3 and not bad_realm:
            request = CheckIDRequest(None, rt, realm, op_endpoint='http://op.example/') if rng.random() < 0.3 else CheckIDRequest.fromMessage(
                message(realm, rt), 'http://op.example/')
            through = True
            got = request.returnToVerified()
        else:
            got = trustroot.verifyReturnTo(realm, rt)
    except ALLOWED as e:
        got = e
    except ProtocolError:
        if through:
            raise
        return              # the request itself is refused
    ctx.event('verified')
    ctx.event('through request', int(through))
    yes = got is True or got is not False and not isinstance(got, Exception) and bool(got)
    if kind == 'failure' or kind == 'nothing':
        ctx.event('failures')
    if kind == 'away':
        ctx.event('redirected away')
    if '*' in realm:
        ctx.event('wildcard realm')
    if bad_realm:
        ctx.event('bad realms')
    if web.asked and not bad_realm:
        require(key(web.asked[0]) == key(disc), 'discovery is done at another address than the realm publishes at', realm=realm, asked=web.asked[0])
    detail = dict(realm=realm, return_to=rt, published=urls, kind=kind, how=how, outcome=repr(got)[:200], fetched=web.seen)
    if expected is True:
        require(yes, 'a return address the realm publishes is not accepted', **detail)
        ctx.event('yes')
    elif expected is False:
        require(not yes, 'a return address the realm does not publish is accepted', **detail)
        ctx.event('no')
    ctx.state(how, kind, '*' in realm, len(urls), expected, type(got).__name__)
    ctx.sample(str(expected), detail)


def message(realm, rt):
    from openid.message import Message
    return Message.fromPostArgs({'openid.ns': OPENID2, 'openid.mode': 'checkid_setup', 'openid.realm': realm, 'openid.return_to': rt, 'openid.identity': 'http://i.example/', 'openid.claimed_id': 'http://i.example/'})


def matching(rng, ctx):
    """The list itself."""
    for _ in range(20):
        realm = make_realm(rng)
        rt = mutated(rng, realm.replace('*.', rng.choice(['', 'www.'])), rng.choice((0, 1, 2)))
        urls = published(rng, realm, rt)
        want = covered(urls, rt)
        got = trustroot.returnToMatches(urls, rt)
        ctx.event('matching')
        if want is not None:
            require(bool(got) == want, 'a return address %s by the list is %s' % ('covered' if want else 'not covered', 'accepted' if got else 'refused'), return_to=rt, published=urls)
            ctx.state('list', want, len(urls))


SCENARIOS = [('verify', verify, 110000, 1000000), ('matching', matching, 4200, 30000)]
