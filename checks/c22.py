"""C22: discovery finds exactly the services the documents declare."""
import html
import os
import re
import shutil
from xml.sax.saxutils import escape as xescape

from openid import fetchers
from openid.consumer.discover import DiscoveryFailure, OpenIDServiceEndpoint, discover
from openid.yadis import filters
from openid.yadis.services import getServiceEndpoints

from lib import gen, refurl
from lib.core import Violation, require
from lib.world import T_10, T_11, T_20, T_SERVER, NetError, scratch
from checks.c21 import meaning

PROP = 'C22'
TECHNIQUE = ('runtime monitoring: every request of a real discovery is served by a generated web of redirects, headers and documents whose declared services are known by '
             'construction; a monitor compares the result with them, an exception monitor and a canary file watch hostile documents')
LEVEL_NOTE = ('Random service documents, HTML pages, delivery methods, redirects and spellings, decoys, mutated and hostile documents, identifiers and fetch faults; '
              'sampling. The network is a stand-in plugged in as the fetcher (real fetchers are the matter of C24).')
RULE = 'a case is one discovery; counted distinct: (delivery, redirects, encoding, numbers and kinds of services, outcome)'
NEED = {'services': 8000, 'by content type': 500, 'by header': 500, 'by meta': 500, 'html': 800, 'fallback': 300, 'redirected': 1000, 'op identifier': 1000, 'local id': 1000,
        'conflict': 30, 'hostile': 3000, 'hostile failure': 800, 'faults': 300, 'basic': 500, 'identifiers': 800}
ASSUMPTIONS = ['services of equal priority may come in any order', 'documents do not put whitespace around addresses and types, and have no document type definition unless hostile',
               'HTML links are in the head of the page, with lower-case relation names and ASCII addresses']

TYPES = [T_SERVER, T_20, T_11, T_10]
NOT_OPENID = ['http://lid.netmesh.org/sso/2.0b5', 'http://specs.openid.net/auth/2.0/return_to', T_10 + 'x', T_20.upper(), 'xri://$res*auth*($v*2.0)', 'http://openid.net/signon/', T_11 + '/',
              'http://openid.net/sreg/1.0', 'http://specs.openid.net/auth/2.0', 'x']
XRDS_TYPE = 'application/xrds+xml'


class Web(fetchers.HTTPFetcher):
    """URL -> ('go', target) | ('page', status, headers, body or callable(headers)) | exception."""

    def __init__(self):
        self.routes = {}
        self.fetched = []
        fetchers.setDefaultFetcher(self)

    def fetch(self, url, body=None, headers=None):
        hops = 0
        while True:
            self.fetched.append(url)
            hops += 1
            if hops > 20:
                raise NetError('too many redirects')
            r = self.routes.get(url.partition('#')[0])
            if r is None:
                raise NetError('no route to %r' % (url,))
            if r[0] == 'fail':
                raise r[1]
            if r[0] == 'go':
                url = r[1]
                continue
            _, status, rheaders, rbody = r
            if callable(rbody):
                rheaders, rbody = rbody(headers or {})
            return fetchers.HTTPResponse(url, status, dict(rheaders), rbody)


def address(rng, n):
    u = 'http%s://%s/%s%d' % (rng.choice(['', 's']), gen.host(rng), gen.word(rng, 1, 4), n)
    if rng.random() < 0.3:
        u += '?a=%s&b=%s' % (gen.word(rng), rng.choice(['1', '%26', 'x;y', '']))
    if rng.random() < 0.1:
        u += rng.choice(['#f', '/<', '/"', "/'", '/\u00e9', '/]]>'])
    return u


class Model(object):
    """A service document: what it declares and how it is written."""

    def __init__(self, rng, openid=True, n=None):
        self.rng = rng
        self.services = []
        self.counter = 0
        for _ in range(gen.bulk(rng, .004, 130) or rng.choice((0, 1, 1, 2, 3, 5)) if n is None else n):
            self.services.append(self.service(openid))
        self.conflict = any(self.local(s) is Violation for s in self.services if self.is_openid(s) and s['uris'])

    def service(self, openid):
        rng = self.rng
        r = rng.random()
        if not openid or r < 0.15:
            types = gen.sublist(rng, NOT_OPENID) or [rng.choice(NOT_OPENID)]
            if not openid:
                types = [t for t in types if t not in TYPES]
        elif r < 0.4:
            types = [T_SERVER]
        elif r < 0.85:
            types = [rng.choice(TYPES[1:])]
        else:
            types = gen.sublist(rng, TYPES) or [T_20]
        if openid and rng.random() < 0.3:
            types = types + [rng.choice(NOT_OPENID)]
        rng.shuffle(types)
        uris = []
        for _ in range(gen.bulk(rng, .003, 130) or rng.choice((0, 1, 1, 1, 1, 2, 3))):
            self.counter += 1
            uris.append((address(rng, self.counter), self.prio()))
        local, delegate = [], []
        if rng.random() < 0.4:
            v = address(rng, 0)
            if T_20 in types or rng.random() < 0.2:
                local.append(v)
            if T_11 in types or T_10 in types or rng.random() < 0.2:
                delegate.append(v)
            if rng.random() < 0.1:
                (local if rng.random() < 0.5 else delegate).append(v if rng.random() < 0.5 else address(rng, 1))
            if rng.random() < 0.15:
                delegate = [address(rng, 2)]
            if rng.random() < 0.1:
                # almost the same one
                w = rng.choice([v + '/', v + '#', v + '?', v.upper(), v[:-1], v + 'x', v.replace('http', 'https', 1)])
                delegate = delegate and [w]
                if not delegate:
                    local.append(w)
        return {'types': types, 'uris': uris, 'local': local, 'delegate': delegate, 'prio': self.prio()}

    def prio(self):
        return self.rng.choice([None, None, '0', '1', '2', '10', '9', '100', '1000', '200', '20', '1001', '007', '-1', 'abc', '', '1.5', '4294967296', '99999999999999999999'])

    @staticmethod
    def value(prio):
        return int(prio) if prio and re.match('^[0-9]+$', prio) else float('inf')

    @staticmethod
    def is_openid(s):
        return any(t in TYPES for t in s['types'])

    @staticmethod
    def local(s):
        """Local identifier declared for the service; Violation if contradictory."""
        if T_SERVER in s['types']:
            return None
        found = []
        if T_11 in s['types'] or T_10 in s['types']:
            found.extend(s['delegate'])
        if T_20 in s['types']:
            found.extend(s['local'])
        if len(set(found)) > 1:
            return Violation
        return found[0] if found else None

    def expected(self, openid=True):
        """{address: (rank, types, local id)}; the rank orders, equal ranks may come in any order."""
        out = {}
        for i, s in enumerate(self.services):
            if openid and not self.is_openid(s):
                continue
            for uri, prio in s['uris']:
                out[uri] = (i, (not (openid and T_SERVER in s['types']), self.value(s['prio'])), self.value(prio), s['types'], self.local(s))
        return out

    # -- writing ------------------------------------------------------------------------------------

    def text(self, s):
        r = self.rng.random()
        if r < 0.6 or ']]>' in s:
            return xescape(s)
        if r < 0.75:
            return '<![CDATA[%s]]>' % s
        if r < 0.9:
            i = self.rng.randint(0, len(s))
            return xescape(s[:i]) + self.rng.choice(['<!-- x -->', '<!---->', '<?pi x?>', '<!--<URI>http://evil.example/</URI>-->']) + xescape(s[i:])
        i = self.rng.randrange(len(s)) if s else 0
        return xescape(s[:i]) + ('&#%d;' % ord(s[i]) if s else '') + xescape(s[i + 1:])

    def noise(self):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            return rng.choice(['', '\n', ' '])
        return rng.choice(['<!-- <%sService><%sType>%s</%sType><%sURI>http://evil.example/</%sURI></%sService> -->' % (self.p, self.p, T_20, self.p, self.p, self.p, self.p),
                           '<x:Service xmlns:x="urn:other"><x:Type>%s</x:Type><x:URI>http://evil.example/x</x:URI></x:Service>' % T_20,
                           '<Service xmlns=""><Type>%s</Type><URI>http://evil.example/y</URI></Service>' % T_20,
                           '<x:Wrap xmlns:x="urn:other"><%sService><%sType>%s</%sType><%sURI>http://evil.example/w</%sURI></%sService></x:Wrap>' % (
                               self.p, self.p, T_20, self.p, self.p, self.p, self.p),
                           '<%sQuery>q</%sQuery>' % (self.p, self.p), '<%sExpires>2020-01-01T00:00:00Z</%sExpires>' % (self.p, self.p), '<%sStatus code="100"/>' % self.p])

    def el(self, name, text, attrs=''):
        return '<%s%s%s>%s</%s%s>' % (self.p, name, attrs, self.text(text), self.p, name)

    def write(self):
        rng = self.rng
        self.p = rng.choice(['', '', 'xrd:', 'q:'])
        r = rng.choice(['xrds:', 'r:'])
        o = rng.choice(['openid:', 'oid:'])
        out = ['<%sXRDS xmlns:%s="xri://$xrds" xmlns%s="xri://$xrd*($v*2.0)" xmlns:%s="http://openid.net/xmlns/1.0">' % (
            r, r[:-1], ':' + self.p[:-1] if self.p else '', o[:-1])]
        while rng.random() < 0.2:
            # only the last element describes the resource
            out.append('<%sXRD%s><%sService priority="0"><%sType>%s</%sType><%sURI>http://evil.example/first</%sURI></%sService></%sXRD>' % (
                self.p, rng.choice(['', ' version="2.0"']), self.p, self.p, T_20, self.p, self.p, self.p, self.p, self.p))
        out.append('<%sXRD%s>' % (self.p, rng.choice(['', ' version="2.0"'])))
        for s in self.services:
            out.append(self.noise())
            q = rng.choice('"\'')
            attr = lambda v: '' if v is None else ' priority=%s%s%s' % (q, v, q)  # noqa: E731
            parts = [self.el('Type', t) for t in s['types']]
            parts += [self.el('URI', u, attr(p)) for u, p in s['uris']]
            parts += [self.el('LocalID', x) for x in s['local']]
            parts += ['<%sDelegate>%s</%sDelegate>' % (o, self.text(x), o) for x in s['delegate']]
            if rng.random() < 0.3:
                order = parts[len(s['types']):]
                parts = parts[:len(s['types'])]
                rng.shuffle(order)
                parts = order + parts if rng.random() < 0.5 else parts + order
            if rng.random() < 0.1:
                parts.insert(rng.randint(0, len(parts)), '<%sURI/>' % self.p)
            if rng.random() < 0.1:
                parts.insert(rng.randint(0, len(parts)), '<%sType/>' % self.p)
            out.append('<%sService%s>%s</%sService>' % (self.p, attr(s['prio']), rng.choice(['', '\n  ']).join(parts), self.p))
        out.append(self.noise())
        nested = '<%sXRD><%sService priority="0"><%sType>%s</%sType><%sURI>http://evil.example/nested</%sURI></%sService></%sXRD>' % (
            self.p, self.p, self.p, T_20, self.p, self.p, self.p, self.p, self.p)
        if rng.random() < 0.15:
            out.append('<x:Wrap xmlns:x="urn:other">%s</x:Wrap>' % nested)
        out.append('</%sXRD>' % self.p)
        if rng.random() < 0.15:
            out.append('<x:Wrap xmlns:x="urn:other">%s</x:Wrap>' % nested)
        out.append('</%sXRDS>' % r)
        text = ''.join(out)
        enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'ascii', 'iso-8859-1', 'bom'])
        self.encoding = enc
        if enc == 'bom':
            return b'\xef\xbb\xbf' + text.encode('utf-8')
        if enc == 'ascii' and '<![CDATA[' in text and not text.isascii():
            enc = self.encoding = 'utf-8'
        if enc == 'ascii':
            return ('<?xml version="1.0" encoding="US-ASCII"?>\n' + text).encode('ascii', 'xmlcharrefreplace')
        head = rng.choice(['', '<?xml version="1.0"?>']) if enc == 'utf-8' else '<?xml version="1.0" encoding="%s"?>' % enc.upper()
        return (head + text).encode(enc)


def cased(rng, s):
    return rng.choice([s, s.lower(), s.upper(), s.title()])


def ctype(rng, base):
    return cased(rng, base) + rng.choice(['', '', '; charset=UTF-8', ';charset=utf-8', '; x=y'])


class Page(object):
    """An HTML page and the services its links declare."""

    def __init__(self, rng, n=None, meta=None):
        self.rng = rng
        self.expected = []
        links = []
        kinds = gen.sublist(rng, ['2', '1']) if n is None else ['2', '1'][:n]
        self.entries = {}
        for k in kinds:
            server, local = self.addr(1), self.addr(2) if rng.random() < 0.5 else None
            self.entries[k] = (server, local)
            srel, lrel = ('openid2.provider', 'openid2.local_id') if k == '2' else ('openid.server', 'openid.delegate')
            mine = [self.link(srel, server)]
            if local:
                mine.append(self.link(lrel, local))
            rng.shuffle(mine)
            links.extend(mine)
            if rng.random() < 0.2:
                # the first one counts
                links.append(self.link(srel, 'http://evil.example/second'))
                if local:
                    links.append(self.link(lrel, 'http://evil.example/second local'))
        if kinds == ['2', '1'] and rng.random() < 0.2:
            server, local = self.addr(1), self.addr(2)
            links = [self.link('openid2.provider openid.server', server), self.link('openid.delegate\n openid2.local_id', local)]
            self.entries = {'2': (server, local), '1': (server, local)}
        decoys = ['<!-- %s -->' % self.link('openid.server', 'http://evil.example/c'), self.link('openid.servers', 'http://evil.example/s'), self.link('stylesheet', '/x.css'),
                  self.link('xopenid2.provider', 'http://evil.example/p'), '<script>var x = \'<link rel="openid.server" href="http://evil.example/j">\';</script>',
                  '<meta http-equiv="X-XRDS\x10Location" content="\x01">', '<title>x</title>', '<meta name="x" content="openid.server">',
                  '<style>/* <link rel="openid2.provider" href="http://evil.example/css"> */</style>', '<base href="http://evil.example/base/">']
        head = list(links)
        for d in decoys:
            if rng.random() < 0.2:
                head.insert(rng.randint(0, len(head)), d)
        if meta is not None:
            name = cased(rng, 'X-XRDS-Location')
            m = '<meta http-equiv="%s" content="%s">' % (name, html.escape(meta, True))
            if rng.random() < 0.3:
                m = "<META CONTENT='%s' HTTP-EQUIV='%s'/>" % (html.escape(meta, True), name)
            head.insert(rng.randint(0, len(head)), m)
        tail = ''
        if rng.random() < 0.2:
            tail = self.link('openid.server', 'http://evil.example/body') + self.link('openid2.provider', 'http://evil.example/body2')
        doctype = rng.choice(['', '<!DOCTYPE html>', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">'])
        open_ = rng.choice(['<html><head>', '<HTML><HEAD>', '<html xmlns="http://www.w3.org/1999/xhtml" lang="en"><head>'])
        self.body = (doctype + open_ + rng.choice(['', '\n']).join(head) + '</head><body>' + tail + '<p>caf\u00e9</p></body></html>').encode('utf-8')
        for k, t in (('2', T_20), ('1', T_11)):
            if k in self.entries:
                self.expected.append((self.entries[k][0], [t], self.entries[k][1]))

    def addr(self, n):
        return ''.join(c for c in address(self.rng, n) if ord(c) < 128)

    def link(self, rel, href):
        rng = self.rng
        v = html.escape(href, True)
        if rng.random() < 0.2 and v:
            v = v.replace(':', '&#58;', 1)
        if rng.random() < 0.2:
            rel = rng.choice(['me %s', '%s nofollow', ' %s ', '\n%s\t']) % rel
        attrs = [' rel="%s"' % rel, ' href="%s"' % v]
        if rng.random() < 0.3:
            attrs.reverse()
        if rng.random() < 0.2:
            attrs.insert(1, rng.choice([' title="x"', " data-x='rel=\"openid.server\"'"]))
        tag = rng.choice(['link', 'link', 'LINK'])
        return '<%s%s%s' % (tag, ''.join(attrs), rng.choice(['>', '/>', ' />', '>']))


def site(rng, web):
    """(identifier as typed, URL first fetched, final URL, hops): redirects leading to the page."""
    start = 'http%s://%s%s/%s' % (rng.choice(['', 's']), gen.host(rng), rng.choice(['', '', ':8080']), rng.choice(['', 'a', 'joe', '~x', 'a/b?c=d']))
    typed = start
    r = rng.random()
    if r < 0.08:
        start = 'http://%s:%s/%s' % (rng.choice(['localhost', 'intranet', 'a-b', 'idp', 'x.example.com']), rng.choice(['8080', '81']), rng.choice(['', 'joe', 'joe?a=b']))
        typed = start[7:]
    elif r < 0.3 and start.startswith('http://'):
        typed = start[7:]
    elif r < 0.5:
        head, _, rest = start.partition('://')
        h, _, p = rest.partition('/')
        typed = head.upper() + '://' + h.title() + '/' + p
    if rng.random() < 0.15:
        typed += '#frag'
    url = start
    hops = rng.choice((0, 0, 0, 1, 1, 2, 4))
    for i in range(hops):
        target = 'http%s://%s/h%d' % (rng.choice(['', 's']), gen.host(rng), i)
        if i == hops - 1:
            target = rng.choice([target, target, target + '#anchor', target[:-3] + '/./h%d' % i, target[:-3] + '/%%7Eh%d' % i, re.sub('//[^/]*', lambda m: m.group().upper(), target)])
        web.routes[url.partition('#')[0]] = ('go', target)
        url = target
    return typed, start, url, hops


def put(web, url, status, headers, body):
    web.routes[url.partition('#')[0]] = ('page', status, headers, body)


def check_claimed(claimed, final):
    require(meaning(claimed) == dict(meaning(final), fragment=b''), 'claimed identifier is not the final URL', claimed=claimed, final=final)
    scheme, auth, path, query, fragment = refurl.split(claimed)
    require(fragment is None and scheme == scheme.lower() and auth == auth.lower() and path and path == refurl.dots(refurl.pct(path)) and not auth.endswith((':', ':80' if scheme == 'http' else ':443')),
            'claimed identifier is not in normal form', claimed=claimed, final=final)


def check_result(ctx, found, model, final, web):
    """Services found are those of the model."""
    claimed, services = found
    check_claimed(claimed, final)
    want = model.expected()
    got = [s.server_url for s in services]
    require(sorted(got) == sorted(want), 'services found are not those declared', found=got, declared=sorted(want), fetched=web.fetched)
    last = None
    seen = set()
    for a, b in zip(services, services[1:]):
        x, y = want[a.server_url], want[b.server_url]
        if x[0] != y[0] and x[1] == y[1]:
            ctx.event('equals in order' if x[0] < y[0] else 'equals in other order')
    for s in services:
        i, rank, uprio, types, local = want[s.server_url]
        op = T_SERVER in types
        ctx.event('services')
        require(sorted(s.type_uris) == sorted(types), 'service has other types than declared', found=s.type_uris, declared=types)
        require(s.isOPIdentifier() == op, 'provider identifier service not recognized or invented', types=types)
        for t in TYPES:
            require(s.supportsType(t) == (t in types or (t == T_20 and op)), 'service supports another version than declared', type=t, types=types)
        require(s.compatibilityMode() == (T_20 not in types and not op), 'wrong protocol family for the types', types=types)
        if op:
            ctx.event('op identifier')
            require(s.claimed_id is None and s.getLocalID() is None, 'a provider identifier has a claimed identifier', claimed=s.claimed_id, local=s.getLocalID())
        else:
            require(s.claimed_id == claimed, 'claimed identifier of the service is not the final URL', service=s.claimed_id, claimed=claimed)
            if local:
                ctx.event('local id')
            require(s.local_id == local and s.getLocalID() == (local or claimed), 'local identifier of the service is not the declared one', found=s.local_id, declared=local)
        if last is not None:
            require(last[1] <= rank, 'services are not in the order of priority', order=got)
            if last[0] == i:
                require(last[2] <= uprio, 'addresses of a service are not in the order of priority', order=got)
            else:
                require(i not in seen, 'addresses of services are mixed', order=got)
        seen.add(i)
        last = (i, rank, uprio)


def check_links(ctx, found, page, final):
    claimed, services = found
    check_claimed(claimed, final)
    got = [(s.server_url, list(s.type_uris), s.local_id) for s in services]
    require(got == page.expected, 'services found are not those of the links', found=got, declared=page.expected, page=page.body)
    for s in services:
        require(s.claimed_id == claimed and s.getLocalID() == (s.local_id or claimed), 'claimed identifier of the service is not the final URL', service=s.claimed_id)
        ctx.event('services')


def declared(rng, ctx):
    web = Web()
    typed, start, final, hops = site(rng, web)
    model = Model(rng)
    doc = model.write()
    how = rng.choice(['content type', 'header', 'meta'])
    page = None
    status = rng.choice((200, 200, 200, 206))
    other = 'https://%s/xrds%d' % (gen.host(rng), rng.randint(0, 9))
    fallback = Page(rng)
    if how == 'content type':
        def serve(headers):
            if any(k.lower() == 'accept' and XRDS_TYPE in v for k, v in headers.items()):
                return {cased(rng, 'content-type'): ctype(rng, XRDS_TYPE), 'X-XRDS-Location': 'http://evil.example/ignored'} if rng.random() < 0.3 else \
                    {cased(rng, 'content-type'): ctype(rng, XRDS_TYPE)}, doc
            return {'content-type': 'text/html'}, fallback.body
        put(web, final, status, {}, serve)
    else:
        target = other
        if rng.random() < 0.2:
            web.routes[other] = ('go', other + '/moved')
            target = other + '/moved'
        dtype = rng.choice([ctype(rng, XRDS_TYPE), 'text/xml', 'text/plain', None])
        put(web, target, rng.choice((200, 206)), {'content-type': dtype} if dtype else {}, doc)
        if how == 'header':
            page = fallback
            if rng.random() < 0.3:
                # the header counts, the page need not agree
                page = fallback = Page(rng, meta='http://evil.example/meta')
            put(web, final, status, {cased(rng, 'X-XRDS-Location'): other,
                                     cased(rng, 'Content-Type'): ctype(rng, rng.choice(['text/html', 'text/html', XRDS_TYPE + 'x', XRDS_TYPE + '-draft', 'text/plain', 'x' + XRDS_TYPE, 'application/xrds']))}, page.body)
        else:
            page = fallback = Page(rng, meta=other)
            if any(model.is_openid(s) and s['uris'] for s in model.services) and rng.random() < 0.2:
                enc = rng.choice(['utf-16-le', 'utf-16-be', 'utf-16'])
                page.body = page.body.decode('utf-8').encode(enc)
                headers = {'content-type': 'text/html%scharset=%s' % (rng.choice([';', '; ', ' ; ', '; x=y; ', ';level=1;']), enc)}
            else:
                headers = rng.choice([{}, {cased(rng, 'Content-Type'): ctype(rng, 'text/html')}, {'content-type': 'application/xhtml+xml; charset=utf-8'}])
            put(web, final, status, headers, page.body)
    usable = any(model.is_openid(s) and s['uris'] for s in model.services)
    try:
        found = discover(typed)
    except DiscoveryFailure:
        require(model.conflict, 'discovery fails on a proper document', how=how, typed=typed, doc=doc)
        ctx.event('conflict')
        ctx.state('conflict', how)
        return
    require(not model.conflict, 'contradictory local identifiers are accepted', doc=doc)
    ctx.event('by ' + how)
    ctx.state(how, hops, model.encoding, len(model.expected()), tuple(sorted(set(sum((s['types'] for s in model.services), [])))) if len(model.services) < 3 else None)
    if hops:
        ctx.event('redirected')
    if usable:
        check_result(ctx, found, model, final, web)
    else:
        # nothing in the service document: links of the page count
        ctx.event('fallback')
        check_links(ctx, found, fallback, final)
    ctx.sample(how, '%s -> %s' % (typed, [s.server_url for s in found[1]]))


def links(rng, ctx):
    web = Web()
    typed, start, final, hops = site(rng, web)
    page = Page(rng)
    headers = rng.choice([{}, {cased(rng, 'Content-Type'): ctype(rng, 'text/html')}, {'content-type': 'application/xhtml+xml'}, {'content-type': 'text/plain'},
                          {'content-type': 'text/html; charset=iso-8859-2'}, {'content-type': 'text/html; charset=nonsense'}, {'content-type': 'text/html; charset='}])
    put(web, final, rng.choice((200, 200, 206)), headers, page.body)
    found = discover(typed)
    ctx.event('html')
    if hops:
        ctx.event('redirected')
    ctx.state('html', hops, tuple(sorted(page.entries)), bool(headers))
    check_links(ctx, found, page, final)


# --- hostile ----------------------------------------------------------------------------------------

CANARY = 'canary-7f3a91-secret'
canary_dir = None


def worker_init(ctx):
    global canary_dir
    canary_dir = scratch()
    with open(os.path.join(canary_dir, 'secret'), 'w') as f:
        f.write('http://canary.example/' + CANARY)
    with open(os.path.join(canary_dir, 'doc'), 'w') as f:
        f.write('<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD><Service><Type>%s</Type><URI>http://canary.example/%s</URI></Service></XRD></xrds:XRDS>' % (T_20, CANARY))


def worker_exit(ctx):
    shutil.rmtree(canary_dir, ignore_errors=True)


def hostile_doc(rng):
    secret = 'file://' + os.path.join(canary_dir, 'secret')
    plain = '<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD><Service><Type>%s</Type><URI>%%s</URI></Service></XRD></xrds:XRDS>' % T_20
    k = rng.randrange(12)
    if k == 0:
        return '<!DOCTYPE x [<!ENTITY e SYSTEM "%s">]>' % secret + plain % '&e;'
    if k == 1:
        return '<!DOCTYPE x [<!ENTITY %% p SYSTEM "%s"> %%p;]>' % secret + plain % 'http://a.example/'
    if k == 2:
        ents = '<!ENTITY a0 "aaaaaaaaaa">' + ''.join('<!ENTITY a%d "%s">' % (i, ('&a%d;' % (i - 1)) * 10) for i in range(1, 10))
        return '<!DOCTYPE x [%s]>' % ents + plain % 'http://a.example/&a9;'
    if k == 3:
        return '<x:XRDS xmlns:x="xri://$xrds" xmlns:xi="http://www.w3.org/2001/XInclude" xmlns="xri://$xrd*($v*2.0)"><XRD><Service><Type>%s</Type><URI><xi:include href="%s" parse="text"/></URI></Service></XRD></x:XRDS>' % (T_20, secret)
    if k == 4:
        return '<a>' * rng.choice((10, 300, 5000)) + plain % 'http://a.example/'
    if k == 5:
        return rng.choice(['', ' ', '\x00', '<', '<!', '<!--', '<?', '<?xml', '<html', '<html><head><link', '\ufeff', '\x00' * 50, ']]>', '&', '<!DOCTYPE', '<a b=', '-->', '<![CDATA[', '<?xml version="9"?>',
                           '<?xml version="1.0" encoding="nonsense"?><a/>', '<head><meta http-equiv=x-xrds-location>', '<html><head></head></html>', '<frameset>', '<!-- only a comment -->', '<?php x ?>'])
    if k == 6:
        return '<xrds:XRDS xmlns:xrds="xri://$xrds"/>'
    if k == 7:
        return '<!DOCTYPE x SYSTEM "%s">' % secret + plain % 'http://a.example/'
    if k == 8:
        return '<?xml-stylesheet href="%s"?>' % secret + plain % 'http://a.example/'
    if k == 9:
        return gen.text(rng, 0, 30, newline=True, nul=True)
    if k == 10:
        return '<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD>' + '<Service><Type>%s</Type><URI/></Service><Service/>' % T_20 + '</XRD></xrds:XRDS>'
    return (plain % 'http://a.example/').replace('xri://$xrds', rng.choice(['xri://$XRDS', '', 'urn:x']))


def foreign(doc):
    return b'xri://$xrds"' not in doc.replace(b'\0', b'') and b'utf-7' not in doc and b'XRDS' in doc.replace(b'\0', b'')


def mutate(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice((1, 1, 2, 5, 20))):
        if not data:
            break
        i = rng.randrange(len(data))
        r = rng.random()
        if r < 0.3:
            data[i] = rng.randrange(256)
        elif r < 0.5:
            del data[i:i + rng.choice((1, 2, 10, 100))]
        elif r < 0.7:
            data[i:i] = rng.choice([b'<', b'>', b'&', b'"', b"'", b'\x00', b'\xff', b'\x01', b'\x10', b'\x7f', b'&x;', b'&#0;', b'&#xD800;', b'<!--', b'-->', b'<![CDATA[', b']]>', b'</Service>', b'</XRD>', b'<XRD>', b'<head>', b'</head>'])
        elif r < 0.85:
            del data[i:]
        else:
            data[i:i] = data[max(0, i - rng.randint(1, 80)):i]
    return bytes(data)


def hostile(rng, ctx):
    web = Web()
    typed, start, final, hops = site(rng, web)
    kind = rng.choice(['mutated xrds', 'mutated html', 'hostile doc', 'location'])
    doc = None
    other = 'http://x.example/doc'
    if kind == 'mutated xrds':
        doc = mutate(rng, Model(rng).write())
    elif kind == 'mutated html':
        doc = mutate(rng, Page(rng, meta=rng.choice([None, other])).body)
        put(web, other, 200, {}, Model(rng).write())
    elif kind == 'hostile doc':
        doc = hostile_doc(rng)
        enc = rng.choice(['utf-8', 'utf-8', 'utf-16', 'utf-7', 'utf-32'])
        doc = doc.encode(enc, 'replace')
    texts = [doc or b'']
    if kind == 'location':
        # a location the document must not be taken from
        loc = rng.choice(['file://' + os.path.join(canary_dir, 'doc'), os.path.join(canary_dir, 'doc'), 'file:' + os.path.join(canary_dir, 'doc'), 'ftp://x.example/doc', 'javascript:x',
                          'data:application/xrds+xml,x', '', ' ', '/doc', 'doc', '?', '#', '//x.example/doc', 'http://', 'http://unreachable.example/', 'http://[::1', '\u00e9', 'x' * 3000, 'gopher://x/',
                          start, final, 'http://x.example/doc#f'])
        put(web, 'http://x.example/doc', rng.choice((200, 404)), {'content-type': XRDS_TYPE}, b'<a/>')
        if rng.random() < 0.5:
            put(web, final, 200, {'X-XRDS-Location': loc, 'content-type': 'text/html'}, Page(rng).body)
        else:
            put(web, final, 200, {}, Page(rng, meta=loc).body)
        doc = b''
    else:
        headers = rng.choice([{}, {'content-type': 'text/html'}, {'content-type': XRDS_TYPE}, {'Content-Type': rng.choice(['', ';', 'charset=', 'text/html; charset=utf-16', 'text/html;charset=\u00e9', 'a;b;c;charset=x',
                              'text/html; charset=base64', 'text/html; charset=idna', 'text/html; charset=unicode_escape', 'text/html; charset=rot13', 'text/html; charset=undefined', 'text/html; charset="utf-8"'])}])
        if rng.random() < 0.3:
            put(web, other, 200, headers, doc)
            put(web, final, 200, {'X-XRDS-Location': other}, b'x')
        else:
            put(web, final, 200, headers, doc)
    ctx.event('hostile')
    try:
        claimed, services = discover(typed)
    except (DiscoveryFailure, fetchers.HTTPFetchingError) as e:
        ctx.event('hostile failure')
        ctx.state('hostile', kind, type(e).__name__)
        return
    except Violation:
        raise
    except Exception as e:
        raise Violation('discovery of a hostile document fails with %s' % type(e).__name__, error=str(e), kind=kind, doc=doc, routes={k: v for k, v in web.routes.items()})
    ctx.state('hostile', kind, len(services))
    for s in services:
        require(CANARY not in (s.server_url or '') + (s.local_id or ''), 'a service comes from a local file', service=s.server_url)
        require(isinstance(s.server_url, str) and s.server_url, 'a service has no address', service=repr(s.server_url))
        require(s.claimed_id in (None, claimed), 'service under another identifier', service=s.claimed_id, claimed=claimed)
        if kind == 'hostile doc':
            require('//a.example/' not in s.server_url or not foreign(doc), 'services of a document which is no service document', doc=doc)
            require(s.server_url.startswith('http://a.example/') and len(s.server_url) < 1000, 'a service is not the declared one', service=s.server_url[:200], doc=doc)
    require(meaning(claimed) == dict(meaning(final), fragment=b''), 'claimed identifier is not the final URL', claimed=claimed, final=final)
    require(not any(u.startswith(('file:', '/')) and u in web.routes for u in web.fetched), 'a local file was fetched', fetched=web.fetched)


def faults(rng, ctx):
    """A failing fetch at any point is a discovery or fetch failure."""
    web = Web()
    typed, start, final, hops = site(rng, web)
    if rng.random() < 0.3:
        return refetch(rng, ctx, web, typed, final)
    other = 'http://x.example/doc'
    put(web, final, 200, {'X-XRDS-Location': other}, Page(rng).body)
    put(web, other, 200, {'content-type': XRDS_TYPE}, Model(rng, n=2).write())
    victim = rng.choice(list(web.routes))
    what = rng.choice(['error', 'error', 'status', 'loop'])
    if what == 'error':
        web.routes[victim] = ('fail', rng.choice([NetError('x'), OSError('x'), ValueError('x'), fetchers.HTTPFetchingError('x'), UnicodeError('x'), KeyError('x'), EOFError()]))
    elif what == 'status':
        web.routes[victim] = ('page', rng.choice((100, 201, 204, 301, 302, 304, 400, 401, 403, 404, 410, 500, 503, 0, 999)), {}, Page(rng, n=2).body)
    else:
        web.routes[victim] = ('go', victim)
    ctx.event('faults')
    ctx.state('fault', what, hops, victim == other)
    try:
        res = discover(typed)
    except DiscoveryFailure as e:
        require(what == 'status', 'discovery failure for a fetch failure', what=what)
        require(e.http_response is not None and e.http_response.status == web.routes[victim][1], 'failure without the response', error=str(e))
        return
    except fetchers.HTTPFetchingError:
        require(what != 'status', 'fetch failure for an error status', what=what)
        return
    raise Violation('services are found although a fetch failed', victim=victim, what=what, found=[s.server_url for s in res[1]])


def refetch(rng, ctx, web, typed, final):
    """The service document has no services, and the page itself is not to be had."""
    status = rng.choice((100, 201, 202, 204, 207, 301, 302, 304, 399, 400, 404, 410, 500, 503))
    good = ('page', 200, {'Content-Type': XRDS_TYPE}, Model(rng, openid=False).write())
    bad = ('page', status, {'content-type': 'text/html'}, Page(rng, n=2).body)
    served = []
    real = web.fetch

    def fetch(url, body=None, headers=None):
        web.routes[final.partition('#')[0]] = bad if served else good
        resp = real(url, body, headers)
        served.append(url)
        return resp
    web.fetch = fetch
    ctx.event('faults')
    ctx.state('refetch', status)
    try:
        res = discover(typed)
    except DiscoveryFailure as e:
        require(e.http_response is not None and e.http_response.status == status, 'failure without the response', error=str(e))
        return
    raise Violation('services are found although the page could not be fetched', status=status, found=[s.server_url for s in res[1]])


def finish(events):
    a, b = events.get('equals in order', 0), events.get('equals in other order', 0)
    require(a + b < 100 or min(a, b) * 5 > max(a, b), 'services of equal priority are not taken in random order', in_document_order=a, in_other_order=b)


BAD_IDS = ['', ' ', 'ftp://x.example/', 'file:///etc/passwd', 'http://', 'https://', 'http:///x', '/', '//', '#', '?', ':', 'http://[', 'http://[::1', 'a b', 'http://a b/', '\u00e9', 'javascript:alert(1)',
           'http://x.example:port/', 'http://x.example:99999/', '.', '..', 'http://.', 'http://%/', '%', '\x00', 'http://\x00/', 'mailto:a@b', 'x:y', 'http:x', '@', 'http://@/', 'urn:a:b', '\u3002', 'http://' + 'a' * 300]


def identifiers(rng, ctx):
    web = Web()
    r = rng.random()
    if r < 0.4:
        ident = rng.choice(BAD_IDS)
    elif r < 0.7:
        ident = gen.text(rng, 0, 6, nul=True)
    else:
        ident = list(rng.choice(['http://x.example/a', 'x.example', 'https://x.example:8080/?a=b#c']))
        ident.insert(rng.randint(0, len(ident)), gen.text(rng, 1, 2))
        ident = ''.join(ident)
    ctx.event('identifiers')
    try:
        claimed, services = discover(ident)
    except DiscoveryFailure:
        ctx.state('identifier', 'discovery', ident[:1])
        require(not web.fetched or all(u.startswith(('http://', 'https://')) for u in web.fetched), 'something else than HTTP fetched', fetched=web.fetched)
        return
    except fetchers.HTTPFetchingError:
        ctx.state('identifier', 'fetch', ident[:1])
        require(all(u.startswith(('http://', 'https://')) for u in web.fetched), 'something else than HTTP fetched', fetched=web.fetched, ident=ident)
        return
    except Violation:
        raise
    except Exception as e:
        raise Violation('discovery of a strange identifier fails with %s' % type(e).__name__, error=str(e), identifier=ident)
    require(not services, 'services for an identifier without documents', identifier=ident)


def basic(rng, ctx):
    """The general service discovery gives all services, or those the filter picks."""
    web = Web()
    url = 'http://%s/' % gen.host(rng)
    model = Model(rng, openid=rng.random() < 0.5)
    doc = model.write()
    ok = rng.random() < 0.85
    if not ok:
        doc = rng.choice([b'', b'<a/>', b'<html></html>', doc[:-5]])
    put(web, url, 200, {'content-type': ctype(rng, XRDS_TYPE)}, doc)
    pick = rng.choice(TYPES + NOT_OPENID)
    flt = rng.choice([None, filters.BasicServiceEndpoint, [filters.BasicServiceEndpoint], 'callable', 'two', OpenIDServiceEndpoint])
    seen = flt
    if flt == 'callable':
        flt = lambda e: e if pick in e.type_uris else None  # noqa: E731
    elif flt == 'two':
        flt = [lambda e: e if T_20 in e.type_uris else None, lambda e: e if pick in e.type_uris else None]
    ctx.event('basic')
    ctx.state('basic', ok, str(seen)[:20], len(model.services))
    try:
        normalized, endpoints = getServiceEndpoints(url, flt)
    except DiscoveryFailure:
        require(not ok or (seen is OpenIDServiceEndpoint and model.conflict), 'service discovery fails on a proper document', doc=doc)
        return
    require(ok, 'service discovery takes a broken document', doc=doc)
    require(normalized == url, 'another final URL', url=normalized)
    want = model.expected(openid=False)
    if seen == 'callable':
        want = {u: v for u, v in want.items() if pick in v[3]}
    elif seen == 'two':
        want = {u: v for u, v in want.items() if pick in v[3] or T_20 in v[3]}
    elif seen is OpenIDServiceEndpoint:
        want = {u: v for u, v in want.items() if any(t in TYPES for t in v[3])}
    got = [getattr(e, 'uri', None) or getattr(e, 'server_url', None) for e in endpoints]
    got = [u for u in got if u is not None]          # a service without an address may be reported
    require(sorted(got) == sorted(want), 'services found are not those declared', found=got, declared=sorted(want), doc=doc)
    ranks = [(want[u][1][1], want[u][0]) for u in got]
    require([r[0] for r in ranks] == sorted(r[0] for r in ranks), 'services are not in the order of priority', order=got)
    for a, b in zip(got, got[1:]):
        if want[a][0] == want[b][0]:
            require(want[a][2] <= want[b][2], 'addresses of a service are not in the order of priority', order=got)


SCENARIOS = [('declared', declared, 41000, 205000), ('links', links, 22000, 110000), ('hostile', hostile, 55000, 275000), ('faults', faults, 2700, 13500),
             ('identifiers', identifiers, 5500, 40000), ('basic', basic, 5500, 40000)]
