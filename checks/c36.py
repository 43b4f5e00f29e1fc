"""C36: service filters hand out exactly what their parts select, in order."""
from datetime import datetime
from xml.sax.saxutils import escape as xescape

from openid import fetchers
from openid.yadis import etxrd, filters
from openid.yadis.discover import DiscoveryFailure
from openid.yadis.services import applyFilter, getServiceEndpoints

from lib import gen
from lib.core import require

PROP = 'C36'
TECHNIQUE = ('runtime monitoring: generated documents are searched with random trees of filters whose parts record every call; results and calls are compared with those '
             'of a reference built on the list of services known by construction')
LEVEL_NOTE = 'Random documents, filter trees and dates. Sampling.'
RULE = 'a case is one document and one filter; counted distinct: (shape of the filter, numbers of services and results, outcome)'
NEED = {'filters': 10000, 'nested': 3000, 'results': 20000, 'calls': 40000, 'not a filter': 500, 'without address': 3000, 'several addresses': 3000, 'expiry': 1000, 'bad date': 800, 'by network': 2000,
        'not xrds': 300, 'expanded': 8000}
ASSUMPTIONS = ['priorities are distinct (ties are the matter of C22)']

TYPES = ['http://t.example.com/%d' % i for i in range(5)]
MANY = ['http://many.example.com/%d' % i for i in range(30)]
YADIS = 'http://id.example.com/'


class Fetcher(fetchers.HTTPFetcher):
    def __init__(self, response):
        self.response = response
        fetchers.setDefaultFetcher(self)

    def fetch(self, url, body=None, headers=None):
        return self.response


def document(rng):
    """(text, [(priority, [types], [(uri priority, uri)])])"""
    services, n = [], 0
    for p in rng.sample([None, 0, 1, 2, 5, 9, 10, 11, 100] + list(range(12, 99)), gen.bulk(rng, .01, 95) or rng.choice([0, 1, 1, 2, 3, 5])):
        uris = []
        for q in rng.sample([None, 0, 1, 2, 5, 9, 10, 11, 100] + list(range(12, 99)), gen.bulk(rng, .004, 95) or rng.choice([0, 1, 1, 1, 2, 3])):
            n += 1
            uris.append((q, 'http://op%d.example.com/?a=%d&b=%s' % (n, n, gen.word(rng))))
            if rng.random() < .05:
                uris[-1] = (q, uris[0][1])          # an address declared twice
        services.append((p, rng.choice([gen.sublist(rng, TYPES)] * 9 + [[], MANY + gen.sublist(rng, TYPES)]), uris))
    out = []
    for p, types, uris in services:
        parts = ['<Type>%s</Type>' % t for t in types] + ['<URI%s>%s</URI>' % ('' if q is None else ' priority="%d"' % q, xescape(u)) for q, u in uris]
        if rng.random() < .3:
            # the order among the types and among the addresses stays
            parts = [x for x in parts if 'Type' not in x[:6]] + [x for x in parts if 'Type' in x[:6]]
        out.append('<Service%s>%s</Service>' % ('' if p is None else ' priority="%d"' % p, ''.join(parts)))
    text = ('<?xml version="1.0"?><xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)">%s<XRD>%s</XRD></xrds:XRDS>'
            % ('<XRD><Service><Type>%s</Type><URI>http://old/</URI></Service></XRD>' % TYPES[0] if rng.random() < .2 else '', ''.join(out)))
    return text.encode('utf-8'), services


def key(p):
    return (1, 0) if p is None else (0, p)


def agrees(got, services, per_service, what, **about):
    """The results are those of the services in order of priority."""
    want = [x for i in sorted(range(len(services)), key=lambda i: key(services[i][0])) for x in per_service[i][0]]
    require(got == want, what, got=got[:8], expected=want[:8], **about)


def orders(uris):
    """The orders of addresses that the priorities allow (here they are distinct)."""
    return [[u for _, u in sorted(uris, key=lambda p: key(p[0]))] or [None]]


def make_leaf(rng, log, number):
    kind = rng.choice(['callable', 'callable', 'endpoint', 'basic', 'filter', 'instance'])
    wanted = set(rng.sample(TYPES, rng.choice([0, 1, 1, 2, 5])))
    needs_uri = rng.random() < .5

    def choose(endpoint):
        log.append((number, tuple(endpoint.type_uris), endpoint.uri))
        require(endpoint.yadis_url == YADIS, 'a filter sees another address of the document', seen=endpoint.yadis_url)
        require(endpoint.service_element.tag == etxrd.service_tag, 'a filter sees no service')
        require(etxrd.getTypeURIs(endpoint.service_element) == list(endpoint.type_uris), 'types and service of an endpoint do not belong together')
        order = rng.sample(sorted(wanted), len(wanted))
        hit = endpoint.matchTypes(order)
        require(hit == [t for t in order if t in endpoint.type_uris], 'matching types are wrong', wanted=order, have=endpoint.type_uris, got=hit)
        if hit and (endpoint.uri or not needs_uri):
            return (number, tuple(endpoint.type_uris), endpoint.uri) if rng_false is None else rng_false
        return None
    # a result that is false but not None is a result
    rng_false = rng.choice([None, None, None, None, 0, '', ()])

    def want(types, uri):
        if wanted & set(types) and (uri or not needs_uri):
            return [(number, tuple(types), uri) if rng_false is None else rng_false]
        return []
    if kind == 'callable':
        return choose, ('t', number, want)
    if kind == 'endpoint':
        class Endpoint(object):
            fromBasicServiceEndpoint = staticmethod(choose)
        return Endpoint, ('t', number, want)
    if kind == 'instance':
        class Other(object):
            def fromBasicServiceEndpoint(self, e):
                return choose(e)
        return Other(), ('t', number, want)
    if kind == 'basic':
        class Basic(filters.BasicServiceEndpoint):
            @staticmethod
            def fromBasicServiceEndpoint(e):
                return choose(e)
        return Basic, ('t', number, want)

    class Full(object):
        def getServiceEndpoints(self, yadis_url, service_element):
            require(yadis_url == YADIS, 'a filter sees another address of the document', seen=yadis_url)
            log.append((number, 'full', None))
            return [(number, 'service', t) for t in etxrd.getTypeURIs(service_element) if t in wanted]
    return Full(), ('f', number, lambda types, uris: [(number, 'service', t) for t in types if t in wanted])


def make(rng, log, counter, depth):
    """(filter-like thing, model)"""
    if depth == 0 or rng.random() < .45:
        counter[0] += 1
        return make_leaf(rng, log, counter[0])
    parts = [make(rng, log, counter, depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    things = [p[0] for p in parts]
    return (tuple(things) if rng.random() < .3 else things), ('l', 0, [p[1] for p in parts])


def give(model, types, uris):
    """(results, calls) for one service with its addresses in an order."""
    kind, number, inner = model
    if kind == 'f':
        return inner(types, uris), [(number, 'full', None)]
    if kind == 't':
        return give(('l', 0, [model]), types, uris)
    results, calls = [], []
    for m in inner:
        if m[0] != 't':
            r, c = give(m, types, uris)
            results += r
            calls += c
    chain = [m for m in inner if m[0] == 't']
    if chain:
        for uri in uris:
            for m in chain:
                calls.append((m[1], tuple(types), uri))
                r = m[2](types, uri)
                if r:
                    results += r
                    break
    return results, calls


def shape(model):
    return model[0] if model[0] != 'l' else '[%s]' % ''.join(shape(m) for m in model[2])


def search(rng, ctx):
    text, services = document(rng)
    log = []
    thing, model = make(rng, log, [0], rng.choice([0, 1, 2, 3]))
    about = dict(document=text.decode(), shape=shape(model))
    how = rng.choice(['apply', 'apply', 'fetch', 'filter'])
    flt = filters.mkFilter(thing) if rng.random() < .5 or how == 'filter' else thing
    if how == 'fetch':
        Fetcher(fetchers.HTTPResponse(YADIS, 200, {'content-type': 'application/xrds+xml'}, text))
        url, got = getServiceEndpoints('http://given.example.com/', flt)
        require(url == YADIS, 'another address of the document', got=url)
        ctx.event('by network')
    elif how == 'apply':
        got = applyFilter(YADIS, text, flt)
    else:
        got = []
        for s in etxrd.iterServices(etxrd.parseXRDS(text)):
            got += list(flt.getServiceEndpoints(YADIS, s))
    got = list(got)
    expected = [[give(model, s[1], order)[0] for order in orders(s[2])] for s in services]
    agrees(got, services, expected, 'the filter gives other endpoints', **about)
    calls = [[give(model, s[1], order)[1] for order in orders(s[2])] for s in services]
    agrees(list(log), services, calls, 'the parts of the filter are asked otherwise', **about)
    ctx.event('filters')
    ctx.event('nested', shape(model).count('[') > 1)
    ctx.event('results', len(got))
    ctx.event('calls', len(log))
    ctx.event('without address', any(not s[2] for s in services))
    ctx.event('several addresses', any(len(s[2]) > 1 for s in services))
    ctx.state(shape(model), len(services), len(got))
    # without a filter: every pair of service and address
    plain = list(applyFilter(YADIS, text))
    agrees([(tuple(e.type_uris), e.uri) for e in plain], services, [[[(tuple(s[1]), u) for u in order] for order in orders(s[2])] for s in services], 'other endpoints without filter', **about)
    require(all(e.yadis_url == YADIS for e in plain), 'another address of the document')
    tree = etxrd.parseXRDS(text)
    elements = list(etxrd.iterServices(tree))
    both = list(etxrd.expandServices(elements))
    agrees([(tuple(t), u) for t, u, _ in both], services, [[[(tuple(s[1]), u) for u in order] for order in orders(s[2])] for s in services], 'services are expanded otherwise', **about)
    require([x for e in elements for x in etxrd.expandService(e)] == both, 'expanding one by one differs', **about)
    ctx.event('expanded', len(both))


def refused(rng, ctx):
    bad = rng.choice([0, 7, object(), 3.5, True])
    things = [lambda e: e, filters.BasicServiceEndpoint, [lambda e: e]]
    rng.shuffle(things)
    thing = rng.choice([bad, [bad], things[:2] + [bad], [things[:1], [bad]], (bad,)])
    try:
        filters.mkFilter(thing)
    except TypeError:
        ctx.event('not a filter')
    else:
        require(False, 'something that is no filter is accepted', thing=repr(thing))
    status, body, ctype = rng.choice([(404, b'', 'application/xrds+xml'), (200, b'<html></html>', 'text/html'), (200, b'<x/>', 'application/xrds+xml'), (200, b'', 'application/xrds+xml'),
                                      (500, document(rng)[0], 'application/xrds+xml'), (200, b'<xrds:XRDS xmlns:xrds="xri://$xrds"/>', 'application/xrds+xml')])
    Fetcher(fetchers.HTTPResponse(YADIS, status, {'content-type': ctype}, body))
    try:
        got = getServiceEndpoints('http://given.example.com/', None)
    except DiscoveryFailure:
        ctx.event('not xrds')
    else:
        require(False, 'services without a document', got=got, status=status, body=body.decode())
    ctx.state('refused', repr(type(thing)), status, body[:3])


def expiry(rng, ctx):
    """The declared end of validity."""
    when = datetime(rng.choice([1970, 2000, 2024, 2038, 2099, rng.randint(1000, 9999)]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    text = '%04d-%02d-%02dT%02d:%02d:%02dZ' % when.timetuple()[:6]
    older = '<XRD><Expires>2001-01-01T00:00:00Z</Expires></XRD>' if rng.random() < .5 else ''
    kind = rng.choice(['given', 'given', 'none', 'bad'])
    if kind == 'bad':
        text = rng.choice([text[:-1], text + 'x', text.replace('T', ' '), text[:10], text.replace('-', '/'), text[:5] + '13' + text[7:], text[:8] + '32' + text[10:], text[:11] + '24' + text[13:],
                           text[:-1] + '.000Z', text[:-1] + '+00:00', 'never', 'x' + text])
    doc = ('<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)">%s<XRD>%s<Service><Type>x</Type><URI>http://a/</URI></Service></XRD></xrds:XRDS>'
           % (older, '' if kind == 'none' else '<Expires>%s</Expires>' % text))
    xrd = etxrd.getYadisXRD(etxrd.parseXRDS(doc.encode()))
    default = rng.choice([None, datetime(1999, 9, 9), 'd'])
    args = rng.choice([(), (default,)]) if default is None else (default,)
    try:
        got = etxrd.getXRDExpiration(xrd, *args)
    except ValueError:
        require(kind == 'bad', 'a well-formed date is refused', date=text)
        ctx.event('bad date')
    else:
        require(kind != 'bad', 'a malformed date is accepted', date=text, got=got)
        want = default if kind == 'none' else when
        require(got == want, 'another end of validity', date=text, got=got, expected=want)
        ctx.event('expiry')
    ctx.state('expiry', kind, bool(older))


SCENARIOS = [('search', search, 60000, 300000), ('refused', refused, 2000, 10000), ('expiry', expiry, 20000, 100000)]
