"""C07: an authentication request says exactly what the application asked for."""
from collections import Counter
from urllib.parse import urlencode

from openid.consumer.consumer import Consumer
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import ax, sreg
from openid.server.server import Server

from lib import gen, refurl
from lib.core import Violation, require
from lib.vclock import clock
from lib.world import (OPENID2, SELECT, T_10, T_11, T_20, T_SERVER, FormReader, Keyed, Net, Stores, url_args)

PROP = 'C07'
TECHNIQUE = 'runtime monitoring: all encodings of a request read back by independent parsers and by the real provider, compared with the inputs'
LEVEL_NOTE = ('Random services, realms, return addresses, extension data with hostile characters; three encodings and the provider\'s decoding are '
              'compared with what was asked for. Random exploration; control characters not representable in markup are excluded from forms.')
RULE = ('a case is a set of generated requests; counted distinct: (protocol, service kind, anonymous, immediate, own query of endpoint and return '
        'address, number of extensions, association, encodings compared)')
NEED = {'requests': 1500, 'decoded_by_provider': 800, 'forms_read': 1500, 'urls_read': 1500, 'unreturned': 100, 'refused': 400}

SREG11 = 'http://openid.net/extensions/sreg/1.1'


def xml_ok(s):
    return all(c in '\t\n\r' or 0x20 <= ord(c) < 0x7f or 0xa0 <= ord(c) < 0xd800 or 0xe000 <= ord(c) < 0xfffe or ord(c) >= 0x10000 for c in s)


def value(rng):
    if rng.random() < .001:
        return gen.long_text(rng)
    while True:
        s = rng.choice([gen.text(rng, 0, 6), gen.text(rng, 0, 3, newline=True), gen.lit(rng), 'a&b=c', '"><script>alert(1)</script>', "'", '%', '%20', '+', ' ', '',
                        '&amp;', '&quot;', '&#34;', '\u00e9', '\n', 'a\tb'])
        if xml_ok(s):
            return s.replace('\r\n', '\n').replace('\r', '\n')


def own_query(rng):
    return [(rng.choice(['a', 'b', 'op', 'x y', 'openid', 'id[]', gen.word(rng, 1, 3)]), rng.choice(['', '1', 'a b', '&', '=', gen.text(rng, 0, 4)]))
            for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]


def address(rng, base=None, fragment=False):
    u = base or '%s://%s%s%s' % (rng.choice(['http', 'https']), gen.host(rng), gen.port(rng), rng.choice(['/', '/a', '/a/b', '/a;p=1', '/~x', '/%C3%A9']))
    q = own_query(rng)
    if q:
        u += '?' + rng.choice([urlencode(q), urlencode(q, safe='/?:@')]) + rng.choice(['', '', '', '&', '&end=/', '&end=?'])
    elif rng.random() < .05:
        u += '?'
    if fragment and rng.random() < .1:
        u += '#frag'
    return u


def parts(url):
    s, a, p, q, f = refurl.split(url)
    return (s, a, p, f)


def requests(rng, ctx):
    stores = Stores()
    try:
        net = Net()
        store = stores.make(rng.choice(['memory', 'none']))
        for _ in range(4):
            one(rng, ctx, net, store)
    finally:
        stores.close()


def one(rng, ctx, net, store):
    types = rng.choice([[T_20], [T_11], [T_10], [T_20, T_11], [T_SERVER], [T_11, T_10]])
    v2 = T_20 in types or T_SERVER in types
    op_url = address(rng, fragment=True)
    net.routes = {}
    op = Keyed(net, op_url)
    net.add(refurl.split(op_url)[0] + '://' + refurl.split(op_url)[1] + refurl.split(op_url)[2], op.handle)
    ep = OpenIDServiceEndpoint()
    ep.type_uris = list(types)
    ep.server_url = op_url
    select = T_SERVER in types
    if not select:
        ep.claimed_id = rng.choice([address(rng), address(rng), address(rng) + '#' + gen.word(rng, 0, 3), 'http://joe.example.com/' + gen.text(rng, 0, 2), op_url, '=!1234', '@x*(http://y/)'])
        if not xml_ok(ep.claimed_id):
            ep.claimed_id = 'http://joe.example.com/'
        if rng.random() < .4:
            ep.local_id = rng.choice([address(rng), address(rng) + '#x', op_url, ep.claimed_id, SELECT + 'x', 'joe', 'http://op.example.com/u?id=1&x="2"', '<x>'])
        if rng.random() < .1 and ep.local_id is None:
            ep.canonicalID = '=!1234'
    handle = None
    while store is not None and store.getAssociation(op_url) is not None:
        # an address drawn again: of two associations issued at the same moment either may be used
        store.removeAssociation(op_url, store.getAssociation(op_url).handle)
    if store is not None and rng.random() < .6:
        handle = op.share(store, rng, handle=rng.choice([None, 'h&"<>=%', gen.word(rng, 5, 30), '{HMAC-SHA1}{x}{y==}']))
    anonymous = v2 and rng.random() < .15
    consumer = Consumer({}, store)
    req = consumer.beginWithoutDiscovery(ep, anonymous)
    require(bool(req.shouldSendRedirect()) == (not v2), 'the way to send a request does not fit the protocol', v2=v2)
    exts = {}
    # one request object may make many messages, each for itself
    for i in range(rng.choice([1, 1, 2, 3])):
        if i and v2 and rng.random() < .4:
            anonymous = rng.random() < .5
            req.setAnonymous(anonymous)
        if i and rng.random() < .3:
            clock.advance(rng.choice([1, 3600]))
        message(rng, ctx, req, ep, op_url, v2, select, types, anonymous, handle, exts)


def message(rng, ctx, req, ep, op_url, v2, select, types, anonymous, handle, exts):
    immediate = rng.random() < .4
    if rng.random() < .2:
        unreturned(rng, ctx, req, ep, op_url, v2, select, anonymous, handle, immediate)
    # realm and return address
    realm_base = '%s://%s%s' % (rng.choice(['http', 'https']), gen.host(rng), gen.port(rng))
    realm = realm_base + rng.choice(['', '/', '/a/'])
    rt = address(rng, realm_base + rng.choice(['/a/', '/a/b', '/a/cb;p=1']), fragment=True)
    valid = True
    if rng.random() < .2:
        realm, valid = value(rng), False
    elif rng.random() < .2:
        realm = realm_base.replace('://', '://*.') + '/'
        valid = True
    if valid and rng.random() < .15:
        rt = rng.choice([value(rng) or 'x', 'http://other.example.net/'])
        valid = False
    decodable = valid and '#' not in rt       # providers refuse return addresses with a fragment
    # extensions
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        uri = rng.choice([SREG11, 'http://ext.example.com/%s' % gen.word(rng, 1, 3), 'urn:x', 'http://openid.net/srv/ax/1.0'])
        if uri != SREG11 and not v2:
            uri = 'http://ext.example.com/%s' % gen.word(rng, 1, 3)
        for _ in range(rng.randint(1, 3)):
            k = rng.choice([gen.word(rng, 1, 6), 'required', 'mode', 'type.a', 'a.b.c', 'x-y', 'k' + gen.word(rng, 1, 2)])
            val = value(rng)
            req.addExtensionArg(uri, k, val)
            exts.setdefault(uri, {})[k] = val
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        req.return_to_args[rng.choice(['foo', 'b&r', 'é'])] = value(rng)
    more = dict(req.return_to_args)
    require(len(more) >= (1 if v2 else 2), 'consumer adds no arguments of its own', got=more)

    url = req.redirectURL(realm, rt, immediate=immediate)
    fattrs = rng.choice([None, {'name': 'f"x', 'action': 'http://evil/', 'method': 'get'}, {'accept-charset': 'utf-8', 'enctype': 'multipart/form-data', 'onsubmit': "x('&')"}])
    form = req.formMarkup(realm, rt, immediate=immediate, form_tag_attrs=fattrs)
    pattrs = rng.choice([None, {'name': 'f"x', 'action': 'http://evil/', 'method': 'get'}, {'class': 'a"b', 'id': '<f>'}])
    page = req.htmlMarkup(realm, rt, immediate=immediate, form_tag_attrs=pattrs)
    msg = req.getMessage(realm, rt, immediate=immediate).toPostArgs()
    ctx.event('requests')
    # what the arguments must be
    want = {'openid.mode': 'checkid_immediate' if immediate else 'checkid_setup', 'openid.realm' if v2 else 'openid.trust_root': realm}
    if v2:
        want['openid.ns'] = OPENID2
    if not anonymous:
        ident = SELECT if select else ep.local_id or ep.canonicalID or ep.claimed_id
        want['openid.identity'] = ident
        if v2:
            want['openid.claimed_id'] = SELECT if select else ep.claimed_id
    if handle is not None:
        want['openid.assoc_handle'] = handle
    got = dict(msg)
    grt = got.pop('openid.return_to', None)
    require(grt is not None, 'return address missing', args=msg)
    require(parts(grt) == parts(rt), 'return address changed', want=rt, got=grt)
    if valid:
        require(Counter(url_args(grt)) == Counter(url_args(rt)) + Counter(more.items()), 'arguments of the return address changed', want=rt, extra=more, got=grt)
        require(url_args(grt)[:len(url_args(rt))] == url_args(rt), 'arguments of the return address reordered', want=rt, got=grt)
    # extensions: one alias per namespace
    aliases = {}
    for k in list(got):
        if k.startswith('openid.ns.'):
            aliases[k[len('openid.ns.'):]] = got.pop(k)
    require(len(set(aliases.values())) == len(aliases), 'two aliases of one namespace', aliases=aliases)
    for uri, data in exts.items():
        names = [a for a, u in aliases.items() if u == uri]
        if not names and uri == SREG11 and not v2:
            names = ['sreg']
        require(len(names) == 1, 'extension namespace not declared', uri=uri, aliases=aliases)
        for k, val in data.items():
            key = 'openid.%s.%s' % (names[0], k)
            require(got.pop(key, None) == val, 'extension argument lost or changed', key=key, want=val)
    require(got == want, 'arguments differ from what was asked', want=want, got=got)
    # the redirect
    own = url_args(op_url)
    pairs = url_args(url)
    require(parts(url) == parts(op_url), 'redirect goes elsewhere', want=op_url, got=url)
    require(pairs[:len(own)] == own, 'query of the endpoint lost', want=op_url, got=url)
    require(Counter(pairs[len(own):]) == Counter(msg.items()), 'redirect carries other arguments', want=msg, got=pairs)
    require(not any(ord(c) <= 32 or c in '"<>' or ord(c) > 126 for c in url[len(op_url.split('#')[0]):]), 'unsafe characters in the URL', url=url)
    ctx.event('urls_read')
    # the forms
    for markup, whole, given in ((form, False, fattrs), (page, True, pattrs)):
        r = FormReader(markup)
        require(len(r.forms) == 1, 'not exactly one form', markup=markup)
        attrs, fields = r.forms[0]
        require(attrs.get('action') == op_url, 'form goes elsewhere', want=op_url, got=attrs.get('action'))
        require(attrs.get('method', '').lower() == 'post', 'form is not posted', attrs=attrs)
        require('utf-8' == attrs.get('accept-charset', '').lower(), 'form charset differs', attrs=attrs)
        for k, val in (given or {}).items():
            require(k in ('action', 'method', 'accept-charset', 'enctype') or attrs.get(k) == val, 'an attribute asked for the form is lost', attribute=k, want=val, got=attrs.get(k))
        require(Counter(fields) == Counter(msg.items()), 'form carries other arguments', want=msg, got=fields)
        tags = Counter(t for t, _ in r.tags)
        require(tags['input'] == len(msg) + 1 and set(tags) <= {'form', 'input', 'html', 'head', 'title', 'body', 'script'} and
                tags['script'] <= (1 if whole else 0), 'values changed the structure of the markup', tags=dict(tags), markup=markup)
        ctx.event('forms_read')
    # the provider's view
    if decodable:
        request = Server(stores_memory(), 'http://op.example.com/').decodeRequest(dict(rng.choice([pairs[len(own):], fields])))
        what = (request.mode, request.immediate, request.trust_root, request.return_to, request.identity, request.assoc_handle)
        require(what == (want['openid.mode'], immediate, realm, grt, want.get('openid.identity'), handle), 'provider sees another request', got=what, want=want)
        if v2:
            require(request.claimed_id == want.get('openid.claimed_id'), 'provider sees another claimed identifier', got=request.claimed_id)
        for uri, data in exts.items():
            seen = dict(request.message.getArgs(uri))
            require(seen == data, 'provider sees other extension data', uri=uri, want=data, got=seen)
        ctx.event('decoded_by_provider')
    ctx.state(tuple(types), anonymous, immediate, bool(own), '?' in rt, len(exts), handle is not None, valid, ep.local_id is None)


def unreturned(rng, ctx, req, ep, op_url, v2, select, anonymous, handle, immediate):
    """Requests without a return address: only when nothing has to come back."""
    realm = 'http://%s/' % gen.host(rng)
    keep = dict(req.return_to_args)
    require(keep, 'consumer adds no arguments of its own')
    none = rng.choice([None, ''])
    makers = [req.getMessage, req.redirectURL, req.formMarkup, req.htmlMarkup]
    for f in makers:
        try:
            out = f(realm, none, immediate=immediate)
        except ValueError:
            pass
        else:
            raise Violation('a request without return address although arguments have to come back', out=repr(out), anonymous=anonymous)
    ctx.event('refused')
    req.return_to_args.clear()
    try:
        if immediate or not v2:
            for f in makers:
                try:
                    out = f(realm, none, immediate=immediate)
                except ValueError:
                    pass
                else:
                    raise Violation('a request without return address', out=repr(out))
        else:
            msg = req.getMessage(realm, none).toPostArgs()
            core = {k: v for k, v in msg.items() if k.count('.') == 1}
            want = {'openid.mode': 'checkid_setup', 'openid.realm': realm, 'openid.ns': OPENID2}
            if not anonymous:
                want['openid.identity'] = SELECT if select else ep.local_id or ep.canonicalID or ep.claimed_id
                want['openid.claimed_id'] = SELECT if select else ep.claimed_id
            if handle is not None:
                want['openid.assoc_handle'] = handle
            require(core == want, 'arguments differ from what was asked', want=want, got=core)
            url = req.redirectURL(realm, none)
            require(Counter(url_args(url)) == Counter(url_args(op_url)) + Counter(msg.items()), 'redirect carries other arguments', want=msg, got=url)
            r = FormReader(req.formMarkup(realm, none))
            require(Counter(r.forms[0][1]) == Counter(msg.items()), 'form carries other arguments', want=msg, got=r.forms[0][1])
            request = Server(stores_memory(), 'http://op.example.com/').decodeRequest(msg)
            require(not request.return_to and request.trust_root == realm and request.identity == want.get('openid.identity'), 'provider sees another request', want=want)
            ctx.event('unreturned')
    finally:
        req.return_to_args.update(keep)


def stores_memory():
    from openid.store.memstore import MemoryStore
    return MemoryStore()


def anonymous_v1(rng, ctx):
    """Version 1 can not express a request without an identifier or a return address: it has to be refused."""
    net = Net()
    op_url = address(rng)
    Keyed(net, op_url)
    ep = OpenIDServiceEndpoint()
    ep.type_uris = [rng.choice([T_11, T_10])]
    ep.server_url = op_url
    ep.claimed_id = 'http://joe.example.com/'
    try:
        Consumer({}, None).beginWithoutDiscovery(ep, True)
    except Exception as e:
        require(isinstance(e, ValueError), 'unexpected error for an anonymous version 1 request', error=repr(e))
    else:
        raise Violation('anonymous version 1 request accepted')
    req = Consumer({}, None).beginWithoutDiscovery(ep)
    for f in (req.redirectURL, req.formMarkup, req.htmlMarkup, req.getMessage):
        try:
            out = f('http://rp.example.com/', rng.choice([None, '']), immediate=rng.random() < .5)
        except ValueError:
            pass
        else:
            raise Violation('request without return address made', out=repr(out))
    ctx.event('refused')
    ctx.state('v1', ep.type_uris[0])


SCENARIOS = [
    ('requests', requests, 6200, 60000),
    ('anonymous_v1', anonymous_v1, 100, 500),
]
