"""C13: all encodings of a response carry the same fields and nothing else."""
import base64

from openid.message import OPENID1_URL_LIMIT, OPENID_NS, Message
from openid.server.server import (ENCODE_HTML_FORM, ENCODE_KVFORM, ENCODE_URL, EncodingError, OpenIDResponse, ProtocolError, Server)

from lib import gen
from lib.assocserver import DEFAULT_P, btwoc
from lib.core import Violation, require
from lib.world import OPENID2, FormReader, Stores, url_args
from checks.c07 import value, xml_ok
from checks.c09 import issue

PROP = 'C13'
TECHNIQUE = 'runtime monitoring: every encoding of the same response read back by independent parsers and compared with the fields put in'
LEVEL_NOTE = ('Random responses and errors with hostile values, lengths around the URL limit, return addresses with own queries; independent readers of URL, '
              'form, page and key-value form compare content, target, status and structure. Random exploration.')
RULE = 'a case is a batch of responses; counted distinct: (protocol, kind of response, encoding chosen, shape of return address, extensions, side of the length limit)'
NEED = {'responses': 3000, 'redirects': 800, 'forms': 200, 'direct': 600, 'direct_errors': 200, 'refused': 20, 'near_limit': 100}
ASSUMPTIONS = ['control characters which markup can not carry may be refused', 'return addresses carry no openid.* arguments and no fragment']

TAGS = {'html', 'head', 'title', 'body', 'form', 'input', 'script', 'meta'}
LIMIT = 2047


def return_address(rng):
    u = '%s://%s%s%s' % (rng.choice(['http', 'https']), gen.host(rng), gen.port(rng), rng.choice(['/', '/cb', '/a/b', '/a;p', '/%C3%A9', '/a%20b', "/it's", '/a&b', '/x"y', '/<b>']))
    r = rng.random()
    if r < .4:
        u += '?' + '&'.join('%s=%s' % (gen.word(rng, 1, 3), rng.choice(['', '1', 'a+b', '/', '?', '/a/?b=/', '%26', '%3D', "'", 'x%22y', '%0A'])) for _ in range(rng.randint(1, 3))) + rng.choice(['', '', '', '&'])
    elif r < .45:
        u += '?'
    return u


def put_fields(rng, fields, big):
    """Sets fields; returns {(namespace, key): value} of them, and whether some value is not representable everywhere."""
    out = {}
    if rng.random() < .5:
        for k in rng.sample(['identity', 'error', 'user_setup_url', 'foo', 'x-y'], rng.randint(1, 3)):
            v = value(rng)
            fields.setArg(OPENID_NS, k, v)
            out[(None, k)] = v
    for i in range(gen.bulk(rng, .004, 100) or rng.choice([0, 0, 1, 2])):
        uri = 'http://ext%d.example.com/?a=b&c=%s' % (i, gen.word(rng))
        for k in rng.sample(['a', 'b.c', 'long-name', 'mode', 'a b', '\u010d', 'x&y', 'x=y', '"q"', '<i>'], rng.randint(1, 3)):
            v = value(rng)
            fields.setArg(uri, k, v)
            out[(uri, k)] = v
    return out


def read_ns(pairs):
    """{(namespace or None, key): value} and protocol namespace of openid.* pairs (without the prefix)."""
    d = {}
    for k, v in pairs:
        require(k not in d, 'field %r occurs twice' % k, pairs=pairs)
        d[k] = v
    ns = d.pop('ns', None)
    aliases = {k[3:]: v for k, v in d.items() if k.startswith('ns.')}
    out = {}
    used = set()
    for k, v in d.items():
        if k.startswith('ns.'):
            continue
        a, _, rest = k.partition('.')
        if rest and a in aliases:
            out[(aliases[a], rest)] = v
            used.add(a)
        else:
            out[(None, k)] = v
    require(used == set(aliases), 'namespace declared without a field', pairs=pairs)
    return ns, out


def split_args(args, what):
    own = [(k, v) for k, v in args if not k.startswith('openid.')]
    return own, [(k[7:], v) for k, v in args if k.startswith('openid.')]


def read_url(url, return_to):
    require(all(0x20 < ord(c) < 0x7f for c in url[len(return_to):]), 'unescaped characters in the URL', url=url)
    require(url.split('?', 1)[0] == return_to.split('?', 1)[0], 'the URL goes elsewhere', url=url, return_to=return_to)
    require('#' not in url, 'fragment in the URL', url=url)
    own, fields = split_args(url_args(url), 'url')
    require(own == url_args(return_to), 'arguments of the return address changed', url=url, return_to=return_to)
    return read_ns(fields)


def read_page(markup, return_to, page):
    r = FormReader(markup)
    require(len(r.forms) == 1, '%d forms' % len(r.forms), markup=markup)
    require(all(t in TAGS for t, _ in r.tags), 'foreign tags in the markup', tags=[t for t, _ in r.tags])
    require([t for t, _ in r.tags].count('script') == (1 if page else 0), 'foreign script', markup=markup)
    attrs, fields = r.forms[0]
    for t, a in r.tags:
        require(set(k for k, _ in a) <= {'action', 'method', 'accept-charset', 'enctype', 'type', 'name', 'value', 'onload', 'id', 'content', 'http-equiv'}, 'foreign attribute', tag=t, attrs=a)
    require(attrs.get('action') == return_to and attrs.get('method', '').lower() == 'post', 'the form goes elsewhere', attrs=attrs, return_to=return_to)
    own, fields = split_args(fields, 'form')
    require(own == [], 'other fields in the form', fields=own)
    return read_ns(fields)


def read_kv(text, v2):
    require(text.endswith('\n') or text == '', 'not a key-value form', text=text)
    pairs = []
    for line in text.split('\n')[:-1]:
        k, sep, v = line.partition(':')
        require(sep, 'line without colon', text=text)
        pairs.append((k, v))
    return read_ns(pairs)


def same(what, got, ns, want):
    require(got[0] == ns or (ns is None and got[0] in (None, 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0')), '%s: protocol version differs' % what, got=got[0], expected=ns)
    require(got[1] == want, '%s: fields differ' % what, got=sorted(map(str, got[1].items())), expected=sorted(map(str, want.items())))


def browser(rng, ctx):
    stores = Stores()
    try:
        server = Server(stores.make('memory'), 'http://op.example.com/server')
        for _ in range(8):
            one_browser(rng, ctx, server)
    finally:
        stores.close()


def one_browser(rng, ctx, server):
    v2 = rng.random() < .6
    rt = return_address(rng)
    q = {'openid.mode': rng.choice(['checkid_setup', 'checkid_immediate']), 'openid.return_to': rt, 'openid.identity': 'http://id.example.com/'}
    if v2:
        q['openid.ns'] = OPENID2
        q['openid.claimed_id'] = q['openid.identity']
    kind = rng.choice(['response', 'response', 'error'])
    if kind == 'response':
        request = server.decodeRequest(q)
        response = OpenIDResponse(request)
        mode = rng.choice(['cancel', 'setup_needed', 'error', 'other'])
        response.fields.setArg(OPENID_NS, 'mode', mode)
        want = {(None, 'mode'): mode}
        want.update(put_fields(rng, response.fields, False))
        near = rng.random() < .4
        if near:
            # lengths around the limit
            room = LIMIT + rng.choice([-300, -2, -1, 0, 1, 2, 3, 50]) - len(response.encodeToURL()) - len('&openid.pad=')
            if room > 0:
                response.fields.setArg(OPENID_NS, 'pad', 'p' * room)
                want[(None, 'pad')] = 'p' * room
                ctx.event('near_limit')
    else:
        text, contact, reference = value(rng), rng.choice([None, value(rng)]), rng.choice([None, value(rng)])
        if rng.random() < .3:
            text += 'x' * rng.choice([1500, 1700, 3000])
        response = ProtocolError(Message.fromPostArgs(q), text, reference=reference, contact=contact)
        want = {(None, 'mode'): 'error', (None, 'error'): text}
        if contact is not None:
            want[(None, 'contact')] = contact
        if reference is not None:
            want[(None, 'reference')] = reference
    ns = OPENID2 if v2 else None
    ctx.event('responses')
    url = response.encodeToURL()
    same('URL', read_url(url, rt), ns, want)
    same('form', read_page(response.toFormMarkup(), rt, False), ns, want)
    same('page', read_page(response.toHTML(), rt, True), ns, want)
    clean = all('\n' not in v for v in want.values()) and all(':' not in k for _, k in want)
    try:
        kv = response.encodeToKVForm()
    except ValueError:
        require(not clean, 'can not be encoded to key-value form', fields=str(want))
        ctx.event('refused')
    else:
        require(clean, 'key-value form of values with line breaks', text=kv)
        same('key-value', read_kv(kv, v2), ns, want)
    enc = response.whichEncoding()
    long = len(url) > LIMIT
    require(enc == (ENCODE_HTML_FORM if v2 and long else ENCODE_URL), 'wrong encoding chosen', encoding=enc, length=len(url), v2=v2)
    if kind == 'response':
        require(response.renderAsForm() == (enc == ENCODE_HTML_FORM), 'renderAsForm is wrong')
    web = server.encodeResponse(response)
    if enc == ENCODE_URL:
        require(web.code == 302 and set(map(str.lower, web.headers)) == {'location'} and not web.body, 'not a plain redirect', code=web.code, headers=web.headers)
        loc = web.headers['location']
        require('\n' not in loc and '\r' not in loc, 'line break in the header', location=loc)
        same('redirect', read_url(loc, rt), ns, want)
        ctx.event('redirects')
    else:
        require(web.code == 200 and not web.headers.get('location'), 'form with status %r' % web.code)
        same('form page', read_page(web.body, rt, True), ns, want)
        ctx.event('forms')
    ctx.state(v2, kind, enc, '?' in rt, len(want), long, sorted(set(n is None for n, _ in want)))
    ctx.sample('url', url)


def associate_args(rng, v2):
    st = rng.choice(['DH-SHA1', 'DH-SHA256', 'no-encryption'])
    q = {'openid.mode': 'associate', 'openid.session_type': st, 'openid.assoc_type': {'DH-SHA1': 'HMAC-SHA1', 'DH-SHA256': 'HMAC-SHA256'}.get(st, rng.choice(['HMAC-SHA1', 'HMAC-SHA256']))}
    if st != 'no-encryption':
        q['openid.dh_consumer_public'] = base64.b64encode(btwoc(pow(2, rng.randrange(2, 10 ** 40), DEFAULT_P))).decode()
    return st, q


def direct(rng, ctx):
    stores = Stores()
    try:
        server = Server(stores.make(rng.choice(['memory', 'file', 'sqlite'])), 'http://op.example.com/server')
        if rng.random() < .3:
            server.negotiator.setAllowedTypes([rng.choice([('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA1', 'no-encryption')])])
        for _ in range(4):
            v2 = rng.random() < .6
            kind = rng.choice(['associate', 'check', 'error'])
            error = False
            if kind == 'associate':
                st, q = associate_args(rng, v2)
            elif kind == 'check':
                q = issue(rng, server, v2)
                q['openid.mode'] = 'check_authentication'
                if rng.random() < .5:
                    q['openid.invalidate_handle'] = rng.choice(['x', 'a b', gen.word(rng), 'a:b', '\u010d'])
                if rng.random() < .3:
                    q['openid.sig'] = 'AAAA'
            else:
                q = {'openid.mode': rng.choice(['associate', 'check_authentication', 'whatever', 'x:y', 'a\nb', 'id_res'])}
                if rng.random() < .5:
                    q['openid.session_type'] = value(rng)
            if v2:
                q['openid.ns'] = OPENID2
            try:
                request = server.decodeRequest(q)
                response = server.handleRequest(request)
            except ProtocolError as e:
                response = e
                error = True
                fields = {(None, 'mode'): 'error', (None, 'error'): str(e)}
            if not error:
                fields = {(None, k): v for k, v in response.fields.getArgs(OPENID_NS).items()}
                if (None, 'error_code') in fields:
                    error = True
                    require(fields[(None, 'error_code')] == 'unsupported-type' and (None, 'error') in fields, 'odd error', fields=str(fields))
                elif kind == 'associate':
                    need = {'expires_in', 'assoc_type', 'assoc_handle'} | ({'mac_key'} if st == 'no-encryption' else {'enc_mac_key', 'dh_server_public'})
                    if v2 or st != 'no-encryption':
                        need.add('session_type')
                    require(set(k for _, k in fields) == need, 'fields of the association response differ', got=sorted(k for _, k in fields), expected=sorted(need))
                    require(fields[(None, 'assoc_type')] == q['openid.assoc_type'], 'another association type', fields=str(fields))
                elif kind == 'check':
                    require(set(k for _, k in fields) <= {'is_valid', 'invalidate_handle'} and (None, 'is_valid') in fields, 'fields of the verification response differ', fields=str(fields))
            require(response.whichEncoding() == ENCODE_KVFORM or error, 'wrong encoding chosen', encoding=response.whichEncoding())
            ctx.event('responses')
            try:
                web = server.encodeResponse(response)
            except EncodingError:
                require(any('\n' in v for v in fields.values()) or 'openid.mode' not in q, 'a direct response was refused', fields=str(fields))
                ctx.event('refused')
                continue
            require(web.code == (400 if error else 200), 'direct response with status %r' % web.code, query=q, body=web.body)
            require('location' not in web.headers, 'direct response redirects', headers=web.headers)
            same('direct', read_kv(web.body, v2), OPENID2 if v2 else None, fields)
            ctx.event('direct_errors' if error else 'direct')
            ctx.state('direct', v2, kind, error, sorted(k for _, k in fields))
    finally:
        stores.close()


def finish(events):
    require(OPENID1_URL_LIMIT == LIMIT, 'the URL length limit changed', limit=OPENID1_URL_LIMIT)


SCENARIOS = [('browser', browser, 3900, 19500), ('direct', direct, 3100, 15500)]
