"""C10: a provider never asserts more than was requested and approved."""
from urllib.parse import urlencode

from openid.server.server import (CheckIDRequest, EncodingError, NoReturnToError, ProtocolError, Server, VersionError)

from lib import gen, refurl
from lib.core import Violation, require
from lib.world import OPENID2, SELECT, Stores, deliver, url_args
from checks.c08 import associate

PROP = 'C10'
TECHNIQUE = 'runtime monitoring: every answer to every kind of request compared with a decision model, at the interface and on the wire'
LEVEL_NOTE = ('Random requests (both protocols, both modes, all identifier kinds, with and without return address) answered with random decisions and '
              'identifiers; a model says what may be asserted or has to be refused, the monitor reads the encoded response. Random exploration.')
RULE = ('a case is a batch of request and answer pairs; counted distinct: (protocol, mode, identifier kind, return address kind, decision, identity '
        'supplied, claimed identifier supplied, outcome)')
NEED = {'positive': 500, 'refused': 500, 'denied': 500, 'setup_url_followed': 100, 'no_return_to': 100, 'unusable_return_to': 200}

NOT_ALLOWED = ['openid.identity', 'openid.claimed_id', 'openid.op_endpoint', 'openid.return_to', 'openid.response_nonce']


def identifier(rng):
    return rng.choice([gen.url(rng), gen.url(rng), gen.url(rng) + '#frag', 'http://id.example.com/', 'http://id.example.com/joe', '=name*x', '@corp*joe', 'joe',
                       gen.text(rng, 1, 5, strip=True) or 'x', 'mailto:joe@example.com'])


def same_spellings(rng, url):
    """Spellings of an HTTP URL that mean the same."""
    s, a, p, q, f = refurl.split(url)
    out = [s.upper() + url[len(s):], s + '://' + a.upper() + url[len(s) + 3 + len(a):]]
    if ':' not in a:
        out.append(s + '://' + a + {'http': ':80', 'https': ':443'}[s] + url[len(s) + 3 + len(a):])
    if p.startswith('/'):
        out.append(s + '://' + a + '/./' + url[len(s) + 3 + len(a) + 1:])
    return [o for o in out if o != url]


def other_spellings(rng, url):
    out = [url + 'x', url[:-1] if url[-1] not in '=&?#' else url + 'y', url.replace('http', 'ftp', 1), 'http://evil.example.com/', url + '/', url.replace('://', '://evil.'), '']
    s = refurl.split(url)
    out += [s[0] + '://' + s[1] + ':1' + url[len(s[0]) + 3 + len(s[1]):]]
    if '#' not in url:
        out += [url + '#x']
    # the case of letters behind the authority, the scheme, a part left out, and reserved characters matter
    rest = url[len(s[0]) + 3 + len(s[1]):]
    pre = url[:len(url) - len(rest)]
    out += [pre + rest.upper(), pre + rest.lower(), pre + rest.swapcase(), pre + rest.rstrip('/'), pre + rest.partition('?')[0], pre + rest.partition('#')[0], pre + '/' + rest,
            pre + rest.replace('/', '%2F').replace('%2F', '/', 1), {'http': 'https', 'https': 'http'}[s[0]] + url[len(s[0]):], s[0] + '://www.' + url[len(s[0]) + 3:],
            pre + rest.replace('~', '-')]
    return [o for o in out if o and o != url and not same(o, url)]


def same(a, b):
    try:
        ca, cb = refurl.canon(a), refurl.canon(b)
    except ValueError:
        return a == b
    return ca == cb


def is_http(u):
    return u.lower().startswith(('http://', 'https://'))


def answers(rng, ctx):
    stores = Stores()
    try:
        endpoint = gen.url(rng, query=False) + rng.choice(['', '?op=1', '?a=b&c=d'])
        if '?' in endpoint and endpoint.split('?')[0].count('/') < 3:
            endpoint = endpoint.replace('?', '/?')
        server = Server(stores.make(rng.choice(['memory', 'file', 'sqlite'])), endpoint)
        handles = [None, None, 'unknown'] + [associate(server, rng, True)[0]]
        for _ in range(rng.randint(4, 10)):
            one(rng, ctx, server, endpoint, handles)
    finally:
        stores.close()


def one(rng, ctx, server, endpoint, handles):
    v2 = rng.random() < .6
    immediate = rng.random() < .4
    kind = rng.choice(['id', 'id', 'id', 'id', 'select', 'none'] if v2 else ['id', 'id', 'select'])
    ident = identifier(rng)
    if ident == SELECT:
        ident = 'x'
    # asking for a certain local identifier is not identifier selection, whatever is asked to be claimed
    claimed = rng.choice([ident, ident, identifier(rng)] + [SELECT] * (rng.random() < .3))
    base = gen.url(rng, query=False)
    base += '' if base.count('/') > 2 else '/'
    own = [(gen.word(rng, 1, 3), gen.word(rng, 0, 3))] if rng.random() < .3 else []
    rkind = 'none' if v2 and rng.random() < .12 else 'url'
    return_to = base + ('?' + urlencode(own) if own else '')
    realm = rng.choice([None, base]) if rkind == 'url' else base
    handle = rng.choice(handles)
    q = {'openid.mode': 'checkid_immediate' if immediate else 'checkid_setup'}
    if v2:
        q['openid.ns'] = OPENID2
    elif rng.random() < .3:
        q['openid.ns'] = 'http://openid.net/signon/1.1'
    if rkind == 'url':
        q['openid.return_to'] = return_to
    if realm:
        q['openid.realm' if v2 else 'openid.trust_root'] = realm
    if kind == 'select':
        ident = claimed = SELECT
    if kind != 'none':
        q['openid.identity'] = ident
        if v2:
            q['openid.claimed_id'] = claimed
    if handle:
        q['openid.assoc_handle'] = handle
    request = server.decodeRequest(dict(q))
    require(isinstance(request, CheckIDRequest) and request.immediate == immediate, 'decoded as something else', query=q)
    require(request.idSelect() == (kind == 'select'), 'idSelect is wrong', query=q)
    for _ in range(rng.randint(1, 4)):
        answer(rng, ctx, server, endpoint, request, q, v2, immediate, kind, ident, claimed, rkind, return_to, realm, handle)


def answer(rng, ctx, server, endpoint, request, q, v2, immediate, kind, ident, claimed, rkind, return_to, realm, handle):
    allow = rng.choice([True, True, False, 1, 0, None])
    supplied = None
    how = 'none'
    if rng.random() < .6:
        if kind == 'id' and is_http(ident) and rng.random() < .8:
            how = rng.choice(['same', 'spelling', 'spelling', 'other', 'other', 'other', 'claimed'])
            if how == 'spelling':
                supplied = rng.choice(same_spellings(rng, ident))
            elif how == 'other':
                supplied = rng.choice(other_spellings(rng, ident))
            elif how == 'claimed':
                supplied = claimed
                how = 'same' if claimed == ident else 'spelling' if same(claimed, ident) else 'other'
            else:
                supplied = ident
        else:
            supplied = identifier(rng)
            how = 'same' if supplied == ident else 'spelling' if is_http(ident) and is_http(supplied) and same(supplied, ident) else 'other'
    cid = None
    if rng.random() < .3:
        cid = rng.choice([identifier(rng), supplied, claimed])
    server_url = rng.choice([None, None, 'http://setup.example.com/x'])
    kw = {}
    if supplied is not None:
        kw['identity'] = supplied
    if cid is not None:
        kw['claimed_id'] = cid
    if server_url is not None:
        kw['server_url'] = server_url
    expect = None
    if rkind == 'none':
        expect = NoReturnToError
    elif cid and not v2:
        expect = VersionError
    elif allow:
        if kind == 'select':
            expect = None if supplied else ValueError
        elif kind == 'id':
            expect = ValueError if how == 'other' else None
        else:
            expect = ValueError if supplied else None
    try:
        response = request.answer(allow, **kw)
    except (NoReturnToError, VersionError, ValueError) as e:
        require(expect is not None, 'a legitimate answer was refused: %r' % (e,), query=q, answer=kw, allow=allow)
        ctx.event('no_return_to' if rkind == 'none' else 'refused')
        ctx.state(v2, immediate, kind, rkind, bool(allow), how, cid is None, type(e).__name__)
        if rkind == 'none':
            require(isinstance(e, NoReturnToError), 'wrong error %r' % (e,), query=q)
            for f in (request.getCancelURL, lambda: request.encodeToURL(endpoint)):
                try:
                    u = f()
                except NoReturnToError:
                    pass
                else:
                    raise Violation('an address was made up for a request without return address', query=q, url=u)
        return
    require(expect is None, 'an illegitimate answer was accepted', query=q, answer=kw, allow=allow, expected=expect.__name__ if expect else None)
    try:
        web = server.encodeResponse(response)
    except EncodingError as e:
        require(any(c in (supplied or '') + (cid or '') + ident + claimed for c in '\x01\x0b\x0c\x1c\x7f\x85\r\n'), 'can not be encoded: %r' % (e,), query=q, answer=kw)
        return
    url, args = deliver(web, return_to)
    require(url.split('?')[0] == return_to.split('?')[0], 'the response goes elsewhere', url=url, return_to=return_to)
    own = [(k, v) for k, v in args if not k.startswith('openid.')]
    require(own == url_args(return_to), 'arguments of the return address changed', url=url, return_to=return_to)
    wire = [(k, v) for k, v in args if k.startswith('openid.')]
    require(len(wire) == len(dict(wire)), 'field occurs twice', wire=wire)
    wire = dict(wire)
    ctx.state(v2, immediate, kind, rkind, bool(allow), how, cid is None, wire.get('openid.mode'))
    if allow:
        ctx.event('positive')
        require(wire.get('openid.mode') == 'id_res', 'approval with mode %r' % wire.get('openid.mode'), wire=wire)
        require('openid.user_setup_url' not in wire, 'approval with a setup address', wire=wire)
        if kind == 'none':
            wid = wcl = None
        elif kind == 'select':
            wid, wcl = supplied, cid or supplied
        else:
            wid, wcl = ident, claimed
        require(wire.get('openid.identity') == wid, 'asserted another identity', expected=wid, got=wire.get('openid.identity'), query=q, answer=kw)
        if v2:
            require(wire.get('openid.claimed_id') == wcl, 'asserted another claimed identifier', expected=wcl, got=wire.get('openid.claimed_id'), query=q, answer=kw)
        else:
            require('openid.claimed_id' not in wire, 'claimed identifier in version 1', wire=wire)
        require(wire.get('openid.return_to') == return_to, 'asserted to another return address', wire=wire, return_to=return_to)
        return
    ctx.event('denied')
    for k in NOT_ALLOWED:
        require(k not in wire, 'denial with %s' % k, wire=wire)
    want = 'cancel' if not immediate else 'setup_needed' if v2 else 'id_res'
    require(wire.get('openid.mode') == want, 'denial with mode %r' % wire.get('openid.mode'), expected=want)
    require((wire.get('openid.ns') == OPENID2) == v2, 'denial in another protocol version', wire=wire)
    require(('openid.user_setup_url' in wire) == immediate, 'setup address does not fit the mode', wire=wire)
    if want != 'id_res':
        require('openid.sig' not in wire and 'openid.signed' not in wire, 'signed denial', wire=wire)
    if immediate:
        setup = wire['openid.user_setup_url']
        require(setup.split('?')[0] == (server_url or endpoint).split('?')[0], 'the setup address is not at the provider', setup=setup)
        again = dict(url_args(setup))
        for k, v in url_args(server_url or endpoint):
            require(again.get(k) == v, 'the setup address lost arguments of the endpoint', setup=setup)
        r2 = server.decodeRequest({k: v for k, v in again.items() if k.startswith('openid.')})
        require(r2.mode == 'checkid_setup' and not r2.immediate, 'the setup address is not a setup request', setup=setup)
        for a in ('identity', 'claimed_id', 'return_to', 'trust_root', 'assoc_handle'):
            x, y = getattr(request, a), getattr(r2, a)
            require(x == y, 'the setup address asks something else (%s)' % a, request=x, setup=y)
        ctx.event('setup_url_followed')
        try:
            u = request.getCancelURL()
        except ValueError:
            pass
        else:
            raise Violation('cancel address for an immediate request', url=u)
    else:
        u = request.getCancelURL()
        args = url_args(u)
        require(u.split('?')[0] == return_to.split('?')[0] and [a for a in args if not a[0].startswith('openid.')] == url_args(return_to)
                and dict(a for a in args if a[0].startswith('openid.')) == {k: v for k, v in wire.items()},
                'the cancel address differs from the denial', url=u, wire=wire)
        ctx.event('cancel_url')


BAD = ['', 'foo', '/relative', '//host/path', 'javascript:alert(1)', 'data:text/html,x', 'ftp://rp.example.com/', 'file:///etc/passwd', 'http:', 'http://', 'https:///x',
       'http:/rp.example.com/', 'mailto:a@b', 'http://rp.example.com/#frag', 'http://rp .example.com/', 'http://[::1/', 'http://rp.example.com:port/',
       'JavaScript://rp.example.com/%0aalert(1)', 'http://:80/', 'xri://=foo', 'about:blank']


def unusable(rng, ctx):
    stores = Stores()
    try:
        server = Server(stores.make('memory'), 'http://op.example.com/')
        for bad in rng.sample(BAD, 8):
            v2 = rng.random() < .6
            q = {'openid.mode': rng.choice(['checkid_setup', 'checkid_immediate']), 'openid.return_to': bad, 'openid.identity': 'http://id.example.com/'}
            if v2:
                q['openid.ns'] = OPENID2
                q['openid.claimed_id'] = q['openid.identity']
            r = rng.choice([None, 'http://rp.example.com/', 'http://*.example.com/', bad])
            if r:
                q['openid.realm' if v2 else 'openid.trust_root'] = r
            try:
                request = server.decodeRequest(q)
            except ProtocolError as e:
                ctx.event('unusable_return_to')
                ctx.state('bad', bad, v2, type(e).__name__)
                if bad == 'http://rp.example.com/#frag':
                    continue
                try:
                    web = server.encodeResponse(e)
                except EncodingError:
                    continue
                require(web.code != 302 and '<form' not in (web.body or ''), 'an error is sent to %r' % bad, query=q)
            else:
                raise Violation('accepted a request with return address %r' % bad, query=q)
    finally:
        stores.close()


SCENARIOS = [('answers', answers, 3200, 16000), ('unusable', unusable, 480, 2400)]
