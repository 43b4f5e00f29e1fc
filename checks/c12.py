"""C12: a provider decodes any input to a request or a reportable error."""
import base64
import re

from openid.message import OPENID_NS
from openid.server.server import (AssociateRequest, CheckAuthRequest, CheckIDRequest, EncodingError, NoReturnToError, ProtocolError, Server)

from lib import gen
from lib.assocserver import DEFAULT_P, btwoc
from lib.core import Violation, require
from lib.world import OPENID2, SELECT, Stores, read_form
from checks.c09 import issue

PROP = 'C12'
TECHNIQUE = 'runtime monitoring: structure-aware fuzzing of decode, handle and encode under a monitor for allowed outcomes and faithful attributes'
LEVEL_NOTE = ('Valid requests of every kind damaged field by field with hostile values, aliases and namespaces, and random argument sets; the monitor allows '
              'only the documented outcomes, compares attributes with the arguments and follows every error to its encoding. Random exploration.')
RULE = 'a case is a batch of argument sets; counted distinct: (base request, damages, outcome class, encoding of the reply)'
NEED = {'queries': 8000, 'requests': 2000, 'errors': 2500, 'handled': 1500, 'error_redirected': 300, 'error_direct': 300, 'error_shown': 300}
ASSUMPTIONS = ['arguments are text with one value per name', 'Diffie-Hellman moduli of at most a few thousand bits']


def b64(n):
    return base64.b64encode(btwoc(n)).decode()


def xml_ok(s):
    return all(c in '\t\n\r' or 0x20 <= ord(c) < 0xd800 or 0xe000 <= ord(c) < 0xfffe or ord(c) >= 0x10000 for c in s)


def base(rng, server):
    kind = rng.choice(['setup', 'setup', 'immediate', 'check', 'assoc', 'assoc', 'junk'])
    v2 = rng.random() < .6
    q = {}
    if v2:
        q['openid.ns'] = OPENID2
    elif rng.random() < .2:
        q['openid.ns'] = rng.choice(['http://openid.net/signon/1.1', 'http://openid.net/signon/1.0'])
    if kind in ('setup', 'immediate'):
        q['openid.mode'] = 'checkid_' + kind
        q['openid.return_to'] = 'http://rp.example.com/cb?x=1'
        if rng.random() < .7:
            q['openid.realm' if v2 else 'openid.trust_root'] = 'http://rp.example.com/'
        if v2 and rng.random() < .15:
            del q['openid.return_to']
            q['openid.realm'] = 'http://rp.example.com/'
        q['openid.identity'] = rng.choice(['http://id.example.com/', SELECT])
        if v2:
            q['openid.claimed_id'] = q['openid.identity']
        if rng.random() < .4:
            q['openid.assoc_handle'] = 'h1'
        if rng.random() < .3:
            q['openid.ns.sreg'] = 'http://openid.net/extensions/sreg/1.1'
            q['openid.sreg.required'] = 'nickname'
    elif kind == 'check':
        ns = q.get('openid.ns')
        q = issue(rng, server, v2)
        if ns and not v2:
            q['openid.ns'] = ns
        q['openid.mode'] = 'check_authentication'
        if rng.random() < .3:
            q['openid.invalidate_handle'] = gen.word(rng)
    elif kind == 'assoc':
        q['openid.mode'] = 'associate'
        st = rng.choice(['DH-SHA1', 'DH-SHA256', 'no-encryption'])
        q['openid.session_type'] = st
        q['openid.assoc_type'] = {'DH-SHA1': 'HMAC-SHA1', 'DH-SHA256': 'HMAC-SHA256'}.get(st) or rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
        if st != 'no-encryption':
            q['openid.dh_consumer_public'] = b64(pow(2, rng.randrange(2, 10 ** 40), DEFAULT_P))
            if rng.random() < .4:
                q['openid.dh_modulus'] = b64(DEFAULT_P)
                q['openid.dh_gen'] = b64(2)
        elif not v2 and rng.random() < .5:
            del q['openid.session_type']
    return kind, v2, q


HOSTILE = ['', ' ', '\n', 'x\ny:z', '\r\nLocation: http://evil/', '\x00', '\u00e9', '\U0001f600', '%', '%s', '%(x)s', '{}', '{0}', 'http://[', 'http://[::1]:x/', 'http://a:99999/',
           '=', '====', 'AA==', 'A', '-1', '0', 'None', '//', 'javascript:alert(1)', 'http://rp.example.com/#f', 'http://*.example.com/', 'http://*/', '*', 'http:///', 'ftp://x/',
           'a' * 300, 'http://rp.example.com/' + 'a' * 2500, 'http://rp.example.com/\u00e9', 'http://r\u00e9.example.com/', 'http://rp.example.com/cb?openid.mode=id_res',
           'http://rp.example.com/\nX: y', 'http://rp..example.com/', 'http://rp.example.com:80/', 'http://\u2024/', 'http://' + 'a' * 70 + '.com/', 'http://rp.example.com/%zz', 'http://%zz/',
           'data:text/html;base64,AAAA', 'about:blank', '/relative', 'rp.example.com/x', 'http://xn--/', 'http://-/', 'https://rp.example.com/<">', 'HTTP://RP.EXAMPLE.COM/']
DHV = ['', 'AA==', 'AQ==', 'Ag==', 'Aw==', '/w==', 'gA==', 'AP8=', '!!!!', 'A', '\u00e9', '\x00', b64(DEFAULT_P), b64(DEFAULT_P - 1), b64(DEFAULT_P + 1), b64(4), b64(6), b64(8), b64(255),
       b64(2 ** 300 + 1), b64(2 ** 521 - 1), b64(2 ** 2203 - 1), base64.b64encode(b'\x00' * 10).decode(), base64.b64encode(b'\xff' * 40).decode(), 'AA= =', b64(2 ** 127 - 1)]
NS = ['', OPENID2, OPENID2 + '/', 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0', 'http://specs.openid.net/auth/2.1', 'x', 'http://openid.net/signon/2.0', ' ' + OPENID2]
NAMES = ['mode', 'ns', 'identity', 'claimed_id', 'return_to', 'realm', 'trust_root', 'assoc_handle', 'sig', 'signed', 'session_type', 'assoc_type', 'dh_modulus', 'dh_gen',
         'dh_consumer_public', 'invalidate_handle', 'error', 'op_endpoint', 'response_nonce', 'contact', 'reference', 'user_setup_url']


def damage(rng, q):
    what = rng.choice(['remove', 'replace', 'replace', 'replace', 'add', 'alias', 'alias', 'odd', 'mode', 'ns', 'dh', 'plain'])
    keys = sorted(q)
    if what == 'remove' and keys:
        del q[rng.choice(keys)]
    elif what == 'replace' and keys and rng.random() < .2:
        q[rng.choice(keys)] = ''
    elif what == 'replace' and keys:
        q[rng.choice(keys)] = rng.choice(HOSTILE + [gen.text(rng, 0, 6, newline=True), gen.lit(rng)])
    elif what == 'add':
        q['openid.' + rng.choice(NAMES)] = rng.choice(HOSTILE + [gen.lit(rng)])
    elif what == 'alias':
        alias = rng.choice(['sreg', 'x', 'ax', 'ns', 'mode', 'identity', 'x.y', '', 'openid', 'sig', '\u00e9', gen.word(rng), 'a b'])
        q['openid.ns.' + alias] = rng.choice(['http://e.example.com/', 'http://openid.net/extensions/sreg/1.1', OPENID2, '', 'sreg', 'http://openid.net/signon/1.1', gen.lit(rng)])
        if rng.random() < .6:
            q['openid.%s.%s' % (alias, rng.choice(['a', 'mode', 'x.y', '']))] = gen.text(rng, 0, 3, newline=True)
        if rng.random() < .3:
            q['openid.ns.' + gen.word(rng)] = q['openid.ns.' + alias]
    elif what == 'odd':
        q[rng.choice(['openid.', 'openid', 'openid..', 'openid..a', 'openid.ns.', 'openid.ns..', 'openid.a.', 'OPENID.mode', 'openid.' + gen.text(rng, 1, 4, newline=True), '',
                      gen.text(rng, 0, 4)])] = rng.choice(HOSTILE)
    elif what == 'mode':
        q['openid.mode'] = rng.choice(['', 'id_res', 'cancel', 'error', 'associate', 'check_authentication', 'checkid_setup', 'checkid_immediate', 'CHECKID_SETUP', 'checkid_setup ',
                                       'defaultDecoder', '__class__', 'setup_needed', gen.lit(rng), gen.text(rng, 0, 4, newline=True)])
    elif what == 'ns':
        q['openid.ns'] = rng.choice(NS + [gen.lit(rng)])
    elif what == 'dh':
        q['openid.' + rng.choice(['dh_modulus', 'dh_gen', 'dh_consumer_public'])] = rng.choice(DHV)
        if rng.random() < .4:
            q['openid.dh_modulus'] = rng.choice(DHV)
            q['openid.dh_gen'] = rng.choice(DHV)
    elif what == 'plain':
        q[gen.text(rng, 0, 3)] = gen.text(rng, 0, 3, newline=True)
    return what


def http_url(s):
    return bool(re.match(r'(?i)https?://[^/?#]', s.strip('\x00\x01\x02\x03\x04\x05\x06\x07\x08\t\n\x0b\x0c\r\x0e\x0f \x1c\x1d\x1e\x1f')))


def queries(rng, ctx):
    stores = Stores()
    try:
        server = Server(stores.make(rng.choice(['memory', 'file', 'sqlite'])), 'http://op.example.com/server')
        if rng.random() < .3:
            server.negotiator.setAllowedTypes(rng.choice([[('HMAC-SHA1', 'DH-SHA1')], [('HMAC-SHA256', 'DH-SHA256')], [('HMAC-SHA1', 'no-encryption')]]))
        for _ in range(15):
            one(rng, ctx, server)
    finally:
        stores.close()


def one(rng, ctx, server):
    kind, v2, q = base(rng, server)
    damages = []
    if kind == 'junk':
        for _ in range(rng.randint(0, 3)):
            damages.append(damage(rng, q))
    else:
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            damages.append(damage(rng, q))
    ctx.event('queries')
    given = dict(q)
    try:
        request = server.decodeRequest(q)
    except ProtocolError as e:
        require(q == given, 'decoding changed the arguments', before=given, after=q)
        require(damages or kind == 'junk', 'a valid request was refused: %s' % e, query=q)
        ctx.event('errors')
        out = report(ctx, server, e, given)
        ctx.state(kind, v2, tuple(sorted(set(damages))), 'error', type(e).__name__, out)
        return
    require(q == given, 'decoding changed the arguments', before=given, after=q)
    if request is None:
        require(not any(k.startswith('openid.') for k in given), 'protocol arguments were ignored', query=given)
        ctx.event('none')
        return
    ctx.event('requests')
    attributes(request, given)
    try:
        out = handle(rng, ctx, server, request)
    except ProtocolError as e:
        out = report(ctx, server, e, given)
    ctx.event('handled')
    ctx.state(kind, v2, tuple(sorted(set(damages))), type(request).__name__, out)


def attributes(request, q):
    """The request says what the arguments say."""
    mode = q.get('openid.mode')
    get = q.get
    v1 = get('openid.ns') != OPENID2
    require(get('openid.ns') in (None, OPENID2, 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0'), 'unknown protocol version accepted', query=q)
    require(request.mode == mode, 'mode changed', query=q)
    require(request.message.getArg(OPENID_NS, 'mode') == mode, 'mode of the message changed', query=q)
    if isinstance(request, CheckIDRequest):
        require(mode in ('checkid_setup', 'checkid_immediate') and request.immediate == (mode == 'checkid_immediate'), 'another request', query=q)
        for a in ('identity', 'claimed_id', 'return_to', 'assoc_handle'):
            require(getattr(request, a) == get('openid.' + a), 'attribute %s differs' % a, query=q, got=getattr(request, a))
        realm = get('openid.trust_root' if v1 else 'openid.realm') or get('openid.return_to')
        require(request.trust_root == realm, 'realm differs', query=q, got=request.trust_root)
        if v1:
            require(get('openid.identity') is not None and get('openid.return_to'), 'required field is missing', query=q)
        else:
            require((get('openid.identity') is None) == (get('openid.claimed_id') is None), 'half an identifier accepted', query=q)
            require(realm, 'neither realm nor return address', query=q)
        if get('openid.return_to') is not None:
            require(http_url(get('openid.return_to')), 'unusable return address accepted', query=q)
    elif isinstance(request, CheckAuthRequest):
        require(mode == 'check_authentication', 'another request', query=q)
        require(request.assoc_handle == get('openid.assoc_handle') is not None and get('openid.sig') is not None, 'required field is missing', query=q)
        require(request.invalidate_handle == get('openid.invalidate_handle'), 'invalidate_handle differs', query=q)
    elif isinstance(request, AssociateRequest):
        require(mode == 'associate', 'another request', query=q)
        require(request.assoc_type == get('openid.assoc_type', 'HMAC-SHA1' if v1 else None), 'association type differs', query=q, got=request.assoc_type)
        st = get('openid.session_type')
        if v1 and not st:
            st = 'no-encryption'
        require(request.session.session_type == st, 'session type differs', query=q, got=request.session.session_type)
        require(request.assoc_type in {'DH-SHA1': ['HMAC-SHA1'], 'DH-SHA256': ['HMAC-SHA256'], 'no-encryption': ['HMAC-SHA1', 'HMAC-SHA256']}[st], 'impossible pair', query=q)
    else:
        raise Violation('unknown kind of request %r' % (request,), query=q)


def handle(rng, ctx, server, request):
    if isinstance(request, CheckIDRequest):
        try:
            if rng.random() < .6:
                response = request.answer(True, identity='http://id.example.com/x') if request.idSelect() else request.answer(True)
            else:
                response = request.answer(False)
        except NoReturnToError:
            require(not request.return_to, 'return address ignored')
            return 'no-return-to'
    else:
        response = server.handleRequest(request)
    try:
        web = server.encodeResponse(response)
    except EncodingError as e:
        str(e)
        return 'unencodable'
    return well_formed(web, getattr(request, 'return_to', None))


def well_formed(web, return_to):
    if web.code == 302:
        loc = web.headers['location']
        require('\n' not in loc and '\r' not in loc, 'line break in a header', location=loc)
        require(return_to is not None and loc.startswith(return_to.split('?')[0].split('#')[0]), 'redirect elsewhere', location=loc, return_to=return_to)
        return 'redirect'
    require(web.code in (200, 400), 'odd status %r' % web.code)
    if '<form' in (web.body or ''):
        attrs, fields = read_form(web.body)
        require(return_to is not None and attrs['action'].split('?')[0] == return_to.replace('\r\n', '\n').replace('\r', '\n').split('?')[0], 'form goes elsewhere', action=attrs['action'], return_to=return_to)
        return 'form'
    for line in web.body.split('\n')[:-1]:
        require(':' in line, 'not a key-value form', body=web.body)
    require(web.body.endswith('\n'), 'not a key-value form', body=web.body)
    return 'kv%d' % web.code


def report(ctx, server, e, q):
    require(isinstance(str(e), str), 'no text')
    rt = q.get('openid.return_to')
    try:
        web = server.encodeResponse(e)
    except EncodingError as w:
        require(w.response is e, 'the encoding error lost the response')
        str(w)
        ctx.event('error_shown')
        return 'shown'
    out = well_formed(web, rt)
    if out in ('redirect', 'form'):
        require(http_url(rt), 'an error is sent to an address which is not HTTP(S)', query=q, location=web.headers.get('location'))
        ctx.event('error_redirected')
    else:
        require(web.code == 400, 'direct error with status %r' % web.code, query=q)
        d = dict(line.split(':', 1) for line in web.body.split('\n') if line)
        require(d.get('mode') == 'error' and 'error' in d, 'error without text', body=web.body)
        ctx.event('error_direct')
    return out


SCENARIOS = [('queries', queries, 9000, 45000)]
