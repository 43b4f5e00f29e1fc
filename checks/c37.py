"""C37: deprecated inputs and names mean what the current ones mean."""
import hashlib
import importlib
import os
import warnings

from openid import association, cryptutil, dh, kvform, oidutil, urinorm
from openid.association import Association, SessionNegotiator
from openid.consumer import consumer, discover
from openid.extension import Extension
from openid.extensions import ax, sreg
from openid.message import BARE_NS, OPENID1_NS, OPENID2_NS, OPENID_NS, Message, NamespaceMap
from openid.server import server as srv
from openid.server.trustroot import TrustRoot
from openid.store import filestore, memstore, nonce as oidnonce, sqlstore
from openid.yadis import accept, etxrd, services as yservices, xri, xrires

from lib import gen
from lib.core import Violation, require
from lib.vclock import clock
from lib.world import Stores
from checks.c19 import readings

PROP = 'C37'
TECHNIQUE = ('runtime monitoring: differential execution, every call is made with texts and again with some texts given as the bytes of their UTF-8 form (or by the deprecated name), '
             'on fresh twin objects, and results, errors, later behaviour and warnings are compared')
LEVEL_NOTE = 'Random arguments for a list of about sixty public calls and of the deprecated names. Sampling; the list of calls is fixed.'
RULE = 'a case is 40 calls or one history of a twin store; counted distinct: (call, which arguments were bytes, kind of outcome)'
NEED = {'calls': 10000, 'warned': 8000, 'errors': 500, 'store steps': 3000, 'names': 3000, 'hash functions': 100, 'keys': 200, 'logins': 300}
ASSUMPTIONS = ['bytes which are not UTF-8 are open', 'the wording of warnings and errors is open']
CASE_LIMIT = 120

SREG11 = 'http://openid.net/extensions/sreg/1.1'
T20, T11 = 'http://specs.openid.net/auth/2.0/signon', 'http://openid.net/signon/1.1'


class Failed(object):
    def __init__(self, e):
        self.type = type(e)
        self.text = '%s: %s' % (type(e).__name__, e)

    def __eq__(self, other):
        return isinstance(other, Failed) and self.type == other.type

    def __repr__(self):
        return self.text[:200]


def attempt(func, *args):
    """(outcome, whether a deprecation was reported)"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        try:
            out = func(*args)
        except Violation:
            raise
        except Exception as e:
            out = Failed(e)
    return out, any(issubclass(w.category, DeprecationWarning) for w in seen)


def word(rng):
    return gen.text(rng, 1, 4)


def url(rng):
    return gen.url(rng)


def clean(rng):
    return gen.text(rng, 1, 3).replace(':', '').replace('\n', '').strip() or '\u010d'


def mtype(rng):
    return '%s/%s' % (rng.choice(['text', '*', 'application', 'x']), rng.choice(['html', '*', 'xml', 'y']))


def assoc_out(a):
    return (a.handle, a.secret, a.issued, a.lifetime, a.assoc_type)


def reply_out(m):
    return m.toPostArgs() if isinstance(m, Message) else m


REALMS = ['http://example.com/', 'https://*.example.com/a', 'http://*.com/', 'http://*.co.uk/', 'ftp://x/', 'x', 'http://example.com:8080/x?y', 'http://localhost/', 'http://\u010d.example.com/']


def near(rng, realm):
    return rng.choice([realm, realm.replace('*.', 'www.') + 'x', 'http://example.com/a', 'https://a.example.com/a/b', 'http://evil.com/', realm.replace('://', '://www.')])


def checkid(v2, extra=()):
    args = {'openid.mode': 'checkid_setup', 'openid.identity': 'http://id.example.com/', 'openid.return_to': 'http://rp.example.com/cb?x=y', 'openid.assoc_handle': 'h'}
    if v2:
        args.update({'openid.ns': OPENID2_NS, 'openid.claimed_id': 'http://id.example.com/', 'openid.realm': 'http://rp.example.com/'})
    else:
        args['openid.trust_root'] = 'http://rp.example.com/'
    args.update(extra)
    return Message.fromPostArgs(args)


def endpoint(v2):
    e = discover.OpenIDServiceEndpoint()
    e.claimed_id = e.local_id = 'http://id.example.com/'
    e.server_url = 'http://op.example.com/server'
    e.type_uris = [T20 if v2 else T11]
    return e


SERVICE = ('<?xml version="1.0"?><xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" xmlns:o="http://openid.net/xmlns/1.0"><XRD><Service><Type>%s</Type>'
           '<URI>http://op.example.com/</URI><LocalID>http://local.example.com/2</LocalID><o:Delegate>http://local.example.com/%d</o:Delegate></Service></XRD></xrds:XRDS>')


class Ext(Extension):
    ns_uri = 'http://ext.example.com/'
    ns_alias = 'ext'

    def __init__(self, args):
        self.args = args

    def getExtensionArgs(self):
        return dict(self.args)


# every entry: a function (rng) -> (texts, function of texts)

def c_append(rng):
    n = rng.randint(1, 3)
    asdict = rng.random() < .5
    base = [rng.choice([url(rng), url(rng) + '?a=b', 'http://x/?', 'http://x/#f'])]
    parts = ['k%d' % i if j == 0 else word(rng) for i in range(n) for j in (0, 1)]

    def run(u, *rest):
        pairs = list(zip(rest[::2], rest[1::2]))
        # a dict sorts its keys, which are texts or bytes but not both
        return oidutil.appendArgs(u, pairs)
    return base + parts, run


def c_append_dict(rng):
    k, v = word(rng), word(rng)
    return [url(rng), k, v], lambda u, k, v: oidutil.appendArgs(u, {k: v})


def c_from64(rng):
    return [rng.choice(['', 'AAAA', 'YQ==', 'YWI=', 'Y', '-_', 'A A A A', '\u010d', oidutil.toBase64(word(rng).encode('utf-8'))])], oidutil.fromBase64


def c_seq(rng):
    texts = [rng.choice([clean(rng), word(rng), ' ' + clean(rng), 'a:b', 'a\nb']) for _ in range(2 * rng.randint(1, 3))]
    strict = rng.random() < .5
    return texts, lambda *t: kvform.seqToKV(list(zip(t[::2], t[1::2])), strict)


def c_dict(rng):
    return [clean(rng), clean(rng)], lambda k, v: kvform.dictToKV({k: v})


def kvtext(rng):
    return ''.join('%s:%s\n' % (clean(rng), clean(rng)) for _ in range(rng.randint(0, 3))) + rng.choice(['', '', 'x', 'x:y', '\n\n', ' :', 'a :b\n'])


def c_toseq(rng):
    strict = rng.random() < .5
    return [kvtext(rng)], lambda d: kvform.kvToSeq(d, strict)


def c_todict(rng):
    return [kvtext(rng)], kvform.kvToDict


def c_urinorm(rng):
    return [rng.choice([url(rng), 'http://EXAMPLE.com/%7Euser/../x', 'http://\u010d.cz/\u010d', 'ftp://x', 'http://[', 'http://x:port/'])], urinorm.urinorm


def c_iri(rng):
    return ['http://x/' + word(rng)], xri.iriToURI


def c_generate(rng):
    texts = [mtype(rng) for _ in range(rng.randint(1, 4))]
    qs = [rng.choice([.5, 1.0, .1, 2]) for _ in texts]
    return texts, lambda *t: accept.generateAcceptHeader('x/plain', *zip(t, qs))


def header(rng):
    return ', '.join('%s%s' % (mtype(rng), rng.choice(['', ';q=0.5', '; q=0.1', ';q=x'])) for _ in range(rng.randint(0, 3)))


def c_parse_accept(rng):
    return [header(rng)], accept.parseAcceptHeader


def c_match_accept(rng):
    mains = ['text', '*', 'x']
    texts = [x for _ in range(rng.randint(1, 3)) for x in (rng.choice(mains), rng.choice(['html', '*']))] + [mtype(rng) for _ in range(2)]
    qs = [rng.choice([1, .5, 0]) for _ in texts]
    return texts, lambda *t: accept.matchTypes([(a, b, q) for a, b, q in zip(t[:-2:2], t[1:-2:2], qs)], t[-2:])


def c_acceptable(rng):
    have = [mtype(rng) for _ in range(3)]
    return [header(rng)], lambda h: accept.getAcceptable(h, have)


def c_nonce(rng):
    return [rng.choice(['2005-05-15T17:11:51Zx', '2005-05-15T17:11:51Z', '', 'x', '2005-13-15T17:11:51Z', '2005-05-15T17:11:51Z' + word(rng), oidnonce.mkNonce(1000)])], oidnonce.split


def c_timestamp(rng):
    n = oidnonce.mkNonce(int(clock.now) + rng.choice([0, -100, -17999, -18001, 18001, 10 ** 6])) if rng.random() < .8 else word(rng)
    skew = rng.choice([18000, 50, 0])
    return [n], lambda t: oidnonce.checkTimestamp(t, skew, int(clock.now))


def c_realm(rng):
    r = rng.choice(REALMS)

    def run(r, u):
        t = TrustRoot.parse(r)
        return t and (t.isSane(), t.buildDiscoveryURL(), TrustRoot.checkSanity(r), t.validateURL(u))
    return [r, near(rng, r)], run


def c_check_url(rng):
    r = rng.choice(REALMS)
    return [r, near(rng, r)], TrustRoot.checkURL


def c_assoc(rng):
    secret = bytes(rng.randrange(256) for _ in range(20))
    pairs = [(clean(rng), clean(rng)) for _ in range(rng.randint(0, 3))]
    flat = [x for p in pairs for x in p]

    def run(handle, kind, *t):
        a = Association(handle, secret, 1000, 2000, kind)
        return assoc_out(a), a.sign(list(zip(t[::2], t[1::2]))), a.serialize()
    return [word(rng), rng.choice(['HMAC-SHA1', 'HMAC-SHA256', 'HMAC-SHA512', 'x'])] + flat, run


def c_assoc_expires(rng):
    secret, life, now = b'x' * 20, rng.choice([10, 0, 10 ** 6]), int(clock.now)
    return [word(rng), rng.choice(['HMAC-SHA1', 'y'])], lambda h, k: [assoc_out(a)[:2] + (a.lifetime, a.assoc_type, a.expiresIn) for a in [Association.fromExpiresIn(life, h, secret, k)]][0]


def c_deserialize(rng):
    a = Association(clean(rng), b's' * 32, 5, 6, 'HMAC-SHA256').serialize()
    a = a if isinstance(a, str) else a.decode('utf-8')
    if rng.random() < .3:
        a = rng.choice([a[:-3], a.replace('version:2', 'version:1'), '', a + 'x:y\n', a.replace('issued:5', 'issued:x')])
    return [a], lambda s: assoc_out(Association.deserialize(s))


def c_negotiator(rng):
    pairs = [(rng.choice(['HMAC-SHA1', 'HMAC-SHA1', 'HMAC-SHA256', 'x']), rng.choice(['DH-SHA1', 'no-encryption', 'DH-SHA256', 'DH-SHA1'])) for _ in range(rng.randint(1, 3))]
    flat = [x for p in pairs for x in p]

    def run(*t):
        n = SessionNegotiator(list(zip(t[::2], t[1::2])))
        return n.getAllowedType(), [n.isAllowed(a, s) for a in ('HMAC-SHA1', 'HMAC-SHA256') for s in ('DH-SHA1', 'DH-SHA256', 'no-encryption')], list(n.allowed_types)
    return flat, run


def c_checkauth(rng):
    v2 = rng.random() < .5
    msg = Message(OPENID2_NS if v2 else OPENID1_NS)

    def run(h, i):
        s = srv.Signatory(memstore.MemoryStore())
        own = s.createAssociation(False).handle
        r = srv.CheckAuthRequest(h, msg, i if not known else own.encode('utf-8') if isinstance(i, bytes) else own)
        out = reply_out(r.answer(s).fields)
        require(known or out.get('openid.invalidate_handle') == i_text, 'the handle to be invalidated differs', got=out, handle=i_text)
        return r.assoc_handle, r.invalidate_handle == (own if known else i_text), out
    h, i_text = word(rng), word(rng)
    i = i_text
    known = rng.random() < .5
    return [h, i], run


def c_answer(rng):
    v2 = rng.random() < .6
    select = v2 and rng.random() < .5
    extra = {'openid.identity': srv.IDENTIFIER_SELECT if hasattr(srv, 'IDENTIFIER_SELECT') else 'http://specs.openid.net/auth/2.0/identifier_select'} if select else {}
    if select:
        extra['openid.claimed_id'] = extra['openid.identity']
    allow = rng.random() < .8
    immediate = rng.random() < .3

    def run(op, server_url, identity, claimed):
        r = srv.CheckIDRequest.fromMessage(checkid(v2, extra), op)
        r.immediate = immediate
        kw = {'claimed_id': claimed} if v2 and use_claimed else {}
        fields = r.answer(allow, server_url if use_url else None, identity, **kw).fields.toPostArgs()
        fields.pop('openid.response_nonce', None)
        return fields, r.op_endpoint
    use_url, use_claimed = rng.random() < .5, rng.random() < .5
    ident = rng.choice(['http://id.example.com/', 'http://id.example.com/', 'http://other.example.com/\u010d'])
    return ['http://op.example.com/', 'http://op.example.com/server', ident, rng.choice([ident, 'http://claimed.example.com/'])], run


def c_request_urls(rng):
    v2, imm = rng.random() < .5, rng.random() < .3

    def run(u):
        r = srv.CheckIDRequest.fromMessage(checkid(v2), 'http://op.example.com/')
        return r.encodeToURL(u)
    return [url(rng)], run


def c_signatory(rng):
    dumb = rng.random() < .5
    kind = rng.choice(['HMAC-SHA1', 'HMAC-SHA256', 'x'])
    known = rng.random() < .8

    def run(kind, handle):
        store = memstore.MemoryStore()
        s = srv.Signatory(store)
        try:
            a = s.createAssociation(dumb, kind)
            out = [a.assoc_type, len(a.secret), a.handle.startswith('{%s}' % a.assoc_type)]
        except Exception as e:
            out = [Failed(e)]
        a = s.createAssociation(dumb, 'HMAC-SHA1')
        m = a.signMessage(Message.fromPostArgs({'openid.ns': OPENID2_NS, 'openid.mode': 'id_res'}))
        if known:
            handle = a.handle.encode('utf-8') if isinstance(handle, bytes) else a.handle
        got = s.getAssociation(handle, dumb)
        out += [got and (got.handle == a.handle, got.secret == a.secret), s.verify(handle, m)]
        s.invalidate(handle, dumb)
        return out + [s.getAssociation(handle, dumb) is None, s.getAssociation(a.handle, dumb) is None]
    return [kind, word(rng)], run


def c_message(rng):
    v2 = rng.random() < .6
    keys = ['openid.mode', 'openid.ns.e', 'openid.e.k', 'openid.return_to', 'openid.x']
    texts = [word(rng), 'http://e.example.com/' + gen.word(rng), word(rng), url(rng), word(rng)]

    def run(*t):
        args = dict(zip(keys, t))
        if v2:
            args['openid.ns'] = OPENID2_NS
        m = Message.fromPostArgs(args)
        model = {(OPENID2_NS if v2 else OPENID1_NS, k[7:]): v for k, v in zip(keys, texts) if k in ('openid.mode', 'openid.return_to', 'openid.x')}
        model[texts[1], 'k'] = texts[2]
        readings(m, OPENID2_NS if v2 else OPENID1_NS, model, 'binary values')
        return m.toPostArgs(), m.toKVForm() if not any('\n' in x for x in texts) else None
    return texts, run


def c_openid_args(rng):
    texts = [word(rng), word(rng)]
    return texts, lambda a, b: Message.fromOpenIDArgs({'ns': OPENID2_NS, 'mode': a, 'x.y': b}).toPostArgs()


def c_getarg(rng):
    m = Message.fromPostArgs({'openid.ns': OPENID2_NS, 'openid.\u010d': 'v', 'openid.mode': 'x', 'plain': 'w', 'openid.ns.e': 'http://e/', 'openid.e.\u010d': 'q'})
    ns = rng.choice([OPENID_NS, BARE_NS, OPENID2_NS, 'http://e/', 'http://absent/'])
    return [rng.choice(['mode', '\u010d', 'plain', 'absent'])], lambda k: m.getArg(ns, k, 'nothing')


def c_markup(rng):
    m = Message.fromPostArgs({'openid.mode': word(rng), 'x': 'y'})
    return [url(rng)], m.toFormMarkup


def c_authrequest(rng):
    v2 = rng.random() < .6
    imm = rng.random() < .3

    def run(ns, key, value, realm, ret):
        r = consumer.AuthRequest(endpoint(v2), None)
        r.addExtensionArg(ns, key, value)
        r.return_to_args['own'] = 'x'
        return r.getMessage(realm, ret, imm).toPostArgs(), r.redirectURL(realm, ret, imm)
    return ['http://e.example.com/' + gen.word(rng), gen.word(rng), word(rng), 'http://rp.example.com/', 'http://rp.example.com/cb?\u010d=' + gen.word(rng)], run


def c_sreg_args(rng):
    pool = list(sreg.data_fields) + ['bogus', '']
    texts = [','.join(rng.choice(pool) for _ in range(rng.randint(1, 3))) for _ in range(2)] + [url(rng)]
    strict = rng.random() < .5

    def run(a, b, p):
        r = sreg.SRegRequest()
        r.parseExtensionArgs({'required': a, 'optional': b, 'policy_url': p}, strict)
        return r.required, r.optional, r.policy_url
    return texts, run


def c_sreg_fields(rng):
    pool = list(sreg.data_fields)[:4] + ['bogus']
    texts = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
    flags = [rng.random() < .5 for _ in texts]
    strict, many = rng.random() < .5, rng.random() < .5

    def run(*t):
        r = sreg.SRegRequest()
        if many:
            r.requestFields(list(t), flags[0], strict)
        else:
            for f, q in zip(t, flags):
                r.requestField(f, q, strict)
        return r.required, r.optional
    return texts, run


def c_ax_types(rng):
    m = NamespaceMap()
    for a in ('a', 'b', '\u010d'):
        m.addAlias('http://t/' + a, a)
    return [','.join(rng.choice(['a', 'b', '\u010d', 'a', 'x']) for _ in range(rng.randint(1, 4)))], lambda s: ax.toTypeURIs(m, s)


def c_ax_single(rng):
    n = rng.choice([0, 1, 1, 2])

    def run(t):
        r = ax.FetchResponse()
        r.setValues('http://t/\u010d', ['v%d' % i for i in range(n)])
        return r.getSingle(t, 'default')
    return [rng.choice(['http://t/\u010d', 'http://t/x'])], run


def c_ax_update(rng):
    return [url(rng)], lambda u: [(r.update_url, r.getExtensionArgs()) for r in [ax.FetchResponse(update_url=u)]][0]


def c_filter_match(rng):
    e = yservices_endpoint([T20, 'http://t/\u010d', 'http://u/'])
    return [rng.choice([T20, T11, 'http://t/\u010d', 'http://u/']) for _ in range(rng.randint(1, 4))], lambda *t: e.matchTypes(t)


def yservices_endpoint(types):
    from openid.yadis.filters import BasicServiceEndpoint
    return BasicServiceEndpoint('http://y/', list(types), 'http://op/', None)


def c_local_id(rng):
    el = next(iter(etxrd.iterServices(etxrd.parseXRDS((SERVICE % (T20, rng.choice([1, 2]))).encode('utf-8')))))
    return [rng.choice([T20, T11, 'http://openid.net/signon/1.0', 'http://x/']) for _ in range(rng.randint(1, 3))], lambda *t: discover.findOPLocalIdentifier(el, list(t))


def c_xri(rng):
    p = xrires.ProxyResolver('http://proxy.example.com/')
    return [rng.choice([T20, 'http://t/\u010d', 'xri://+i-service*(+x)*($v*1.0)'])], lambda t: p.queryURL('=x*y/' + 'a', t)


def c_protocol_error(rng):
    m = Message.fromPostArgs(rng.choice([{'openid.mode': 'x'}, {'openid.ns': OPENID2_NS, 'openid.mode': 'x', 'openid.return_to': 'http://rp/'}]))

    def run(t):
        e = srv.ProtocolError(m, t)
        return str(e), e.args, e.toMessage().toPostArgs(), e.hasReturnTo()
    return [word(rng)], run


def c_server(rng):
    def run(u):
        s = srv.Server(memstore.MemoryStore(), u)
        r = s.decodeRequest(checkid(True).toPostArgs())
        out = r.answer(True).fields.toPostArgs()
        out.pop('openid.response_nonce')
        return s.op_endpoint, out
    return [url(rng)], run


def c_tables(rng):
    def run(a, n):
        import sqlite3
        s = sqlstore.SQLiteStore(sqlite3.connect(':memory:'), a, n)
        s.createTables()
        s.storeAssociation('http://x/', Association('h', b'k' * 20, int(clock.now), 1000, 'HMAC-SHA1'))
        s.useNonce('http://x/', int(clock.now), 'salt')
        tables = sorted(r[0] for r in s.conn.execute("select name from sqlite_master where type='table'"))
        counts = [s.conn.execute('select count(*) from ' + t).fetchone()[0] for t in tables]
        s.conn.close()
        return tables, counts
    return ['assoc_%s' % gen.word(rng, 1, 4).lower(), 'nonces_%s' % gen.word(rng, 1, 4).lower()], run


CALLS = sorted((k, v) for k, v in globals().items() if k.startswith('c_'))
# calls that do not read some of their arguments in some cases
QUIET = {'c_negotiator', 'c_realm', 'c_check_url', 'c_ax_types', 'c_sreg_args', 'c_answer', 'c_checkauth', 'c_local_id', 'c_authrequest'}


def call(rng, ctx):
    for _ in range(40):
        name, make = rng.choice(CALLS)
        texts, run = make(rng)
        want, _ = attempt(run, *texts)
        which = [rng.random() < .6 for _ in texts]
        which[rng.randrange(len(which))] = True
        given = [t.encode('utf-8') if b else t for t, b in zip(texts, which)]
        got, warned = attempt(run, *given)
        require(got == want, 'binary input means something else than text', call=name[2:], given=repr(given), got=repr(got), expected=repr(want))
        require(type(got) is type(want) and repr(got) == repr(want) or isinstance(got, Failed), 'binary input gives another kind of result', call=name[2:], given=repr(given), got=repr(got),
                expected=repr(want))
        ctx.event('calls')
        if isinstance(got, Failed):
            ctx.event('errors')
        elif name not in QUIET:
            require(warned, 'binary input is accepted without a warning', call=name[2:], given=repr(given))
            ctx.event('warned')
        ctx.state(name, tuple(which[:5]), type(got).__name__ if not isinstance(got, Failed) else got.type.__name__)


def stores(rng, ctx):
    """Twin stores, one spoken to with texts and one with a mixture."""
    kind = rng.choice(['file', 'sqlite', 'file', 'sqlite'])
    holder = Stores()
    try:
        a, b = holder.make(kind), holder.make(kind)
        urls = ['http://op.example.com/', 'https://\u010d.example.com/x', 'http://op.example.com/a?b=c']
        handles = ['h', '\u010d', '{HMAC-SHA1}{1}{x=}', 'a/b']
        salts = ['', 'x', 'ab1']
        for n in range(rng.randint(5, 40)):
            u, h = rng.choice(urls), rng.choice(handles)
            op = rng.choice(['store', 'store', 'get', 'get', 'get any', 'remove', 'nonce', 'nonce', 'clock'])
            if op == 'clock':
                clock.now += rng.choice([1, 100, 5000])
                continue
            mix = [(lambda s: s.encode('utf-8')) if rng.random() < .6 else (lambda s: s) for _ in range(3)]
            if op == 'store':
                assoc = Association(h, bytes(rng.randrange(256) for _ in range(20)), int(clock.now), rng.choice([50, 1000, 10 ** 6]), 'HMAC-SHA1')
                calls = [lambda s, m: s.storeAssociation(m[0](u), assoc)]
            elif op == 'get':
                calls = [lambda s, m: s.getAssociation(m[0](u), m[1](h))]
            elif op == 'get any':
                calls = [lambda s, m: s.getAssociation(m[0](u))]
            elif op == 'remove':
                calls = [lambda s, m: s.removeAssociation(m[0](u), m[1](h))]
            else:
                t, salt = int(clock.now) + rng.choice([0, 0, -50, 18001, -18001, -18000]), rng.choice(salts)
                calls = [lambda s, m: s.useNonce(m[0](u), t, salt)]
            plain = [lambda s: s] * 3
            want, _ = attempt(calls[0], a, plain)
            got, warned = attempt(calls[0], b, mix)
            key = [assoc_out(x) if isinstance(x, Association) else x for x in (want, got)]
            require(key[0] == key[1] and type(want) is type(got), 'a store tells binary addresses or handles from texts', operation=op, kind=kind, step=n, url=u, handle=h, got=repr(key[1]), expected=repr(key[0]))
            used = {'get': 1, 'remove': 2, 'get any': 1, 'nonce': 1}.get(op, 0)
            require(warned or isinstance(got, Failed) or not any(isinstance(f('x'), bytes) for f in mix[:used]), 'binary input is accepted without a warning', call=op, kind=kind)
            ctx.event('store steps')
            ctx.state('store', kind, op, type(got).__name__, got is None, warned)
        if kind == 'file':
            names = [sorted(os.path.relpath(os.path.join(base, f), d) for base, _, files in os.walk(d) for f in files) for d in holder.dirs]
            require(names[0] == names[1], 'twin directories hold other files', names=names)
    finally:
        holder.close()


def old_names(rng, ctx):
    """Deprecated names and the current ones."""
    for _ in range(20):
        n = rng.choice([0, 1, 127, 128, 255, 256, rng.getrandbits(64), rng.getrandbits(1024), rng.getrandbits(rng.randint(1, 300))])
        out, warned = attempt(cryptutil.longToBinary, n)
        require(warned and out == cryptutil.int_to_bytes(n), 'numbers are written otherwise by the deprecated name', number=n, got=out)
        out, warned = attempt(cryptutil.binaryToLong, out)
        require(warned and out == n, 'numbers are read otherwise by the deprecated name', number=n, got=out)
        ns = rng.choice([OPENID1_NS, OPENID2_NS, 'http://openid.net/signon/1.1', 'bogus', ''])
        implicit = rng.random() < .5
        m = Message()
        one, warned = attempt(m.setOpenIDNamespace, ns, implicit)
        two, _ = attempt(Message, ns, implicit)
        if isinstance(two, Failed):
            require(one == two, 'setting a namespace and giving it differ', ns=ns, one=repr(one), two=repr(two))
        elif ns:
            require(warned and one is None and m == two and m.toPostArgs() == two.toPostArgs(), 'setting a namespace and giving it differ', ns=ns)
        args = {gen.word(rng): word(rng) for _ in range(2)}
        got, warned = attempt(Ext(args).toMessage)
        require(warned and got == Ext(args).toMessage(Message(OPENID2_NS)), 'an extension without a message gives another one', args=args, got=repr(got))
        # the name of the registration extension stands for its namespace
        v2 = rng.random() < .5
        msgs = [Message(OPENID2_NS if v2 else OPENID1_NS) for _ in range(2)]
        key, value = rng.choice(['nickname', 'email', 'x']), word(rng)
        _, warned = attempt(msgs[0].setArg, 'sreg', key, value)
        msgs[1].setArg('http://openid.net/sreg/1.0', key, value)
        if warned:
            require(msgs[0] == msgs[1] and attempt(msgs[0].getArg, 'sreg', key)[0] == value, 'the name of the registration extension means something else', got=msgs[0].toPostArgs(), expected=msgs[1].toPostArgs())
        r = srv.CheckIDRequest.fromMessage(checkid(v2), 'http://op.example.com/')
        got, warned = attempt(lambda: r.namespace)
        require(warned and got == r.message.getOpenIDNamespace() == (OPENID2_NS if v2 else OPENID1_NS), 'the namespace of a request differs', got=got)
        ctx.event('names')
        ctx.state('names', n.bit_length() % 8, ns, implicit, v2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = importlib.import_module('openid.sreg')
    for name in ('SRegRequest', 'SRegResponse', 'data_fields', 'ns_uri', 'ns_uri_1_0', 'ns_uri_1_1', 'supportsSReg'):
        require(getattr(old, name) is getattr(sreg, name), 'a name in the moved module is another thing', name=name)


def exchange(rng, ctx):
    """The key exchange by the deprecated names."""
    one, two = dh.DiffieHellman.fromDefaults(), dh.DiffieHellman.fromDefaults()
    for x in (one, two):
        got, warned = attempt(lambda: (x.modulus, x.generator, x.public))
        require(warned and [cryptutil.longToBase64(v) for v in got] == list(x.parameters) + [x.public_key], 'deprecated names give other numbers', got=got)
    s1, w1 = attempt(one.getSharedSecret, two.public_key)
    s2, w2 = attempt(two.getSharedSecret, one.public_key)
    require(w1 and w2 and s1 == s2 and isinstance(s1, int), 'the two sides share no secret by the deprecated name', one=repr(s1), two=repr(s2))
    algorithm = rng.choice(['sha1', 'sha256'])
    size = {'sha1': 20, 'sha256': 32}[algorithm]
    secret = bytes(rng.randrange(256) for _ in range(size))

    def hash_func(data):
        return hashlib.new(algorithm, data).digest()
    public = cryptutil.base64ToLong(two.public_key)
    got, warned = attempt(one.xorSecret, public, secret, hash_func)
    number = s1.to_bytes(s1.bit_length() // 8 + 1, 'big')
    want = bytes(x ^ y for x, y in zip(secret, hash_func(number)))
    require(warned and got == want, 'the masked secret differs by the deprecated name', got=got, expected=want)
    ctx.event('keys')

    # sessions with a hash function of their own, as subclasses used to give it
    cls, scls = {'sha1': (consumer.DiffieHellmanSHA1ConsumerSession, srv.DiffieHellmanSHA1ServerSession),
                 'sha256': (consumer.DiffieHellmanSHA256ConsumerSession, srv.DiffieHellmanSHA256ServerSession)}[algorithm]

    class Mine(cls):
        hash_func = staticmethod(lambda data: hashlib.new(algorithm, data).digest())

    class Theirs(scls):
        hash_func = staticmethod(lambda data: hashlib.new(algorithm, data).digest())
    client = rng.choice([cls, Mine])()
    server_class = rng.choice([scls, Theirs])
    request = Message.fromOpenIDArgs(dict(client.getRequest(), ns=OPENID2_NS))
    session, _ = attempt(server_class.fromMessage, request)
    require(isinstance(session, server_class), 'the session is refused', error=repr(session))
    answer, warned = attempt(session.answer, secret)
    require(isinstance(answer, dict) and warned == (server_class is Theirs), 'an answer fails, or a warning is missing or too many', error=repr(answer), warned=warned)
    got, warned = attempt(client.extractSecret, Message.fromOpenIDArgs(dict(answer, ns=OPENID2_NS)))
    require(got == secret and warned == isinstance(client, Mine), 'another secret arrives', got=repr(got), sent=secret, client=type(client).__name__, server=server_class.__name__)
    number = cryptutil.base64ToLong(client.dh.public_key)
    old, warned = attempt(server_class, dh.DiffieHellman.fromDefaults(), number)
    require(warned and old.consumer_public_key == client.dh.public_key, 'a key given as a number is another key', got=repr(old))
    got, warned = attempt(lambda: old.consumer_pubkey)
    require(warned and got == number, 'the key read as a number differs', got=got)
    ctx.event('hash functions')
    ctx.state('exchange', algorithm, type(client).__name__, server_class.__name__)


class LoudSignatory(srv.Signatory):
    pass


class LoudEncoder(srv.SigningEncoder):
    pass


class LoudDecoder(srv.Decoder):
    pass


def classes(rng, ctx):
    """Parts of a server given by attributes of a subclass, or to its constructor."""
    parts = {k: v for k, v in [('signatoryClass', LoudSignatory), ('encoderClass', LoudEncoder), ('decoderClass', LoudDecoder)] if rng.random() < .5}
    Sub = type('Sub', (srv.Server,), dict(parts))
    op = 'http://op.example.com/'
    old, warned = attempt(Sub, memstore.MemoryStore(), op)
    new, _ = attempt(lambda: srv.Server(memstore.MemoryStore(), op, **parts))
    require(warned == bool(parts), 'a warning is missing or too many', parts=sorted(parts))
    for s in (old, new):
        require(type(s.signatory) is parts.get('signatoryClass', srv.Signatory) and type(s.encoder) is parts.get('encoderClass', srv.SigningEncoder)
                and type(s.decoder) is parts.get('decoderClass', srv.Decoder), 'a part of the server is not the one given', parts=sorted(parts))
        v2 = rng.random() < .5
        r = s.decodeRequest(checkid(v2).toPostArgs())
        web = s.encodeResponse(r.answer(True, op if not v2 else None))
        require(web.code == 302 and 'openid.sig=' in web.headers['location'], 'the server does not answer', headers=web.headers)
        ctx.event('logins')
    # given to the constructor, it wins over the attribute
    both, warned = attempt(lambda: Sub(memstore.MemoryStore(), op, srv.Signatory, srv.SigningEncoder, srv.Decoder))
    require((type(both.signatory), type(both.encoder), type(both.decoder)) == (srv.Signatory, srv.SigningEncoder, srv.Decoder) and not warned, 'the constructor does not decide', parts=sorted(parts))
    ctx.state('classes', tuple(sorted(parts)))


SCENARIOS = [('call', call, 1600, 30000), ('stores', stores, 700, 8000), ('old-names', old_names, 300, 3000), ('exchange', exchange, 300, 3000), ('classes', classes, 300, 3000)]
