"""C39: what a call does depends on its arguments, not on what else runs or ran."""
import base64
import copy
import hmac
import os
import pickle
import random
import re

from openid import fetchers, kvform, oidutil
from openid.association import Association
from openid.consumer import consumer, discover
from openid.extensions import ax, pape, sreg
from openid.extensions.draft import pape2
from openid.message import OPENID1_NS, OPENID2_NS, Message, NamespaceMap
from openid.server import server as srv
from openid.server.trustroot import returnToMatches, verifyReturnTo
from openid.store.memstore import MemoryStore
from openid.store.nonce import mkNonce
from openid.urinorm import urinorm
from openid.yadis import accept, etxrd, filters

from lib import gen, sched
from lib.core import Violation, require
from lib.vclock import clock
from lib.world import html_page, xrds
from checks import c37
from checks.c37 import Failed

PROP = 'C39'
TECHNIQUE = ('runtime monitoring: differential execution, the same calls are made in freshly forked processes one after another, in another order, again, and in threads under seeded '
             'interleavings, and their results are compared; arguments are compared before and after')
LEVEL_NOTE = ('About ninety public calls, from text functions to discovery and whole completions over a simulated network, with random arguments; orders and schedules are sampled.')
RULE = 'a case is one set of calls in several orders or one interleaving of threads; counted distinct: (calls, order of hand-overs or order of calls)'
NEED = {'orders': 150, 'repeated': 4000, 'interleavings': 150, 'switches': 3000, 'concurrent calls': 1000, 'arguments kept': 3000, 'kinds of calls': 70}
ASSUMPTIONS = ['the application replaces neither the fetcher nor the negotiators nor the logging while the calls run', 'objects made by one call are not used by another']
CASE_LIMIT = 120

T20, T11 = c37.T20, c37.T11
OP = 'http://op.example.com/server'
SECRET = b'k' * 20


class Pages(fetchers.HTTPFetcher):
    """A network which answers every address with a document that depends on nothing but the address and the body."""

    def fetch(self, url, body=None, headers=None):
        if body is not None:
            ok = b'sig=' in body.replace(b'openid.', b'')
            return fetchers.HTTPResponse(url, 200, {'content-type': 'text/plain'}, b'ns:http://specs.openid.net/auth/2.0\nis_valid:%s\n' % (b'true' if ok else b'false'))
        r = random.Random('page' + url.split('#')[0])
        if 'missing' in url:
            return fetchers.HTTPResponse(url, 404, {}, b'')
        if 'realm' in url:
            return fetchers.HTTPResponse(url, 200, {'content-type': 'application/xrds+xml'}, xrds(
                [dict(types=['http://specs.openid.net/auth/2.0/return_to'], uris=[('http://realm.example.com/cb', None)], prio=1),
                 dict(types=['http://specs.openid.net/auth/2.0/return_to'], uris=[('http://realm.example.com/%s' % gen.word(r), None)], prio=2)]).encode('utf-8'))
        op = 'http://op%d.example.com/' % r.randrange(1000)
        local = 'http://local%d.example.com/' % r.randrange(1000)
        if r.random() < .5:
            services = [dict(types=[r.choice([T20, T11, 'http://other/'])], uris=[(op + str(i), None)], local_id=local, prio=i) for i in range(r.randrange(1, 4))]
            return fetchers.HTTPResponse(url, 200, {'content-type': 'application/xrds+xml'}, xrds(services).encode('utf-8'))
        links = [('openid2.provider', op), ('openid2.local_id', local)] if r.random() < .6 else []
        if r.random() < .6:
            links += [('openid.server', op + '1'), ('openid.delegate', local + '1')]
        return fetchers.HTTPResponse(url + ('/final' if r.random() < .2 else ''), 200, {'content-type': 'text/html'}, html_page(links, body=gen.word(r)).encode('utf-8'))


def shown(e):
    return e.claimed_id, e.local_id, e.server_url, list(e.type_uris), e.display_identifier, e.used_yadis, e.canonicalID


# every entry: a function (rng) -> (arguments, function of the arguments)

def d_discover(rng):
    url = rng.choice(['http://u%d.example.com/' % rng.randrange(50), 'http://missing.example.com/', gen.url(rng)])

    def run(u):
        claimed, found = discover.discover(u)
        return claimed, [shown(e) for e in found]
    return [url], run


def d_return(rng):
    return [rng.choice(['http://realm.example.com/', 'http://*.realm.example.com/', 'http://missing.example.com/', 'x']),
            rng.choice(['http://realm.example.com/cb', 'http://realm.example.com/cb?x=y', 'http://evil.example.com/'])], verifyReturnTo


def answer(rng, v2, shared):
    claimed = 'http://alice.example.com/%s' % gen.word(rng)
    rt = 'http://rp.example.com/back?own=%s' % gen.word(rng)
    q = {'openid.mode': 'id_res', 'openid.identity': claimed, 'openid.return_to': rt, 'openid.assoc_handle': 'h' if shared else 'private', 'own': rt.split('=')[1]}
    if v2:
        q.update({'openid.ns': OPENID2_NS, 'openid.claimed_id': claimed, 'openid.op_endpoint': OP, 'openid.response_nonce': mkNonce(int(clock.now)) + gen.word(rng)})
    if rng.random() < .5:
        q.update({'openid.ns.sreg': sreg.ns_uri, 'openid.sreg.nickname': gen.word(rng), 'openid.sreg.email': gen.word(rng)})
    names = sorted(k[7:] for k in q if k.startswith('openid.') and k != 'openid.ns')
    if rng.random() < .2:
        names.remove(rng.choice(names))
    q['openid.signed'] = ','.join(names)
    q['openid.sig'] = base64.b64encode(hmac.new(SECRET, ''.join('%s:%s\n' % (n, q['openid.' + n]) for n in names).encode('utf-8'), 'sha1').digest()).decode()
    if rng.random() < .2:
        k = rng.choice(sorted(q))
        q[k] += 'x'
    return claimed, rt, q


def d_complete(rng):
    v2, shared, keep = rng.random() < .6, rng.random() < .6, rng.random() < .7
    claimed, rt, q = answer(rng, v2, shared)

    def run(q, rt):
        store = MemoryStore()
        if shared:
            store.storeAssociation(OP, Association('h', SECRET, int(clock.now), 1000, 'HMAC-SHA1'))
        e = discover.OpenIDServiceEndpoint()
        e.claimed_id = e.local_id = claimed
        e.server_url = OP
        e.type_uris = [T20 if v2 else T11]
        session = {}
        c = consumer.Consumer(session, store)
        if keep:
            c.beginWithoutDiscovery(e)
        r = c.complete(q, rt)
        out = [r.status, r.getDisplayIdentifier(), getattr(r, 'message', None) and type(r.message).__name__, sorted(session)]
        if r.status == 'success':
            s = sreg.SRegResponse.fromSuccessResponse(r)
            out += [r.identity_url, s and sorted(s.items()), sorted(r.signed_fields), r.getReturnTo()]
        return out
    return [q, rt], run


def d_begin(rng):
    v2 = rng.random() < .6
    args = {gen.word(rng): gen.word(rng) for _ in range(rng.randrange(4))}

    def run(args, realm, rt):
        e = c37.endpoint(v2)
        session = {}
        r = consumer.Consumer(session, None).beginWithoutDiscovery(e)
        for k in sorted(args):
            r.addExtensionArg('http://ext.example.com/', k, args[k])
        r.return_to_args['mine'] = 'x'
        out = r.getMessage(realm, rt).toPostArgs()
        again = r.getMessage(realm, rt).toPostArgs()
        return [re.sub('janrain_nonce=[^&]*', '', repr(sorted(x.items()))) for x in (out, again)]
    return [args, 'http://rp.example.com/', 'http://rp.example.com/back'], run


def d_markup(rng):
    fields = {'openid.mode': 'x', gen.word(rng): gen.text(rng), 'z': gen.text(rng)}
    attrs = {'id': gen.word(rng), 'class': gen.word(rng)}
    return [fields, attrs, gen.url(rng)], lambda f, a, u: Message.fromPostArgs(f).toFormMarkup(u, a, gen_submit)


gen_submit = 'Go'


def d_message(rng):
    v2 = rng.random() < .6
    args = {'openid.mode': gen.text(rng), 'openid.ns.e': 'http://e/' + gen.word(rng), 'openid.e.k': gen.text(rng), 'plain': gen.text(rng)}
    if v2:
        args['openid.ns'] = OPENID2_NS

    def run(args):
        m = Message.fromPostArgs(args)
        n = m.copy()
        n.setArg('http://new/', 'k', 'v')
        return m.toPostArgs(), n.toPostArgs(), m.toURL('http://x/?a=b'), m.getArgs(args['openid.ns.e'])
    return [args], run


def d_openid_args(rng):
    return [{'mode': gen.word(rng), 'ns': OPENID2_NS, 'ns.a': 'http://a/', 'a.b': gen.text(rng)}], lambda d: Message.fromOpenIDArgs(d).toArgs()


def d_update(rng):
    extra = {gen.word(rng): gen.text(rng) for _ in range(3)}

    def run(extra):
        m = Message(OPENID2_NS)
        m.updateArgs('http://e/', extra)
        m.updateArgs(OPENID2_NS, extra)
        return m.toPostArgs()
    return [extra], run


def d_append(rng):
    pairs = [(gen.word(rng), gen.text(rng)) for _ in range(rng.randrange(4))]
    return [gen.url(rng), rng.choice([pairs, dict(pairs)])], oidutil.appendArgs


def d_kv(rng):
    return [{gen.word(rng): gen.word(rng) for _ in range(rng.randrange(5))}], kvform.dictToKV


def d_seq(rng):
    return [[(gen.word(rng), gen.word(rng)) for _ in range(rng.randrange(5))]], kvform.seqToKV


def d_sign(rng):
    pairs = [(gen.word(rng), gen.word(rng)) for _ in range(rng.randrange(5))]
    return [pairs], lambda p: Association('h', SECRET, 1, 2, 'HMAC-SHA256').sign(p)


def d_sign_message(rng):
    fields = {'openid.ns': OPENID2_NS, 'openid.mode': 'id_res', 'openid.x': gen.word(rng)}

    def run(fields):
        m = Message.fromPostArgs(fields)
        a = Association('h', SECRET, 1, 2, 'HMAC-SHA1')
        s = a.signMessage(m)
        return m.toPostArgs(), s.toPostArgs(), a.checkMessageSignature(s)
    return [fields], run


def d_accept(rng):
    kinds = ['text/html', 'text/*', '*/*', 'application/xrds+xml', 'x/y']
    have = rng.sample(kinds[:1] + kinds[3:], 3)
    return [', '.join('%s;q=0.%d' % (rng.choice(kinds), rng.randrange(1, 9)) for _ in range(3)), have], accept.getAcceptable


def d_match(rng):
    return [[(rng.choice(['text', '*']), rng.choice(['html', '*', 'plain']), rng.choice([.1, .5, 1])) for _ in range(3)], ['text/html', 'text/plain', 'x/y']], accept.matchTypes


def d_return_matches(rng):
    def address():
        return '%s://%s%s/%s' % (rng.choice(['http', 'http', 'https']), rng.choice(['a.example.com', 'b.example.com', '*.b.example.com']), rng.choice(['', '', '', '', ':8080']), rng.choice(['', 'x', 'x/y', 'X']))
    return [[address() for _ in range(rng.randrange(1, 4))], [address().replace('*', 'q') for _ in range(6)]], lambda allowed, us: [returnToMatches(allowed, u) for u in us]


def d_urinorm(rng):
    return ['http://%s.example.com/%s?%s' % (gen.word(rng), '/'.join(gen.word(rng) for _ in range(rng.choice([1, 3, 30]))), gen.word(rng))], urinorm


def d_sreg(rng):
    names = rng.sample(sorted(sreg.data_fields), 3)
    data = {n: gen.text(rng, 1) for n in sreg.data_fields if rng.random() < .6}

    def run(required, optional, data):
        q = sreg.SRegRequest(required, optional, 'http://policy/')
        r = sreg.SRegResponse.extractResponse(q, data)
        return q.getExtensionArgs(), sorted(r.items()), r.getExtensionArgs()
    return [names[:2], names[2:], data], run


def d_ax(rng):
    args = {'mode': 'fetch_request', 'required': 'a', 'if_available': 'b,c', 'update_url': 'http://rp.example.com/u'}
    args.update({'type.' + n: 'http://t/' + gen.word(rng) for n in 'abc'})
    args['count.a'] = rng.choice(['1', '3', 'unlimited', 'x'])

    def run(args):
        r = ax.FetchRequest()
        r.parseExtensionArgs(args)
        return r.getRequiredAttrs(), sorted(r.requested_attributes), r.getExtensionArgs(), [(i.alias, i.count, i.required) for i in r]
    return [args], run


def d_ax_response(rng):
    args = {'mode': 'fetch_response', 'type.a': 'http://t/' + gen.word(rng), 'type.b': 'http://t/b', 'value.a': gen.text(rng), 'count.b': '2', 'value.b.1': gen.text(rng), 'value.b.2': gen.text(rng)}
    if rng.random() < .2:
        del args[rng.choice(sorted(args))]

    def run(args):
        r = ax.FetchResponse()
        r.parseExtensionArgs(args)
        return r.data, r.getExtensionArgs()
    return [args], run


def d_ax_make(rng):
    values = [gen.text(rng) for _ in range(rng.randrange(3))]

    def run(values):
        q = ax.FetchRequest()
        q.add(ax.AttrInfo('http://t/a', count=3, alias='a'))
        q.add(ax.AttrInfo('http://t/b'))
        r = ax.FetchResponse(q)
        r.setValues('http://t/a', values)
        r.addValue('http://t/b', 'v')
        r.addValue('http://t/a', 'more')
        s = ax.StoreRequest()
        s.setValues('http://t/a', values)
        s.addValue('http://t/a', 'more')
        return q.getExtensionArgs(), r.getExtensionArgs(), s.getExtensionArgs()
    return [values], run


def d_pape(rng):
    policies = rng.sample([pape.AUTH_PHISHING_RESISTANT, pape.AUTH_MULTI_FACTOR, 'http://p/' + gen.word(rng)], 2)
    levels = ['http://l/' + gen.word(rng)]

    def run(policies, levels, supported):
        q = pape.Request(policies, 100, levels)
        q.addAuthLevel('http://l/x', 'mine')
        q.addPolicyURI('http://p/more')
        r = pape.Response(policies, '2005-05-15T17:11:51Z', {})
        r.setAuthLevel('http://l/x', '1')
        r.addPolicyURI('http://p/more')
        q2 = pape.Request()
        q2.parseExtensionArgs(q.getExtensionArgs(), False)
        return q.getExtensionArgs(), r.getExtensionArgs(), q2.preferred_auth_policies, q.preferredTypes(supported)
    return [policies, levels, policies + ['http://p/more']], run


def d_pape_draft(rng):
    policies = rng.sample([pape2.AUTH_PHISHING_RESISTANT, pape2.AUTH_MULTI_FACTOR, 'http://p/' + gen.word(rng)], 2)

    def run(policies, supported):
        q = pape2.Request(policies, 100)
        q.addPolicyURI('http://p/more')
        r = pape2.Response(policies, '2005-05-15T17:11:51Z', 2)
        r.addPolicyURI('http://p/more')
        q2 = pape2.Request()
        q2.parseExtensionArgs(q.getExtensionArgs())
        r2 = pape2.Response()
        r2.parseExtensionArgs(r.getExtensionArgs())
        return q.getExtensionArgs(), r.getExtensionArgs(), q2.preferred_auth_policies, r2.auth_policies, r2.nist_auth_level, q.preferredTypes(supported)
    return [policies, policies + ['http://p/more']], run


def d_pape_parse(rng):
    args = {'auth_policies': 'http://p/1 http://p/' + gen.word(rng), 'auth_time': rng.choice(['2005-05-15T17:11:51Z', 'x']), 'auth_level.ns.l': 'http://l/', 'auth_level.l': '2'}

    def run(args):
        r = pape.Response()
        r.parseExtensionArgs(args, False)
        return r.auth_policies, r.auth_time, r.auth_levels, r.getAuthLevel('http://l/')
    return [args], run


def d_decode(rng):
    query = c37.checkid(rng.random() < .6).toPostArgs()
    if rng.random() < .4:
        query = {'openid.mode': rng.choice(['associate', 'check_authentication', 'x', 'cancel']), 'openid.ns': OPENID2_NS, 'openid.session_type': rng.choice(['no-encryption', 'DH-SHA1']),
                 'openid.assoc_type': 'HMAC-SHA1', 'openid.dh_consumer_public': 'AQ==', 'openid.assoc_handle': 'h', 'openid.sig': 'c2ln', 'openid.signed': 'mode'}

    def run(query):
        s = srv.Server(MemoryStore(), OP)
        try:
            r = s.decodeRequest(query)
        except srv.ProtocolError as e:
            return str(e), e.toMessage().toPostArgs()
        if isinstance(r, srv.CheckIDRequest):
            a = r.answer(True).fields.toPostArgs()
            a.pop('openid.response_nonce', None)
            return [a, r.answer(False, OP).fields.toPostArgs(), r.encodeToURL(OP), r.trustRootValid()]
        if isinstance(r, srv.AssociateRequest):
            return [r.session.session_type, r.assoc_type, sorted(s.handleRequest(r).fields.toPostArgs())]
        return [type(r).__name__] + ([sorted(s.handleRequest(r).fields.toPostArgs().items())] if isinstance(r, srv.CheckAuthRequest) else [])
    return [query], run


def d_filter(rng):
    types = [T20, T11, 'http://t/x']
    document = xrds([dict(types=rng.sample(types, 2), uris=[('http://op/%d' % i, None)], prio=i) for i in range(3)])
    parts = [filters.TransformFilterMaker([lambda e: e if e.matchTypes([T20]) else None]), lambda e: e.uri if e.matchTypes([T11]) else None]

    def run(parts, document):
        f = filters.mkFilter(parts)
        out = []
        for s in etxrd.iterServices(etxrd.parseXRDS(document.encode('utf-8'))):
            out += [x if isinstance(x, str) else (x.uri, x.type_uris) for x in f.getServiceEndpoints('http://y/', s)]
        return out
    return [rng.sample(parts, rng.choice([1, 2])), document], run


def d_services(rng):
    document = xrds([dict(types=[T20, 'http://t/%d' % i], uris=[('http://op/%s' % gen.word(rng), i), ('http://op/x', None)], prio=rng.choice([0, 1]) * 10 + i, local_id='http://l/') for i in range(3)])

    def run(text):
        return [(shown(e)) for e in discover.OpenIDServiceEndpoint.fromXRDS('http://y/', text)]
    return [document], run


def d_html(rng):
    page = html_page([('openid2.provider', 'http://op/' + gen.word(rng)), ('openid.server openid2.local_id', 'http://l/' + gen.word(rng))], body=gen.text(rng).replace('\x00', ''))
    return [page], lambda p: [shown(e) for e in discover.OpenIDServiceEndpoint.fromHTML('http://y/', p)]


def d_namespaces(rng):
    uris = ['http://n/' + gen.word(rng) for _ in range(3)]

    def run(uris):
        m = NamespaceMap()
        return [m.add(u) for u in uris], [m.addAlias('http://z/%d' % i, 'a%d' % i) for i in range(2)], sorted(m.items())
    return [uris], run


def d_negotiator(rng):
    pairs = [('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA1', 'no-encryption')]

    def run(pairs):
        n = consumer.SessionNegotiator(pairs)
        n.addAllowedType('HMAC-SHA256', 'DH-SHA256')
        m = n.copy()
        m.addAllowedType('HMAC-SHA256', 'no-encryption')
        d = consumer.default_negotiator.copy()
        d.addAllowedType('HMAC-SHA1', 'no-encryption')
        return n.allowed_types, m.allowed_types, d.allowed_types, list(consumer.default_negotiator.allowed_types), list(consumer.encrypted_negotiator.allowed_types)
    return [rng.sample(pairs, 2)], run


OWN = sorted((k, v) for k, v in globals().items() if k.startswith('d_'))
ALL = OWN * 2 + [c for c in c37.CALLS]


def attempt(run, args):
    try:
        return run(*args)
    except Violation:
        raise
    except Exception as e:
        return Failed(e)


def plain(out):
    return re.sub(r'0x[0-9a-f]{6,}', '0x', out.text if isinstance(out, Failed) else repr(out))


def child(func):
    """Run in a process that has not done anything yet."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', func())
            except BaseException as e:   # noqa: B902
                out = ('raised', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:   # noqa: B902
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data) if data else ('raised', 'the process ended')
    if out[0] == 'raised':
        raise RuntimeError('child: ' + out[1])
    return out[1]


def begin(rng):
    clock.set(1700000000 + rng.randrange(100000))
    fetchers.setDefaultFetcher(Pages())


def make(rng, n):
    begin(rng)
    jobs = []
    focus = rng.sample(ALL, rng.choice([1, 2])) if rng.random() < .6 else None
    for _ in range(n):
        name, maker = rng.choice(focus) if focus and rng.random() < .9 else rng.choice(ALL)
        args, run = maker(rng)
        jobs.append((name, args, run))
        if rng.random() < .4 and name not in CHECKING:
            jobs.append((name, near(rng, args), run))
    rng.shuffle(jobs)
    return jobs[:2 * n]


# these compare what they get with what they were made for
CHECKING = {'c_checkauth', 'c_message', 'c_tables'}


def near_text(rng, t):
    if not t:
        return 'x'
    i = rng.randrange(len(t))
    return rng.choice([t + 'x', t[:i] + t[i + 1:], t[:i] + gen.word(rng, 1, 1) + t[i + 1:], t[:i] + t[i].swapcase() + t[i + 1:], t[:-1] + gen.word(rng, 1, 1), t + '/y'])


def near(rng, args):
    """Arguments which differ in one place."""
    out = copy.deepcopy(args) if not any(callable(x) for a in args if isinstance(a, list) for x in a) else list(args)
    i = rng.randrange(len(out))
    a = out[i]
    if isinstance(a, str):
        out[i] = near_text(rng, a)
    elif isinstance(a, dict) and a:
        k = rng.choice(sorted(a))
        if isinstance(a[k], str):
            a[k] = near_text(rng, a[k])
    elif isinstance(a, list) and a:
        k = rng.randrange(len(a))
        if isinstance(a[k], str):
            a[k] = near_text(rng, a[k])
    return out


def ordered(jobs, order):
    return [(i, plain(attempt(jobs[i][2], copy.copy(jobs[i][1])))) for i in order]


def same(jobs, base, rows, what, **data):
    for i, got in rows:
        require(got == base[i], what, call=jobs[i][0][2:], arguments=repr(jobs[i][1])[:1500], alone=base[i][:800], now=got[:800], **data)


def order(rng, ctx):
    """The same calls in another order, and again."""
    jobs = make(rng, rng.choice([6, 12, 25]))
    base = dict(child(lambda: ordered(jobs, range(len(jobs)))))
    second = list(range(len(jobs)))
    rng.shuffle(second)
    third = [rng.choice(second) for _ in range(2 * len(jobs))]
    rows = child(lambda: ordered(jobs, second + third))
    same(jobs, base, rows, 'a call gives another result in another order of calls', order=[jobs[i][0] for i in second])
    one = rng.randrange(len(jobs))
    same(jobs, base, child(lambda: ordered(jobs, [one])), 'a call gives another result when nothing happened before', order=[j[0] for j in jobs[:one]])
    ctx.event('orders')
    ctx.event('repeated', len(rows))
    seen = ctx.__dict__.setdefault('kinds_seen', set())
    new = set(j[0] for j in jobs) - seen
    seen |= new
    ctx.event('kinds of calls', len(new))
    ctx.state('order', tuple(jobs[i][0] for i in second))


def threads(rng, ctx):
    """The same calls at the same time."""
    n = rng.choice([2, 2, 3])
    jobs = make(rng, n * rng.choice([1, 1, 2, 4]))
    if rng.random() < .5:
        # the same calls with different arguments run into each other
        kinds = rng.sample(ALL, 2)
        jobs = [(k[0],) + tuple(k[1](rng)) for k in (rng.choice(kinds) for _ in jobs)]
    base = dict(child(lambda: ordered(jobs, range(len(jobs)))))
    seed = rng.random()
    prob = rng.choice([.02, .1, .4, 'quanta', 'quanta'])
    opcodes = rng.random() < .15

    def together():
        control = sched.Scheduler(random.Random(seed), prob=prob, opcodes=opcodes)
        rows = control.run([lambda part=part: ordered(jobs, part) for part in [list(range(k, len(jobs), n)) for k in range(n)]])
        return rows if all(r[0] == 'ok' for r in rows) else [(r[0], r[1] if r[0] == 'ok' else repr(r[1])) for r in rows], control.switches, control.trace[:60]
    rows, switches, trace = child(together)
    for kind, row in rows:
        require(kind == 'ok', 'a call failed because others ran at the same time', error=row, calls=[j[0] for j in jobs])
        same(jobs, base, row, 'a call gives another result when others run at the same time', calls=[j[0] for j in jobs], schedule=trace)
    ctx.event('interleavings')
    ctx.event('switches', switches)
    ctx.event('concurrent calls', len(jobs))
    ctx.state('threads', tuple(j[0] for j in jobs), tuple(trace[:30]))


def scrub(out, depth=0):
    """What a caller may do to lists and dictionaries it got."""
    if depth < 6 and isinstance(out, (list, tuple)):
        for x in out:
            scrub(x, depth + 1)
        if isinstance(out, list):
            out[:] = ['scrubbed']
    elif depth < 6 and isinstance(out, dict):
        for x in out.values():
            scrub(x, depth + 1)
        out.clear()
        out['scrubbed'] = 'scrubbed'


def arguments(rng, ctx):
    """Calls leave what they are given as it was."""
    begin(rng)
    for _ in range(20):
        name, maker = rng.choice(OWN)
        args, run = maker(rng)
        before = repr(args)
        first = attempt(run, args)
        require(repr(args) == before, 'a call changed its arguments', call=name[2:], before=before, after=repr(args))
        want = plain(first)
        scrub(first)
        require(repr(args) == before, 'changing the result of a call changes its arguments', call=name[2:], before=before, after=repr(args))
        again = attempt(run, args)
        require(want == plain(again) and repr(args) == before, 'the same call gives another result the second time', call=name[2:], arguments=before, first=want, again=plain(again))
        ctx.event('arguments kept')
        ctx.state('arguments', name, want[:40])


SCENARIOS = [('order', order, 1500, 20000), ('threads', threads, 1800, 24000), ('arguments', arguments, 2400, 30000)]
