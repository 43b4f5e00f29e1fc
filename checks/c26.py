"""C26: extension data survive the trip and never exceed the request."""
import re
import warnings

from openid.consumer.consumer import SUCCESS
from openid.extensions import ax, pape, sreg
from openid.message import NamespaceMap

from lib import gen
from lib.core import Violation, require
from lib.vclock import clock
from lib.world import OPENID2, RP, T_11, T_20, Keyed, Net, SimOP, Stores, assertion, nonce_at, xrds
from checks.c07 import xml_ok
from checks.c11 import MUT, make_realm, open_verdict, ref_inside, ref_realm

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        from openid.extensions.draft import pape2
    except ImportError:
        pape2 = None

PROP = 'C26'
TECHNIQUE = ('runtime monitoring: complete authentications through real relying parties and providers carry extension objects, and every object read is compared with the object '
             'written by the other party; replies are watched on the wire for data that were not requested')
LEVEL_NOTE = 'Random combinations of all bundled extensions, fields, aliases, counts, values and update addresses over both protocol families; hostile arguments for the readers. Sampling.'
RULE = 'a case is one world with several authentications; counted distinct: (extension, protocol family, shape of request, shape of reply, outcome)'
NEED = {'logins': 1500, 'sreg requests': 600, 'sreg replies': 500, 'fetch requests': 400, 'fetch replies': 400, 'store requests': 150, 'store replies': 150, 'pape requests': 400,
        'pape replies': 400, 'over-answers refused': 300, 'update inside': 150, 'update outside': 300, 'hostile': 3000, 'absent': 300, 'read proper': 15000, 'read malformed': 2000}
ASSUMPTIONS = ['values without line breaks and of characters XML can carry', 'attribute exchange and authentication policy travel in OpenID 2 only']

SREG_FIELDS = ['fullname', 'nickname', 'dob', 'email', 'gender', 'postcode', 'country', 'language', 'timezone']
RT = 'http://rp.example.com/cb'
REALM = 'http://rp.example.com/'


def value(rng):
    for _ in range(20):
        s = rng.choice([gen.text(rng, 0, 6), gen.text(rng, 0, 2), '', '0', 'None', 'a,b', 'a b', ' x ', 'unlimited', gen.lit(rng)])
        if xml_ok(s) and '\n' not in s and '\r' not in s:
            return s
    return 'x'


def uri(rng, n):
    return rng.choice(['http://axschema.org/%s/%d', 'http://x.example/?t=%s&n=%d', 'urn:%s:%d', 'http://schema.openid.net/%s/é%d', 'tag:%s,2007:%d']) % (gen.word(rng, 1, 5), n)


def any_case(rng, s):
    return rng.choice([s, s, s.upper(), s.title()])


# --- simple registration ---------------------------------------------------------------------------------

def make_sreg_request(rng):
    fields = rng.sample(SREG_FIELDS, rng.randint(0, len(SREG_FIELDS)))
    k = rng.randint(0, len(fields))
    required, optional = fields[:k], fields[k:]
    policy = rng.choice([None, 'http://rp.example.com/policy?a=b&c=%20', 'x'])
    ns = rng.choice([sreg.ns_uri_1_1, sreg.ns_uri_1_1, sreg.ns_uri_1_0])
    r = rng.random()
    if r < 0.4:
        req = sreg.SRegRequest(required, optional, policy, ns)
    else:
        req = sreg.SRegRequest(policy_url=policy, sreg_ns_uri=ns)
        if r < 0.7:
            req.requestFields(required, required=True)
            req.requestFields(optional)
        else:
            # the hard way: repeated requests, a field promoted to required stays required
            plan = [(f, True) for f in required] + [(f, False) for f in optional]
            noise = [(f, False) for f in required if rng.random() < 0.3]
            for f, r_ in plan:
                req.requestField(f, required=r_)
            for f, r_ in noise:
                req.requestField(f, required=r_)
            if optional and rng.random() < 0.5:
                f = rng.choice(optional)
                req.requestField(f, required=True)
                optional.remove(f)
                required.append(f)
    return req, required, optional, policy, ns


def check_sreg_request(ctx, request, plan, v2):
    req, required, optional, policy, ns = plan
    got = sreg.SRegRequest.fromOpenIDRequest(request)
    require((got.required, got.optional) == (required, optional), 'requested registration fields differ', got=(got.required, got.optional), written=(required, optional))
    require(got.policy_url == policy, 'policy address differs', got=got.policy_url, written=policy)
    require(sorted(got.allRequestedFields()) == sorted(required + optional) and got.wereFieldsRequested() == bool(required or optional), 'requested registration fields differ')
    for f in SREG_FIELDS:
        require((f in got) == (f in required or f in optional), 'field is wrongly reported as requested', field=f)
    if v2 and (required or optional or policy):
        require(got.ns_uri == ns, 'registration namespace differs', got=got.ns_uri, written=ns)
    ctx.event('sreg requests')
    return got


def answer_sreg(rng, got, response):
    data = {f: value(rng) for f in SREG_FIELDS if rng.random() < 0.6}
    for f in list(data):
        if rng.random() < 0.1:
            data[f] = None
    full = dict(data)
    if rng.random() < 0.3:
        full.update({'secret': 'x', 'Email': 'y', 'password': 'hunter2'})
    reply = sreg.SRegResponse.extractResponse(got, full)
    require(reply.ns_uri == got.ns_uri, 'reply is in another namespace than the request', reply=reply.ns_uri, request=got.ns_uri)
    response.addExtension(reply)
    return {f: v for f, v in data.items() if v is not None}


def check_sreg_reply(ctx, resp, sent, asked, args, signed_only):
    expected = {f: v for f, v in sent.items() if f in asked}
    alias = [k[10:] for k, v in args.items() if k.startswith('openid.ns.') and v in (sreg.ns_uri_1_1, sreg.ns_uri_1_0)] or ['sreg']
    for k in args:
        if k.startswith('openid.%s.' % alias[0]):
            require(k.split('.', 2)[2] in expected, 'the reply has a registration field that was not requested', field=k, requested=asked)
    got = sreg.SRegResponse.fromSuccessResponse(resp, signed_only=signed_only)
    require(dict(got.data if got is not None else {}) == expected, 'registration data differ', got=got and got.data, written=expected)
    if got is not None:
        for f in SREG_FIELDS:
            require(got.get(f) == expected.get(f) and (f in got) == (f in expected), 'registration data differ', field=f, got=got.get(f))
        require(sorted(got.items()) == sorted(expected.items()) and sorted(got) == sorted(expected) and sorted(got.keys()) == sorted(expected), 'registration data differ')
    ctx.event('sreg replies')


# --- attribute exchange ------------------------------------------------------------------------------------

ALIASES = ['email', 'nick', 'x', 'first_name', 'a-b', 'count', 'type', 'value', 'required', 'ax', 'contact', 'reference', 'identity', 'error', 'é', 'A', 'alias%d']


def make_fetch(rng, realm=REALM):
    update = rng.choice([None, None, None, realm.replace('*.', '') + 'update', RT])
    req = ax.FetchRequest(update)
    plan = {}
    used = set()
    for n in range(gen.bulk(rng, .008, 150) or rng.choice((0, 1, 1, 2, 3, 5))):
        t = uri(rng, n)
        if t in plan:
            continue
        alias = None
        if rng.random() < 0.5:
            alias = rng.choice(ALIASES)
            if '%d' in alias:
                alias = alias % n
            if alias in used:
                alias = None
            used.add(alias)
        count = rng.choice((1, 1, 1, 2, 5, 100, ax.UNLIMITED_VALUES))
        required = rng.random() < 0.5
        req.add(ax.AttrInfo(t, count, required, alias))
        plan[t] = (count, required, alias)
        if rng.random() < 0.1:
            try:
                req.add(ax.AttrInfo(t, 1, not required, rng.choice([None, alias, 'other'])))
            except KeyError:
                pass
            else:
                raise Violation('an attribute is requested twice', type=t)
    return req, plan, update


def check_fetch(ctx, request, written):
    _, plan, update = written
    got = ax.FetchRequest.fromOpenIDRequest(request)
    require(got is not None, 'fetch request is lost')
    read = {a.type_uri: (a.count, a.required) for a in got.iterAttrs()}
    require(read == {t: (c, r) for t, (c, r, _) in plan.items()}, 'requested attributes differ', got=read, written=plan)
    require(sorted(got.getRequiredAttrs()) == sorted(t for t, p in plan.items() if p[1]), 'required attributes differ', got=got.getRequiredAttrs())
    require(sorted(got) == sorted(plan) and all(t in got for t in plan) and 'http://not.example/' not in got, 'requested attributes differ')
    for a in got.iterAttrs():
        require(plan[a.type_uri][2] in (None, a.alias), 'alias differs', got=a.alias, written=plan[a.type_uri][2])
        require(a.wantsUnlimitedValues() == (plan[a.type_uri][0] == ax.UNLIMITED_VALUES), 'count differs', got=a.count)
    require(got.update_url == update, 'update address differs', got=got.update_url, written=update)
    ctx.event('fetch requests')
    return got


def ax_values(rng, n):
    return [value(rng) for _ in range(n)]


def answer_fetch(rng, ctx, got, response, plan, update):
    """Values written; attributes not answered are reported without values."""
    data = {}
    for t, (count, _, _) in plan.items():
        if rng.random() < 0.75:
            most = 5 if count == ax.UNLIMITED_VALUES else min(count, 4)
            data[t] = ax_values(rng, rng.randint(0, most))
            if count in (ax.UNLIMITED_VALUES, 100) and rng.random() < 0.05:
                data[t] = ax_values(rng, rng.choice((9, 10, 11, 99, 100)) + (count != 100) * rng.choice((0, 1, 30, gen.bulk(rng, 1, 1100))))
    bad = rng.random()
    if bad < 0.15:
        # too much: an attribute not asked for
        reply = ax.FetchResponse(got)
        for t, values in data.items():
            reply.setValues(t, values)
        known = sorted(plan)
        other = rng.choice(['http://not.requested.example/' + gen.word(rng), 'http://not.requested.example/' + gen.word(rng)] + [f(rng.choice(known)) for f in (lambda u: u + '/', lambda u: u.upper(), lambda u: u[:-1]) if known])
        if other in plan:
            other = 'http://not.requested.example/'
        if rng.random() < 0.7:
            reply.addValue(other, 'x')
        else:
            reply.setValues(other, [])
        refuse(ctx, response, reply)
    elif bad < 0.3:
        limited = [t for t in plan if plan[t][0] not in (ax.UNLIMITED_VALUES, 100)]
        if limited:
            t = rng.choice(limited)
            reply = ax.FetchResponse(got)
            for u, values in data.items():
                reply.setValues(u, values)
            n = plan[t][0] + rng.choice((1, 1, 2))
            reply.setValues(t, ax_values(rng, n) if rng.random() < 0.7 else [value(rng)] * n)
            refuse(ctx, response, reply)
    own = None
    if rng.random() < 0.3:
        own = 'http://own.example/update'
    with_request = rng.random() < 0.8
    reply = ax.FetchResponse(got, own) if with_request else ax.FetchResponse(update_url=own)
    for t, values in data.items():
        if rng.random() < 0.5:
            reply.setValues(t, values)
        else:
            if rng.random() < 0.5:
                reply.setValues(t, [])
            for v in values:
                reply.addValue(t, v)
    data = {t: v for t, v in data.items() if t in reply.data}
    response.addExtension(reply)
    if with_request:
        for t in plan:
            data.setdefault(t, [])
    return data, (update if with_request else None) or own


def refuse(ctx, response, reply):
    try:
        response.addExtension(reply)
    except (ax.AXError, KeyError):
        ctx.event('over-answers refused')
    else:
        raise Violation('a reply with more than was requested is accepted', data=reply.data)
    left = [k for k in response.fields.toPostArgs() if k.startswith('openid.ax.')]
    require(not left, 'data of a refused reply stay in the response', fields=left)


def check_values(got, data, what):
    require(got.data == data, '%s values differ' % what, got=got.data, written=data)
    for t, values in data.items():
        require(got.get(t) == values and got.count(t) == len(values), '%s values differ' % what, type=t)
        if len(values) < 2:
            require(got.getSingle(t) == (values[0] if values else None) and got.getSingle(t, 'd') == (values[0] if values else 'd'), '%s value differs' % what, type=t)
        else:
            try:
                got.getSingle(t)
            except ValueError:
                pass
            else:
                raise Violation('several values given as one', type=t)


def make_store(rng):
    data = {uri(rng, n): ax_values(rng, rng.randint(0, 3)) for n in range(rng.randint(0, 4))}
    aliases = None
    if rng.random() < 0.4:
        aliases = NamespaceMap()
        for n, t in enumerate(sorted(data)):
            if rng.random() < 0.5:
                aliases.addAlias(t, rng.choice(['al%d', 'x-%d', 'é%d']) % n)
    req = ax.StoreRequest(aliases)
    for t, values in data.items():
        if rng.random() < 0.5 or not values:
            req.setValues(t, values)
        else:
            for v in values:
                req.addValue(t, v)
    return req, data


# --- authentication policy -----------------------------------------------------------------------------------

POLICIES = [pape.AUTH_MULTI_FACTOR, pape.AUTH_MULTI_FACTOR_PHYSICAL, pape.AUTH_PHISHING_RESISTANT, 'http://p.example/1', 'http://p.example/é', 'urn:p', 'http://p.example/none',
            pape.AUTH_NONE + '/1', 'None', pape.AUTH_MULTI_FACTOR.upper()]
LEVELS = [pape.LEVELS_NIST, pape.LEVELS_JISA, 'http://levels.example/a', 'http://levels.example/b', 'urn:l', 'http://levels.example/A', 'URN:l', 'urn:L', pape.LEVELS_JISA.upper()]


def some(rng, pool, most, bulk):
    """Up to ``most`` members of the pool, at times very many others."""
    out = rng.sample(pool, rng.randint(0, most))
    if rng.random() < 0.03:
        out += [bulk % n for n in range(rng.choice((5, 12, 60, 130)))]
    return out


def make_pape(rng, old):
    policies = some(rng, POLICIES, 4, 'http://many.example/%d')
    age = rng.choice([None, 0, 1, 3600, 10 ** 10, -1])
    if old:
        return pape2.Request(list(policies) or None, age), policies, age, []
    levels = some(rng, LEVELS, 4, 'urn:m%d')
    r = rng.random()
    if r < 0.4:
        req = pape.Request(list(policies) or None, age, list(levels) or None)
    else:
        req = pape.Request(max_auth_age=age)
        for p in policies:
            for _ in range(rng.choice((1, 2))):
                req.addPolicyURI(p)
        for n, l in enumerate(levels):
            req.addAuthLevel(l, rng.choice([None, 'al%d' % n, 'ns']) if n == 0 else rng.choice([None, 'al%d' % n]))
            if rng.random() < 0.2:
                req.addAuthLevel(l)
    return req, policies, age, levels


def check_pape(ctx, rng, request, plan, old):
    _, policies, age, levels = plan
    got = (pape2 if old else pape).Request.fromOpenIDRequest(request)
    require(got is not None, 'policy request is lost')
    require(got.preferred_auth_policies == policies, 'preferred policies differ', got=got.preferred_auth_policies, written=policies)
    require(got.max_auth_age == age, 'maximal age differs', got=got.max_auth_age, written=age)
    require(bool(got) == bool(policies or levels or age is not None), 'emptiness of a policy request is misreported')
    if not old:
        require(got.preferred_auth_level_types == levels, 'preferred levels differ', got=got.preferred_auth_level_types, written=levels)
    support = rng.sample(POLICIES, rng.randint(0, len(POLICIES)))
    require(got.preferredTypes(support) == [p for p in support if p in policies], 'preferred types differ', supported=support, preferred=policies)
    ctx.event('pape requests')


def answer_pape(rng, response, old):
    policies = some(rng, POLICIES, 4, 'http://many.example/%d')
    when = rng.choice([None, '1970-01-01T00:00:00Z', '2038-01-19T03:14:08Z', '%04d-%02d-%02dT%02d:%02d:%02dZ' % (rng.randint(1970, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                                                                                                               rng.randint(0, 59), rng.randint(0, 59))])
    if old:
        level = rng.choice([None, 0, 1, 2, 3, 4])
        response.addExtension(pape2.Response(list(policies), when, level))
        return policies, when, level
    levels = {l: rng.choice(['0', '1', '4', 'high', value(rng)]) if l != pape.LEVELS_NIST else str(rng.randint(0, 4)) for l in some(rng, LEVELS, 4, 'urn:m%d')}
    if rng.random() < 0.5:
        reply = pape.Response(list(policies), when, dict(levels))
    else:
        reply = pape.Response(auth_time=when)
        for p in policies:
            reply.addPolicyURI(p)
        for n, (l, v) in enumerate(levels.items()):
            reply.setAuthLevel(l, v, rng.choice([None, 'lv%d' % n]))
    response.addExtension(reply)
    return policies, when, levels


def check_pape_reply(ctx, resp, sent, old):
    got = (pape2 if old else pape).Response.fromSuccessResponse(resp)
    policies, when, levels = sent
    require(got is not None, 'policy reply is lost')
    require(got.auth_policies == policies, 'policies differ', got=got.auth_policies, written=policies)
    require(got.auth_time == when, 'authentication time differs', got=got.auth_time, written=when)
    if old:
        require(got.nist_auth_level == levels, 'level differs', got=got.nist_auth_level, written=levels)
    else:
        require(got.auth_levels == levels, 'levels differ', got=got.auth_levels, written=levels)
        for l in LEVELS:
            try:
                v = got.getAuthLevel(l)
            except KeyError:
                v = None
            require(v == levels.get(l), 'level differs', type=l, got=v)
        n = levels.get(pape.LEVELS_NIST)
        require(got.nist_auth_level == (None if n is None else int(n)), 'NIST level differs', got=got.nist_auth_level, written=n)
    ctx.event('pape replies')


# --- complete authentications ----------------------------------------------------------------------------------

def trips(rng, ctx):
    stores = Stores()
    try:
        net = Net()
        op = SimOP(net, 'http://op.example.com/x', stores.make('memory'))
        v2 = rng.random() < 0.75
        user = 'http://joe.example.com/'
        net.page(user, xrds([dict(types=[T_20 if v2 else T_11], uris=[(op.endpoint, None)], local_id=None)]), {'content-type': 'application/xrds+xml'})
        rp = RP(stores.make(rng.choice(['memory', 'memory', 'none'])), REALM, RT)
        for _ in range(3):
            trip(rng, ctx, v2, op, rp, user)
    finally:
        stores.close()


def trip(rng, ctx, v2, op, rp, user):
    plan = {}
    old = pape2 is not None and rng.random() < 0.25
    if rng.random() < 0.7:
        plan['sreg'] = make_sreg_request(rng)
    if v2:
        r = rng.random()
        if r < 0.5:
            plan['fetch'] = make_fetch(rng)
        elif r < 0.7:
            plan['store'] = make_store(rng)
        if rng.random() < 0.5:
            plan['pape'] = make_pape(rng, old)
    order = sorted(plan)
    rng.shuffle(order)

    def ask(req):
        for k in order:
            req.addExtension(plan[k][0])

    sent = {}
    empty_fetch = 'fetch' in plan

    def extend(request, response):
        if 'sreg' in plan:
            got = check_sreg_request(ctx, request, plan['sreg'], v2)
            sent['sreg'] = answer_sreg(rng, got, response)
        else:
            got = sreg.SRegRequest.fromOpenIDRequest(request)
            require(not got.wereFieldsRequested() and got.policy_url is None, 'registration request from nowhere', got=got.allRequestedFields())
            ctx.event('absent')
        if 'fetch' in plan:
            got = check_fetch(ctx, request, plan['fetch'])
            wrong_mode(ctx, ax.StoreRequest, request)
            sent['fetch'] = answer_fetch(rng, ctx, got, response, plan['fetch'][1], plan['fetch'][2])
        elif 'store' in plan:
            got = ax.StoreRequest.fromOpenIDRequest(request)
            require(got is not None, 'store request is lost')
            check_values(got, plan['store'][1], 'stored')
            ctx.event('store requests')
            wrong_mode(ctx, ax.FetchRequest, request)
            ok = rng.random() < 0.5
            error = None if ok else rng.choice([None, value(rng)])
            if ok:
                try:
                    ax.StoreResponse(True, value(rng))
                except ax.AXError:
                    pass
                else:
                    require(False, 'a successful store reply takes an error message which nobody will read')
            response.addExtension(ax.StoreResponse(ok, error))
            sent['store'] = (ok, error)
        else:
            require(ax.FetchRequest.fromOpenIDRequest(request) is None and ax.StoreRequest.fromOpenIDRequest(request) is None, 'attribute request from nowhere')
            ctx.event('absent')
        if 'pape' in plan:
            check_pape(ctx, rng, request, plan['pape'], old)
            sent['pape'] = answer_pape(rng, response, old)
        else:
            require(pape.Request.fromOpenIDRequest(request) is None, 'policy request from nowhere')
            ctx.event('absent')

    endpoint, args, req = rp.begin('s', user, extend=ask)
    url, back = op.authenticate(args, {user}, extend=extend)
    resp = rp.complete('s', back, url)
    require(resp.status == SUCCESS, 'harness: login fails: %s' % getattr(resp, 'message', None), args=args, back=back)
    ctx.event('logins')
    back = dict(back)
    signed = rng.random() < 0.7
    if 'sreg' in plan:
        check_sreg_reply(ctx, resp, sent['sreg'], plan['sreg'][1] + plan['sreg'][2], back, signed)
    else:
        require(sreg.SRegResponse.fromSuccessResponse(resp, signed_only=signed) is None, 'registration reply from nowhere')
    if 'fetch' in plan:
        got = ax.FetchResponse.fromSuccessResponse(resp, signed)
        require(got is not None, 'fetch reply is lost')
        check_values(got, sent['fetch'][0], 'fetched')
        require(got.update_url == sent['fetch'][1], 'update address of the reply differs', got=got.update_url, written=sent['fetch'][1])
        ctx.event('fetch replies')
        wrong_mode_reply(ctx, ax.StoreResponse, resp)
    elif 'store' in plan:
        got = ax.StoreResponse.fromSuccessResponse(resp, signed)
        ok, error = sent['store']
        require(got is not None and bool(got.succeeded()) == ok, 'outcome of storing differs', written=ok)
        require((got.error_message or None) == (error or None), 'error message of storing differs', got=got.error_message, written=error)
        ctx.event('store replies')
        wrong_mode_reply(ctx, ax.FetchResponse, resp)
    else:
        require(ax.FetchResponse.fromSuccessResponse(resp, signed) is None and ax.StoreResponse.fromSuccessResponse(resp, signed) is None, 'attribute reply from nowhere')
    if 'pape' in plan:
        check_pape_reply(ctx, resp, sent['pape'], old)
    ctx.state('trip', v2, tuple(order), len(sent.get('sreg', ())), len(plan['fetch'][1]) if 'fetch' in plan else None, signed)
    ctx.sample('trips', {k: str(v)[:100] for k, v in sent.items()})


def wrong_mode(ctx, cls, request):
    try:
        cls.fromOpenIDRequest(request)
    except ax.AXError:
        pass
    else:
        raise Violation('an attribute request of another kind is read', kind=cls.__name__)


def wrong_mode_reply(ctx, cls, resp):
    try:
        cls.fromSuccessResponse(resp)
    except ax.AXError:
        pass
    else:
        raise Violation('an attribute reply of another kind is read', kind=cls.__name__)


# --- update address -----------------------------------------------------------------------------------------------

class FakeRequest(object):
    def __init__(self, message):
        self.message = message


def updates(rng, ctx):
    from openid.message import Message
    for _ in range(12):
        realm = make_realm(rng)
        url = realm.replace('*.', rng.choice(['', 'www.', 'a.b.']))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            try:
                url = MUT[rng.choice(sorted(MUT))](rng, url)
            except (AttributeError, TypeError, ValueError):
                pass
        if rng.random() < 0.15:
            try:
                realm = MUT[rng.choice(sorted(MUT))](rng, realm)
            except (AttributeError, TypeError, ValueError):
                pass
        args = {'openid.ns': OPENID2, 'openid.mode': 'checkid_setup', 'openid.ns.ax': ax.AXMessage.ns_uri, 'openid.ax.mode': 'fetch_request', 'openid.ax.type.a': 'http://t.example/',
                'openid.ax.required': 'a', 'openid.ax.update_url': url}
        r = rng.random()
        if r < 0.7:
            args['openid.realm'] = realm
            args['openid.return_to'] = rng.choice([RT, url])
        elif r < 0.9:
            args['openid.return_to'] = realm
        else:
            realm = None
            args['openid.trust_root'] = url         # the name of another version
        if not url:
            continue
        want = realm is not None and ref_inside(realm, url)
        try:
            got = ax.FetchRequest.fromOpenIDRequest(FakeRequest(Message.fromPostArgs(args)))
        except ax.AXError:
            got = None
        rr = ref_realm(realm) if realm is not None else None
        if rr is not None and rr[2] == '' or open_verdict(realm or '') or open_verdict(url):
            continue
        if want is None or '@' in url or '@' in (realm or ''):
            if want is False:
                require(got is None, 'update address outside the realm is accepted', realm=realm, url=url)
            continue
        require((got is not None) == bool(want), 'update address %s the realm is %s' % ('inside' if want else 'outside', 'accepted' if got else 'refused'), realm=realm, url=url)
        if got is not None:
            require(got.update_url == url, 'update address differs', got=got.update_url, written=url)
        ctx.event('update inside' if want else 'update outside')
        ctx.state('update', bool(want), '*' in (realm or ''), r < 0.7)


# --- hostile arguments ----------------------------------------------------------------------------------------------

KEYS = ['mode', 'type.a', 'type.b', 'type.', 'type', 'type.a.b', 'type.mode', 'type.a,b', 'count.a', 'count.b', 'count.', 'value.a', 'value.a.1', 'value.a.2', 'value.b.1', 'required', 'if_available',
        'update_url', 'optional', 'policy_url', 'nickname', 'email', 'auth_policies', 'preferred_auth_policies', 'max_auth_age', 'preferred_auth_level_types', 'auth_level.ns.nist', 'auth_level.nist',
        'auth_level.ns.a', 'auth_level.a', 'auth_level.ns.', 'auth_level.', 'auth_level.ns', 'auth_time', 'nist_auth_level', 'error', 'auth_level.ns.b', 'auth_level.b']
VALUES = ['fetch_request', 'fetch_response', 'store_request', 'store_response_success', 'store_response_failure', 'x', '', 'a', 'b', 'a,b', 'a,,b', 'http://t.example/', 'http://u.example/', '1', '2', '0', '-1',
          'unlimited', '99999999999999999999', '1e3', ' 1 ', '1_0', 'nickname,email', 'nickname,foo,,email', 'nist', 'nist a', 'a b', ' a  b ', pape.LEVELS_NIST, pape.AUTH_NONE, 'none', '2020-01-01T00:00:00Z',
          '2020-01-01', '\u0661', 'http://rp.example.com/x']


def hostile(rng, ctx):
    from openid.consumer.consumer import SuccessResponse
    from openid.consumer.discover import OpenIDServiceEndpoint
    from openid.message import Message
    for _ in range(15):
        v2 = rng.random() < 0.8
        args = {'openid.mode': 'id_res', 'openid.realm': REALM, 'openid.return_to': RT}
        if v2:
            args['openid.ns'] = OPENID2
        for alias, ns in [('ax', ax.AXMessage.ns_uri), ('sreg', rng.choice([sreg.ns_uri_1_1, sreg.ns_uri_1_0, 'http://other.example/'])), ('pape', pape.ns_uri)]:
            if rng.random() < 0.9:
                if v2:
                    args['openid.ns.' + alias] = ns
                for _ in range(rng.randint(0, 7)):
                    k = rng.choice(KEYS) if rng.random() < 0.95 else gen.text(rng, 1, 3)
                    args['openid.%s.%s' % (alias, k)] = rng.choice(VALUES) if rng.random() < 0.9 else gen.text(rng, 0, 4)
                if alias == 'ax' and rng.random() < 0.8:
                    args['openid.ax.mode'] = rng.choice(VALUES[:5])
        message = Message.fromPostArgs(args)
        request = FakeRequest(message)
        endpoint = OpenIDServiceEndpoint()
        endpoint.claimed_id = 'http://joe.example.com/'
        signed = [k for k in args if rng.random() < 0.95]
        success = SuccessResponse(endpoint, message, signed)
        readers = [('sreg request', lambda: sreg.SRegRequest.fromOpenIDRequest(request), (ValueError,)), ('sreg reply', lambda: sreg.SRegResponse.fromSuccessResponse(success), (ValueError,)),
                   ('fetch request', lambda: ax.FetchRequest.fromOpenIDRequest(request), (ValueError, KeyError)), ('store request', lambda: ax.StoreRequest.fromOpenIDRequest(request), (ValueError, KeyError)),
                   ('fetch reply', lambda: ax.FetchResponse.fromSuccessResponse(success), (ValueError, KeyError)), ('store reply', lambda: ax.StoreResponse.fromSuccessResponse(success), (ValueError, KeyError)),
                   ('pape request', lambda: pape.Request.fromOpenIDRequest(request), ()), ('pape reply', lambda: pape.Response.fromSuccessResponse(success), ())]
        for name, read, allowed in readers:
            try:
                got = read()
            except allowed as e:
                ctx.state('hostile', name, type(e).__name__)
            except Exception as e:
                raise Violation('reading a %s fails with %s' % (name, type(e).__name__), error=str(e), args=args)
            else:
                ctx.state('hostile', name, got is not None)
            ctx.event('hostile')


# --- readers against the reference --------------------------------------------------------------------------------

OPEN, ERROR = 'open', 'error'


def ref_int(s):
    if re.match('^[0-9]+\\Z', s):
        return int(s)
    try:
        int(s)
    except ValueError:
        return None
    return OPEN


def ref_types(a):
    types = {}
    for k, v in a.items():
        if k.startswith('type.'):
            alias = k[5:]
            if ',' in alias or '.' in alias:
                return ERROR
            if not alias:
                return OPEN
            types[alias] = v
    if len(set(types.values())) < len(types):
        return ERROR
    return types


def ref_fetch(a):
    if not a.get('mode'):
        return None
    if a['mode'] != 'fetch_request':
        return ERROR
    types = ref_types(a)
    if types in (ERROR, OPEN):
        return types
    counts = {}
    is_open = False
    for alias, uri in types.items():
        c = a.get('count.' + alias) or '1'
        if c != 'unlimited':
            c = ref_int(c)
            if c is None or c == 0:
                return ERROR
            is_open = is_open or c == OPEN
        counts[uri] = c
    lists = []
    for name in ('required', 'if_available'):
        v = a.get(name)
        aliases = v.split(',') if v else []
        if any(x not in types for x in aliases):
            return ERROR
        lists.append({types[x] for x in aliases})
    if set(types.values()) - lists[0] - lists[1]:
        return ERROR
    if is_open:
        return OPEN
    update = a.get('update_url')
    if update and not update.startswith(REALM):
        return ERROR
    return {uri: (counts[uri], uri in lists[0]) for uri in counts}, update


def ref_values(a, mode):
    if not a.get('mode'):
        return None
    if a['mode'] != mode:
        return ERROR
    types = ref_types(a)
    if types in (ERROR, OPEN):
        return types
    data = {}
    is_open = False
    for alias, uri in types.items():
        if 'count.' + alias in a:
            n = ref_int(a['count.' + alias])
            if n is None:
                return ERROR
            if n == OPEN:
                is_open = True
                continue
            if n > 100 or any('value.%s.%d' % (alias, i + 1) not in a for i in range(n)):
                return ERROR
            data[uri] = [a['value.%s.%d' % (alias, i + 1)] for i in range(n)]
        elif 'value.' + alias not in a:
            return ERROR
        else:
            v = a['value.' + alias]
            data[uri] = [v] if v else []
    return OPEN if is_open else (data, a.get('update_url') if mode == 'fetch_response' else None)


def ref_stored(a):
    mode = a.get('mode')
    if not mode:
        return None
    if mode == 'store_response_success':
        return True, None
    if mode == 'store_response_failure':
        return False, a.get('error')
    return ERROR


def ref_fields(a):
    out = {'required': [], 'optional': []}
    for name in ('required', 'optional'):
        for f in (a.get(name) or '').split(','):
            if f in SREG_FIELDS and f not in out['required'] + out['optional']:
                out[name].append(f)
    return out['required'], out['optional'], a.get('policy_url')


def ref_fields_strict(a):
    names = sum([(a.get(n) or '').split(',') if a.get(n) else [] for n in ('required', 'optional')], [])
    if len(set(names)) < len(names) or any(f not in SREG_FIELDS for f in names):
        return ERROR
    return ref_fields(a)


def ref_level(a, alias, v1):
    return a.get('auth_level.ns.' + alias, {'nist': pape.LEVELS_NIST, 'jisa': pape.LEVELS_JISA}.get(alias) if v1 else None)


def ref_policy_request(a, v1, strict=False):
    policies = []
    v = a.get('preferred_auth_policies')
    for p in v.split(' ') if v else []:
        if p not in policies:
            policies.append(p)
    age = None
    if a.get('max_auth_age'):
        age = ref_int(a['max_auth_age'])
        if age is None and strict:
            return ERROR
    levels = []
    for alias in (a.get('preferred_auth_level_types') or '').split():
        uri = ref_level(a, alias, v1)
        if uri is None and strict:
            return ERROR
        if uri is not None and uri not in levels:
            levels.append(uri)
    if '' in policies or '' in levels or age == OPEN:
        return OPEN
    return policies, age, levels


def ref_policy_reply(a, v1, strict=False):
    v = a.get('auth_policies')
    policies = v.split(' ') if v else []
    if strict and (not policies or 'none' in policies or (pape.AUTH_NONE in policies and len(policies) > 1)):
        return ERROR
    policies = [p for p in policies if p not in ('none', pape.AUTH_NONE)]
    levels = {}
    is_open = '' in policies
    for k in a:
        if k.startswith('auth_level.') and not k.startswith('auth_level.ns.'):
            uri = ref_level(a, k[11:], v1)
            if uri is None:
                if strict:
                    return ERROR
                continue
            is_open = is_open or uri in levels or uri == ''
            levels[uri] = a[k]
    when = a.get('auth_time') or None
    if when and not re.match('^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}Z\\Z', when):
        if strict:
            return ERROR
        when = None
    return OPEN if is_open else (policies, when, levels)


def ref_old_reply(a):
    v = a.get('auth_policies')
    level = ref_int(a.get('nist_auth_level') or 'x')
    when = a.get('auth_time') or None
    if when and not re.match('^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}Z\\Z', when):
        when = None
    policies = v.split(' ') if v and v != 'none' else []
    if '' in policies or 'none' in policies or level == OPEN:
        return OPEN
    return policies, when, level if level is not None and level < 5 else None


NUMBERS = ['1', '1', '2', '2', '3', '10', '0', '-1', 'x', '', '1.0', '1e1', ' 1', '01', 'unlimited', 'Unlimited', 'UNLIMITED', ' unlimited', 'unlimited ', '3600', '0x1', '4', '5', '\u0661', 'None', '1,2', '11']
ALS = ['a', 'b', 'A', 'ab', 'nist', 'é', 'count', 'type', 'a b', 'ns', '0', 'ax']
TIMES = ['2020-01-01T00:00:00Z', '1999-12-31T23:59:59Z', '2020-01-01T00:00:00Z\n', ' 2020-01-01T00:00:00Z', '2020-01-01T00:00:00Z ', '2020-01-01T00:00:00z', '2020-01-01t00:00:00Z', '2020-01-01 00:00:00Z',
         '2020-01-01T00:00:00', '2020-01-01T00:00Z', '2020-01-01T00:00:00+00:00', '20200101T000000Z', '2020-01-01T00:00:00.0Z', '\u0662020-01-01T00:00:00Z', '2020-01-01T00:00:00ZZ', '12020-01-01T00:00:00Z',
         '2020-1-1T00:00:00Z', '']


def names(rng, pool, sep, extra):
    out = [rng.choice(pool) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
    if rng.random() < 0.15:
        out.insert(rng.randint(0, len(out)), rng.choice(extra))
    return sep.join(out)


def wire_ax(rng, kind):
    a = {'mode': kind}
    if rng.random() < 0.1:
        a['mode'] = rng.choice(['', kind.upper(), kind + ' ', ' ' + kind, kind[:-1], kind + 's', 'fetch_request', 'fetch_response', 'store_request', 'store_response_success', 'store_response_failure'])
        if rng.random() < 0.2:
            del a['mode']
    mine = rng.sample(ALS, rng.choice((0, 1, 1, 2, 3)))
    lists = {'required': [], 'if_available': []}
    for n, x in enumerate(mine):
        a['type.' + x] = uri(rng, n) if rng.random() < 0.95 else 'http://same.example/'
        if kind == 'fetch_request':
            if rng.random() < 0.5:
                a['count.' + x] = rng.choice(NUMBERS[:6] + ['unlimited']) if rng.random() < 0.8 else rng.choice(NUMBERS)
            for name in rng.choice([['required'], ['if_available'], ['if_available'], ['required', 'if_available']]) if rng.random() < 0.95 else []:
                lists[name].append(x)
        elif rng.random() < 0.6:
            n = rng.choice((0, 1, 1, 2, 3, 11))
            a['count.' + x] = str(n) if rng.random() < 0.9 else rng.choice(NUMBERS)
            for i in range(n):
                a['value.%s.%d' % (x, i + 1)] = value(rng)
            if n and rng.random() < 0.05:
                del a['value.%s.%d' % (x, rng.randint(1, n))]
            if rng.random() < 0.1:
                a[rng.choice(['value.%s.%d' % (x, n + 1), 'value.%s.0' % x, 'value.%s' % x, 'value.%s.01' % x])] = 'stray'
        elif rng.random() < 0.95:
            a['value.' + x] = rng.choice(['', ' ', value(rng), value(rng), 'x'])
            if rng.random() < 0.1:
                a['value.%s.1' % x] = 'stray'
    for name, v in lists.items():
        if rng.random() < 0.05:
            v.insert(rng.randint(0, len(v)), rng.choice(ALS + ['', 'zz', ' a']))
        if v or rng.random() < 0.1:
            a[name] = rng.choice([',', ',', ',', ',', ',', ',', ', ', ' ', ';']).join(v) if rng.random() < 0.3 else ','.join(v)
    if rng.random() < 0.05:
        a['type.' + rng.choice(['a.b', 'a,b', '.', ',', '.a', 'a.', ''])] = 'http://odd.example/'
    if rng.random() < 0.2:
        a['update_url'] = rng.choice([REALM + 'update', RT, RT, 'http://evil.example/', 'https://rp.example.com/', 'http://rp.example.com.evil.example/', ''])
    if rng.random() < 0.3 and 'store_response' in kind:
        a['error'] = value(rng)
    if rng.random() < 0.1:
        a[rng.choice(['types.a', 'Type.a', 'counts.a', 'x', 'error'])] = 'stray'
    return a


def wire_sreg(rng, reply):
    if reply:
        a = {f: value(rng) for f in SREG_FIELDS if rng.random() < 0.4}
        if rng.random() < 0.3:
            a[rng.choice(['Email', 'mail', 'email ', 'password', 'required', 'x', 'emails', 'email.1'])] = 'stray'
        return a
    odd = ['', 'Email', ' email', 'email ', 'e mail', 'name', 'nick name', 'x', 'emails', 'é']
    a = {}
    for name in ('required', 'optional'):
        if rng.random() < 0.8:
            a[name] = names(rng, SREG_FIELDS, ',' if rng.random() < 0.95 else rng.choice([', ', ' ', ';']), odd)
    if rng.random() < 0.4:
        a['policy_url'] = rng.choice(['http://rp.example.com/policy', 'x', ''])
    return a


def wire_pape(rng, reply):
    a = {}
    key = 'auth_policies' if reply else 'preferred_auth_policies'
    if rng.random() < 0.85:
        a[key] = names(rng, POLICIES, ' ', [pape.AUTH_NONE, 'none', 'NONE', 'x', ','])
    if rng.random() < 0.1:
        a[key] = rng.choice([pape.AUTH_NONE, 'none', ''])
    mine = rng.sample(ALS[:7] + ['jisa', 'nist', 'ns'], rng.choice((0, 0, 1, 2, 3)))
    mine = [x for i, x in enumerate(mine) if x not in mine[:i] and ' ' not in x]
    for x in mine:
        if rng.random() < 0.8:
            a['auth_level.ns.' + x] = rng.choice(LEVELS)
        if reply and rng.random() < 0.9:
            a['auth_level.' + x] = value(rng)
    if not reply and (mine or rng.random() < 0.2):
        a['preferred_auth_level_types'] = rng.choice([' ', ' ', ' ', '  ', ',']).join(mine + [rng.choice(ALS)] * (rng.random() < 0.1))
    if rng.random() < 0.5:
        a['auth_time' if reply else 'max_auth_age'] = rng.choice(TIMES[:2] + [rng.choice(TIMES)]) if reply else rng.choice(NUMBERS)
    if rng.random() < 0.3:
        a['nist_auth_level'] = rng.choice(NUMBERS)
    if rng.random() < 0.1:
        a[rng.choice(['auth_levels.a', 'auth_time_', 'x', 'policies'])] = 'stray'
    return a


def readers(rng, ctx):
    """Whatever one party writes on the wire, the other reads what the format says."""
    from openid.consumer.consumer import SuccessResponse
    from openid.consumer.discover import OpenIDServiceEndpoint
    from openid.message import Message
    endpoint = OpenIDServiceEndpoint()
    endpoint.claimed_id = 'http://joe.example.com/'

    def message(ns, a):
        args = {'openid.ns': OPENID2, 'openid.mode': 'id_res', 'openid.realm': REALM, 'openid.return_to': RT, 'openid.ns.e': ns}
        args.update(('openid.e.' + k, v) for k, v in a.items())
        return Message.fromPostArgs(args)

    def request(ns, a):
        return FakeRequest(message(ns, a))

    def reply(ns, a):
        m = message(ns, a)
        return SuccessResponse(endpoint, m, ['openid.' + k for k in ['mode', 'return_to', 'realm', 'ns', 'ns.e'] + ['e.' + x for x in a]])

    def parsed(cls, a, *args, **kwargs):
        obj = cls()
        obj.parseExtensionArgs(a, *args, **kwargs)
        return obj

    def fetch(g):
        return {i.type_uri: (i.count, i.required) for i in g.iterAttrs()}, g.update_url

    def policy(g):
        return list(g.preferred_auth_policies), g.max_auth_age, list(g.preferred_auth_level_types)

    def policies(g):
        return list(g.auth_policies), g.auth_time, dict(g.auth_levels)

    axns, srns, pns = ax.AXMessage.ns_uri, rng.choice([sreg.ns_uri_1_1, sreg.ns_uri_1_0]), pape.ns_uri
    for _ in range(12):
        kind = rng.choice(['fetch request', 'fetch request', 'fetch reply', 'fetch reply', 'store request', 'store reply', 'sreg request', 'sreg strict', 'sreg reply', 'pape request', 'pape reply', 'pape strict request',
                           'pape strict reply', 'old request', 'old reply'])
        errors = ()
        v1 = rng.random() < 0.4
        if kind == 'fetch request':
            a = wire_ax(rng, 'fetch_request')
            want, get, view, errors = ref_fetch(a), lambda: ax.FetchRequest.fromOpenIDRequest(request(axns, a)), fetch, (ax.AXError, KeyError)
        elif kind == 'fetch reply':
            a = wire_ax(rng, 'fetch_response')
            want, get, view, errors = ref_values(a, 'fetch_response'), lambda: ax.FetchResponse.fromSuccessResponse(reply(axns, a)), lambda g: (dict(g.data), g.update_url), (ValueError, KeyError)
        elif kind == 'store request':
            a = wire_ax(rng, 'store_request')
            want, get, view, errors = ref_values(a, 'store_request'), lambda: ax.StoreRequest.fromOpenIDRequest(request(axns, a)), lambda g: (dict(g.data), None), (ValueError, KeyError)
        elif kind == 'store reply':
            a = wire_ax(rng, rng.choice(['store_response_success', 'store_response_failure']))
            want, get, view, errors = ref_stored(a), lambda: ax.StoreResponse.fromSuccessResponse(reply(axns, a)), lambda g: (bool(g.succeeded()), g.error_message), (ax.AXError,)
        elif kind == 'sreg request':
            a = wire_sreg(rng, False)
            want, get, view = ref_fields(a), lambda: sreg.SRegRequest.fromOpenIDRequest(request(srns, a)), lambda g: (g.required, g.optional, g.policy_url)
        elif kind == 'sreg strict':
            a = wire_sreg(rng, False)
            want, get, view, errors = ref_fields_strict(a), lambda: parsed(sreg.SRegRequest, a, strict=True), lambda g: (g.required, g.optional, g.policy_url), (ValueError,)
        elif kind == 'sreg reply':
            a = wire_sreg(rng, True)
            want = {f: v for f, v in a.items() if f in SREG_FIELDS} if a else None
            get, view = lambda: sreg.SRegResponse.fromSuccessResponse(reply(srns, a)), lambda g: dict(g.items())
        elif kind == 'pape request':
            a = wire_pape(rng, False)
            want, get, view = ref_policy_request(a, False) if a else None, lambda: pape.Request.fromOpenIDRequest(request(pns, a)), policy
        elif kind == 'pape strict request':
            a = wire_pape(rng, False)
            want, get, view, errors = ref_policy_request(a, v1, True), lambda: parsed(pape.Request, a, v1, strict=True), policy, (ValueError,)
        elif kind == 'pape reply':
            a = wire_pape(rng, True)
            want, get, view = ref_policy_reply(a, False), lambda: pape.Response.fromSuccessResponse(reply(pns, a)), policies
        elif kind == 'pape strict reply':
            a = wire_pape(rng, True)
            want, get, view, errors = ref_policy_reply(a, v1, True), lambda: parsed(pape.Response, a, v1, strict=True), policies, (ValueError,)
        elif kind == 'old request' and pape2 is not None:
            a = wire_pape(rng, False)
            want = ref_policy_request(a, False)
            want = want if want == OPEN else want[:2]
            get, view = lambda: parsed(pape2.Request, a), lambda g: (list(g.preferred_auth_policies), g.max_auth_age)
        elif kind == 'old reply' and pape2 is not None:
            a = wire_pape(rng, True)
            want, get, view = ref_old_reply(a), lambda: parsed(pape2.Response, a), lambda g: (list(g.auth_policies), g.auth_time, g.nist_auth_level)
        else:
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = get()
        except errors as e:
            got = ERROR
        except Exception as e:
            raise Violation('reading a %s fails with %s' % (kind, type(e).__name__), error=str(e), args=a)
        ctx.event('read')
        ctx.event('read malformed' if want == ERROR else 'read open' if want == OPEN else 'read proper')
        ctx.state('read', kind, str(want) if want in (OPEN, ERROR, None) else len(str(want)) // 40, len(a))
        if want == OPEN:
            continue
        if want == ERROR:
            require(got is ERROR, 'a malformed %s is accepted' % kind, args=a, read=view(got) if got is not None and got is not ERROR else None)
            continue
        require(got is not ERROR, 'a proper %s is refused' % kind, args=a, expected=want)
        seen = view(got) if got is not None else None
        if kind == 'pape reply' and not a:
            continue
        require(seen == want, 'a %s is read differently than written' % kind, args=a, read=seen, expected=want)


SCENARIOS = [('readers', readers, 4600, 60000), ('trips', trips, 6100, 60000), ('updates', updates, 1200, 12000), ('hostile', hostile, 1800, 20000)]
