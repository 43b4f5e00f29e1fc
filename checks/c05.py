"""C05: associations are negotiated as allowed and keyed correctly."""
import base64

from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.consumer.discover import OpenIDServiceEndpoint

from lib import gen
from lib.assocserver import DEFAULT_P, KINDS, PAIRS, AssocServer
from lib.core import require
from lib.vclock import clock
from lib.world import (OPENID2, RP, SELECT, T_11, T_20, T_SERVER, Net, SimOP, Stores, html_page, secret_for, url_args, xrds)

PROP = 'C05'
TECHNIQUE = 'runtime monitoring: wire log of association requests and resulting store contents checked against an independent provider'
LEVEL_NOTE = ('An independently implemented association server answers well and badly; number and types of requests, stored key and the handle '
              'named in the authentication request are checked for every start. Random exploration over answer kinds.')
RULE = ('a case is a sequence of authentication starts against one provider; counted distinct: (protocol version, store, allowed pairs, '
        'answer kinds in order, number of requests, association used or not)')
NEED = {'started': 800, 'assoc_used': 200, 'assoc_refused': 200, 'second_request': 50, 'reused': 80}


class Session(object):
    def __init__(self, rng, plain=False):
        self.rng = rng
        self.stores = Stores()
        self.net = Net()
        self.endpoint = rng.choice(['http://op.example.com/x', 'https://op.example.com/', 'http://op.example.com/y?a=b'])
        self.v2 = rng.random() < .6
        self.types = rng.choice([None, None, PAIRS, [rng.choice(PAIRS)], rng.sample(PAIRS, 2), rng.sample(PAIRS, 3), []])
        if plain:
            self.types = [rng.choice([p for p in PAIRS if p[1] == 'no-encryption'])]
        self.allowed = PAIRS if self.types is None else list(self.types)
        self.server = AssocServer(self.net, self.endpoint, rng, self.allowed)
        self.kind = rng.choice(['memory', 'file', 'sqlite', 'none'])
        self.store = self.stores.make(self.kind)
        self.user = 'http://joe.example.com/'
        self.keep, self.consumer = rng.random() < .4, None
        self.altering = rng.choice(PAIRS) if rng.random() < .15 else None
        if self.v2:
            t = rng.choice([[T_20], [T_SERVER], [T_20, T_11]])
        else:
            t = [T_11]
        self.net.page(self.user, xrds([dict(types=t, uris=[(self.endpoint, None)], local_id=None)]),
                      {'content-type': 'application/xrds+xml'})

    def begin(self):
        if self.altering:
            # what another consumer of the application allows is its own matter
            other = Consumer({}, self.store)
            other.consumer.negotiator.setAllowedTypes([self.altering])
            other.consumer.negotiator.addAllowedType('HMAC-SHA1', 'no-encryption')
        c = self.consumer
        if c is None:
            c = Consumer({}, self.store)
            if self.types is not None:
                c.setAssociationPreference(self.types)
            if self.keep:
                self.consumer = c
        c.session.clear()
        return c.begin(self.user)


def handle_of(req, rng):
    how = rng.randrange(3)
    if req.assoc is not None and any(ord(c) < 32 or 0x7f <= ord(c) < 0xa0 for c in req.assoc.handle):
        how = 0           # markup can not carry control characters
    rt = 'http://rp.example.com/cb'
    if how == 0:
        return dict(url_args(req.redirectURL('http://rp.example.com/', rt))).get('openid.assoc_handle')
    if how == 1:
        return req.getMessage('http://rp.example.com/', rt).toPostArgs().get('openid.assoc_handle')
    from lib.world import read_form
    return dict(read_form(req.htmlMarkup('http://rp.example.com/', rt))[1]).get('openid.assoc_handle')


def lifetimes(rng, ctx):
    """Answers whose lifetimes are odd, over quick unencrypted associations."""
    negotiate(rng, ctx, True)


def negotiate(rng, ctx, plain=False):
    s = Session(rng, plain)
    try:
        known = {}          # handle -> (secret, type, expires at) of associations stored
        for _ in range(rng.randint(2, 5)):
            srv = s.server
            if plain:
                srv.plan = ['expires', 'expires']
            elif rng.random() < .5:
                srv.plan = [rng.choice(KINDS) for _ in range(3)]
            else:
                srv.plan = ['unsupported', rng.choice(['good', 'good', rng.choice(KINDS)])]
            n0 = len(srv.requests)
            before = len(s.net.log)
            if s.store is not None and rng.random() < .25:
                # a stored association, valid or expired
                at = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                h = 'stored%d' % len(known)
                sec = secret_for(rng, at)
                life = rng.choice([10, 3600, 10 ** 6])
                issued = int(clock.now) - rng.choice([0, 5, life - 1, life, life + 1, life + 5000])
                s.store.storeAssociation(s.endpoint, Association(h, sec, issued, life, at))
                known[h] = (sec, at, issued + life, issued)
            valid = [h for h, k in known.items() if k[2] > clock.now]
            if s.store is not None and rng.random() < .2:
                # associations with other providers at similar addresses
                e = s.endpoint
                for u in (e + '/', e.rstrip('/'), e[:-1], e + 'x', e.upper(), e.lower(), e.replace('http:', 'https:'), e.replace('.com', '.com:80'), e + '?', e.split('?')[0],
                          e.rpartition('/')[0] + '/', '', s.user):
                    if u != e:
                        s.store.storeAssociation(u, Association('elsewhere', secret_for(rng, 'HMAC-SHA1'), int(clock.now) + 1, 10 ** 6, 'HMAC-SHA1'))
            req = s.begin()
            ctx.event('started')
            used = handle_of(req, rng)
            reqs, answers = srv.requests[n0:], srv.answers[n0:]
            posts = [x for x in s.net.log[before:] if x[0] == 'POST']
            require(len(posts) == len(reqs), 'association request sent elsewhere', posts=repr(posts))
            require(len(reqs) <= 2, 'more than two association requests', n=len(reqs))
            desc = [(a.kind, a.usable) for a in answers]
            if s.store is None:
                require(not reqs and used is None, 'association made without a store', requests=len(reqs))
            elif valid:
                require(not reqs, 'association requested although a valid one is stored', valid=valid)
                newest = max(known[h][3] for h in valid)
                require(used in valid and known[used][3] == newest, 'the newest valid association is not used', used=used, valid=valid)
                ctx.event('reused')
            else:
                final = None
                for i, (method, pairs, q) in enumerate(reqs):
                    check_request(s, method, pairs, q)
                    pair = (q['openid.assoc_type'], q.get('openid.session_type') or 'no-encryption')
                    require(pair in s.allowed, 'pair requested which is not allowed', pair=pair, allowed=s.allowed)
                    if i == 0:
                        require(pair == s.allowed[0], 'not the most preferred pair requested first', pair=pair, allowed=s.allowed)
                    else:
                        prev = answers[i - 1]
                        require(prev.suggestion == pair, 'second request is not the suggested pair', pair=pair, suggestion=prev.suggestion,
                                answers=desc)
                        ctx.event('second_request')
                if not s.allowed:
                    require(not reqs and used is None, 'request although nothing is allowed')
                elif len(reqs) == 0:
                    require(False, 'no association requested', known={h: k[2:] for h, k in known.items()}, now=clock.now)
                elif len(reqs) == 1 and answers[0].suggestion is not None:
                    require(answers[0].suggestion not in s.allowed, 'allowed suggestion ignored', suggestion=answers[0].suggestion)
                if reqs:
                    a = answers[-1]
                    if a.usable == 'yes':
                        require(used == a.handle, 'good association not used', kind=a.kind, handle=a.handle, used=used, body=repr(a.body),
                                store=s.kind)
                    elif a.usable == 'no':
                        require(used is None, 'unusable association answer used', kind=a.kind, used=used, body=repr(a.body), v2=s.v2,
                                request=reqs[-1][1])
                        ctx.event('assoc_refused')
                    if used is not None:
                        require(used == a.handle, 'request names an association not agreed', used=used, handle=a.handle)
                        stored = s.store.getAssociation(s.endpoint, used)
                        if stored is None:
                            require(a.lifetime is not None and a.lifetime <= 0, 'association used but not stored', handle=used, kind=a.kind)
                        else:
                            require(stored.handle == used and stored.assoc_type == a.atype, 'stored association has another type or handle',
                                    want=a.atype, got=stored.assoc_type)
                            if a.secret is not None:
                                require(stored.secret == a.secret, 'stored key is not the one agreed', want=a.secret.hex(), got=stored.secret.hex(),
                                        kind=a.kind)
                            require(stored.lifetime == a.lifetime and stored.issued == int(clock.now), 'stored times differ', got=(
                                stored.issued, stored.lifetime), want=(clock.now, a.lifetime))
                        known[used] = (a.secret, a.atype, int(clock.now) + a.lifetime, int(clock.now))
                        ctx.event('assoc_used')
                    else:
                        for a in answers:
                            if a.handle and a.handle not in known:
                                require(s.store.getAssociation(s.endpoint, a.handle) is None, 'refused association was stored', kind=a.kind)
            ctx.state(s.v2, s.kind, tuple(s.allowed), tuple(a.kind for a in answers), used is not None, bool(valid))
            clock.advance(rng.choice([0, 0, 1, 59, 60, 61, 3600, 10 ** 6]))
    finally:
        s.stores.close()


def check_request(s, method, pairs, q):
    require(method == 'POST' and len(pairs) == len(q), 'association request is not a POST of distinct arguments', pairs=pairs)
    require(q.get('openid.mode') == 'associate', 'not an association request', q=q)
    require((q.get('openid.ns') == OPENID2) == s.v2 and (s.v2 or 'openid.ns' not in q), 'request in another protocol version', q=q)
    st = q.get('openid.session_type')
    if s.v2:
        require(st is not None, 'request without session type', q=q)
    names = {'openid.mode', 'openid.ns', 'openid.assoc_type', 'openid.session_type'}
    if st and st.startswith('DH'):
        names |= {'openid.dh_consumer_public', 'openid.dh_modulus', 'openid.dh_gen'}
        pub = int.from_bytes(base64.b64decode(q['openid.dh_consumer_public'], validate=True), 'big')
        require(1 < pub < DEFAULT_P - 1, 'unusable public key sent', pub=pub)
        require('openid.dh_modulus' not in q, 'default modulus sent', q=q)
    require(set(q) <= names, 'request with other arguments', q=q)


def real_pair(rng, ctx):
    """Real consumer against the real server: both hold the same key afterwards."""
    stores = Stores()
    try:
        net = Net()
        op = SimOP(net, 'http://op.example.com/x', stores.make(rng.choice(['memory', 'file', 'sqlite'])))
        op_types = rng.choice([None, [rng.choice(PAIRS)], rng.sample(PAIRS, 2), PAIRS])
        if op_types is not None:
            op.server.negotiator.setAllowedTypes(op_types)
        rp_types = rng.choice([None, [rng.choice(PAIRS)], rng.sample(PAIRS, 2), PAIRS])
        v2 = rng.random() < .6
        user = 'http://joe.example.com/'
        net.page(user, xrds([dict(types=[T_20 if v2 else T_11], uris=[(op.endpoint, None)], local_id=None)]),
                 {'content-type': 'application/xrds+xml'})
        store = stores.make(rng.choice(['memory', 'file', 'sqlite']))
        rp = RP(store, 'http://rp.example.com/', 'http://rp.example.com/cb', rp_types)
        _, args, req = rp.begin('s', user)
        ctx.event('started')
        offered = PAIRS if op_types is None else op_types
        wanted = PAIRS if rp_types is None else rp_types
        first = wanted[0]
        expect = first if first in offered else offered[0] if v2 and offered[0] in wanted else None
        n = len([x for x in net.log if x[0] == 'POST'])
        require(n <= 2, 'more than two association requests', n=n)
        handle = args.get('openid.assoc_handle')
        if expect is None:
            require(handle is None, 'association although no common pair', offered=offered, wanted=wanted, handle=handle)
            ctx.event('assoc_refused')
        else:
            require(handle is not None, 'no association although a common pair exists', offered=offered, wanted=wanted)
            a = store.getAssociation(op.endpoint, handle)
            require(a is not None and a.assoc_type == expect[0], 'stored association differs', want=expect)
            ctx.event('assoc_used')
        d = op.authenticate(args, {user})
        if handle is not None:
            require(dict(d[1])['openid.assoc_handle'] == handle, 'provider does not know the association', handle=handle)
        resp = rp.complete('s', d[1])
        require(resp.status == 'success', 'login fails: %s' % getattr(resp, 'message', None))
        ctx.state('pair', v2, tuple(offered), tuple(wanted), expect)
    finally:
        stores.close()


SCENARIOS = [
    ('negotiate', negotiate, 1200, 24000),
    ('lifetimes', lifetimes, 600, 12000),
    ('real_pair', real_pair, 300, 5000),
]
