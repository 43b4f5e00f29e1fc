"""C01: a relying party accepts only what the authoritative provider asserted."""
import base64
import hashlib
import hmac
import os
from urllib.parse import parse_qsl, urldefrag

from openid.association import Association
from openid.consumer.consumer import SUCCESS
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.urinorm import urinorm

from lib import gen, refurl
from lib.core import require
from lib.vclock import clock
from lib.world import (OPENID2, RP, T_10, T_11, T_20, T_SERVER, Keyed, Net, SimOP, Stores, assertion, html_page, kv_bytes, nonce_at, ref_sig,
                       url_args, xrds)

PROP = 'C01'
TECHNIQUE = 'runtime monitoring: online oracle comparing every completion with the log of assertions really issued, attacker workloads'
LEVEL_NOTE = ('Every completion in randomly generated multi-party histories on the real consumer and server is judged by an independent '
              'model of who may assert what; no exhaustive coverage. Trusts HMAC/DH hardness and the in-process network.')
RULE = ('a case is one history in a simulated network (honest providers on the real server, a malicious provider, identity '
        'pages, one relying party on the real consumer); counted distinct: (protocol, discovery kind, store, session state, '
        'attack kind, altered fields, outcome) of one completion judged against the log of assertions really issued')
NEED = {'neighbours accepted': 800, 'neighbours refused': 2000, 'genuine_success': 40, 'attack_judged': 400, 'attack_openid1': 40}
ASSUMPTIONS = ['the attacker does not break HMAC, does not control DNS or the honest hosts',
               'honest providers assert only identifiers owned by the logged-in user']


class Evil(object):
    """A malicious provider: shares real associations with the relying party under handles of its choice, knows
    its own keys, says is_valid:true to everything and tries to invalidate other handles."""

    def __init__(self, net, endpoint, rng):
        self.endpoint = endpoint
        self.rng = rng
        self.keys = {}
        self.next_handle = None
        self.invalidate = None
        net.add(endpoint, self.handle)

    def handle(self, method, url, body, headers):
        q = dict(parse_qsl((body or b'').decode('utf-8'), keep_blank_values=True))
        if q.get('openid.mode') == 'associate':
            handle = self.next_handle or 'evil-%d' % len(self.keys)
            v2 = q.get('openid.ns') == OPENID2
            atype = q.get('openid.assoc_type', 'HMAC-SHA1')
            secret = bytes(self.rng.randrange(256) for _ in range(20 if atype == 'HMAC-SHA1' else 32))
            self.keys[handle] = (atype, secret)
            out = [('assoc_handle', handle), ('assoc_type', atype), ('expires_in', '1209600')]
            st = q.get('openid.session_type', '')
            if st.startswith('DH-'):
                p, g = DEFAULT_P, 2
                a = self.rng.randrange(2, p - 1)
                their = int.from_bytes(base64.b64decode(q['openid.dh_consumer_public']), 'big')
                shared = btwoc(pow(their, a, p))
                dig = (hashlib.sha1 if st == 'DH-SHA1' else hashlib.sha256)(shared).digest()
                out += [('session_type', st), ('dh_server_public', base64.b64encode(btwoc(pow(g, a, p))).decode()),
                        ('enc_mac_key', base64.b64encode(bytes(x ^ y for x, y in zip(dig, secret))).decode())]
            else:
                if v2:
                    out.append(('session_type', 'no-encryption'))
                out.append(('mac_key', base64.b64encode(secret).decode()))
            if v2:
                out.insert(0, ('ns', OPENID2))
            return 200, {}, kv_bytes(out)
        out = [('ns', OPENID2), ('is_valid', 'true')]
        if self.invalidate:
            out.append(('invalidate_handle', self.invalidate))
        return 200, {}, kv_bytes(out)


def btwoc(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, 'big')
    return b


DEFAULT_P = int('155172898181473697471232257763715539915724801966915404479707795314057629378541917580651227423698188993727816'
                '152646631438561595825688188889951272158842675419950341258706556549803580104870537681476726513255747040765857'
                '479291291572334510643245094715007229621094194349783925984760375594985848253359305585439638443')


class World(object):
    def __init__(self, rng):
        self.rng = rng
        self.stores = Stores()
        self.net = Net()
        kinds = ['memory', 'file', 'sqlite']
        self.good = SimOP(self.net, 'http://good.example.com/op', self.stores.make(rng.choice(kinds)))
        self.other = SimOP(self.net, 'https://other.example.org/endpoint', self.stores.make(rng.choice(kinds)))
        self.evil = Evil(self.net, 'http://evil.example.net/op', rng)
        self.truth = {}
        self.kind = {}
        self.rp_kind = rng.choice(kinds + ['memory', 'none'])
        types = rng.choice([None, None, [('HMAC-SHA256', 'DH-SHA256')], [('HMAC-SHA1', 'no-encryption')],
                            [('HMAC-SHA256', 'no-encryption')]])
        rt = rng.choice(['http://rp.example.com/cb', 'https://rp.example.com/cb?next=%2Fhome&x=', 'http://rp.example.com/a;b/cb'])
        self.rp = RP(self.stores.make(self.rp_kind), rt.split('/cb')[0].split('/a;b')[0] + '/', rt, types)

    def publish(self, url, services, kind=None):
        """services: list of (versions set of type URIs, op endpoint, local id or None)"""
        rng = self.rng
        kind = kind or rng.choice(['html', 'xrds', 'xrds-header', 'xrds-meta'])
        if kind == 'html' and any(T_SERVER in t or T_10 in t for t, _, _ in services):
            kind = 'xrds'
        doc = [dict(types=sorted(t), uris=[(u, None)], local_id=l, prio=i) for i, (t, u, l) in enumerate(services)]
        if kind == 'html':
            links = []
            seen = set()
            kept = []
            for t, u, l in services:
                vers = set()
                if T_20 in t and 2 not in seen:
                    seen.add(2)
                    vers.add(T_20)
                    links.append(('openid2.provider', u))
                    if l:
                        links.append(('openid2.local_id', l))
                if T_11 in t and 1 not in seen:
                    seen.add(1)
                    vers.add(T_11)
                    links.append(('openid.server', u))
                    if l:
                        links.append(('openid.delegate', l))
                kept.append((vers, u, l))
            services = kept
            self.net.page(url, html_page(links))
        elif kind == 'xrds':
            self.net.page(url, xrds(doc), {'content-type': 'application/xrds+xml'})
        else:
            loc = 'http://docs.example.com/%s' % hashlib.md5(url.encode()).hexdigest()
            self.net.page(loc, xrds(doc), {'content-type': 'application/xrds+xml'})
            if kind == 'xrds-header':
                self.net.page(url, 'x', {'content-type': 'text/html', 'x-xrds-location': loc})
            else:
                self.net.page(url, html_page([], [('X-XRDS-Location', loc)]))
        self.truth[url] = services
        self.kind[url] = kind

    def genuine(self, query, resp):
        """Was this success really asserted by an authoritative provider?"""
        v2 = query.get('openid.ns') == OPENID2
        ident = resp.identity_url
        if ident is None:
            return True
        base = ident.partition('#')[0]
        for op in (self.good, self.other):
            for r in op.issued:
                keys = ['openid.identity', 'openid.return_to']
                # version 1 messages do not sign their namespace: absent and explicit ones mean the same
                if (r.get('openid.ns') == OPENID2) != v2:
                    continue
                if v2:
                    keys += ['openid.claimed_id', 'openid.op_endpoint', 'openid.response_nonce']
                if any(r.get(k) != query.get(k) for k in keys):
                    continue
                if v2 and query.get('openid.claimed_id') != ident:
                    continue
                for types, uri, local in self.truth.get(base, ()):
                    if uri != op.endpoint:
                        continue
                    if v2 and not (T_20 in types):
                        continue
                    if not v2 and not (T_11 in types or T_10 in types):
                        continue
                    if (local or base) == urldefrag(query['openid.identity'])[0] or \
                            (local is None and query['openid.identity'] == ident) or local == query['openid.identity']:
                        return True
        # the attacker's own pages: it may say anything about its own identifiers
        if base.startswith('http://evil.example.net/'):
            for types, uri, local in self.truth.get(base, ()):
                if uri == self.evil.endpoint:
                    return True
        return False


TYPESETS = [{T_20}, {T_11}, {T_20, T_11}, {T_10}, {T_20, T_11, T_10}]


def build(rng):
    w = World(rng)
    users = {}
    for name, op in (('alice', w.good), ('mallory', w.good), ('bob', w.other)):
        url = 'http://%s.example.com/' % name if rng.random() < .5 else 'http://ids.example.com/%s' % name
        types = rng.choice(TYPESETS)
        local = rng.choice([None, None, op.endpoint.rsplit('/', 1)[0] + '/users/' + name])
        services = [(types, op.endpoint, local)]
        if rng.random() < 0.25:
            # a second provider, with another local id
            o2 = w.other if op is w.good else w.good
            services.append((rng.choice(TYPESETS), o2.endpoint, 'http://second.example.com/' + name))
        w.publish(url, services)
        owned = {url if local is None else local, 'http://second.example.com/' + name}
        users[name] = dict(url=url, op=op, types=types, local=local, owned=owned,
                           second='http://second.example.com/' + name)
    # provider identifier page
    w.publish('http://good.example.com/', [({T_SERVER}, w.good.endpoint, None)], 'xrds')
    # the attacker's own identity, and one that redirects to alice
    w.publish('http://evil.example.net/me', [(rng.choice(TYPESETS), w.evil.endpoint, None)])
    w.net.redirect('http://evil.example.net/redir', users['alice']['url'])
    return w, users


def login(w, u, session, identifier=None, immediate=False, select=None):
    """One honest login: returns (delivery url, args) of the response."""
    ep, args, req = w.rp.begin(session, identifier or u['url'], immediate=immediate)
    ops = {op.endpoint: op for op in (w.good, w.other)}
    declared = [x[1] for x in w.truth[identifier or u['url']]]
    require(ep in declared, 'request sent to another provider than declared', endpoint=ep, user=u['url'])
    kw = {}
    if select:
        kw = dict(identity=select[0], claimed_id=select[1])
    return ops[ep].authenticate(args, u['owned'], **kw)


def expect_success(w, session, delivery, ident, ctx, what):
    url, args = delivery
    resp = w.rp.complete(session, args, url if w.rng.random() < .5 else None)
    require(resp.status == SUCCESS, 'genuine fresh response refused: %s' % getattr(resp, 'message', None),
            what=what, status=resp.status, args=dict(args), rp_store=w.rp_kind)
    require(resp.identity_url == ident, 'wrong identity reported', expected=ident, got=resp.identity_url)
    require(w.genuine(dict(args), resp), 'harness: genuine response not recognised')
    ctx.event('genuine_success')
    return resp


def honest(rng, ctx):
    """Positive half: everything genuine is accepted, with exactly the asserted identifier."""
    w, users = build(rng)
    try:
        for _ in range(rng.randint(1, 4)):
            u = users[rng.choice(sorted(users))]
            s = rng.choice(['s1', 's2'])
            mode = rng.choice(['plain', 'plain', 'select', 'fragment', 'lost-session', 'direct'])
            v2 = T_20 in u['types']
            if mode == 'select' and u['op'] is w.good and v2:
                local = u['local'] or u['url']
                frag = rng.choice(['', '#new'])
                d = login(w, u, s, 'http://good.example.com/', select=(local, u['url'] + frag))
                expect_success(w, s, d, u['url'] + frag, ctx, mode)
            elif mode == 'lost-session':
                d = login(w, u, s)
                w.rp.sessions[s] = {}
                expect_success(w, s, d, u['url'], ctx, mode)
            elif mode == 'direct':
                # the session remembers another identifier's endpoint
                d = login(w, u, s)
                try:
                    w.rp.begin(s, 'http://evil.example.net/me')
                except Exception:
                    pass
                if v2:
                    expect_success(w, s, d, u['url'], ctx, mode)
            else:
                d = login(w, u, s)
                expect_success(w, s, d, u['url'], ctx, mode)
            ctx.state('honest', mode, v2, u['local'] is None, w.kind[u['url']], w.rp_kind, bool(w.rp.types))
            clock.advance(rng.choice([0, 1, 10, 600]))
    finally:
        w.stores.close()


def sign_with(evil, args, handle):
    atype, secret = evil.keys[handle]
    args = dict(args)
    args['openid.sig'] = ref_sig(atype, secret, args)
    return args


V2_SIGNED = 'op_endpoint,claimed_id,identity,return_to,response_nonce,assoc_handle'


def nonce(rng):
    from openid.store.nonce import mkNonce
    return mkNonce(int(clock.now)) + gen.word(rng, 0, 4)


def judge(w, session, args, ctx, kind, detail=()):
    """Complete with attacker-made arguments and compare with the log of real assertions."""
    args = dict(args)
    url = w.rp.return_to
    had = bool(w.rp.session(session))
    resp = w.rp.complete(session, args, url)
    ok = resp.status == SUCCESS
    if ok:
        require(w.genuine(args, resp), 'success for something no authoritative provider asserted',
                attack=kind, detail=list(detail), identity=resp.identity_url, args=args,
                issued=[op.issued[-3:] for op in (w.good, w.other)], truth={k: repr(v) for k, v in w.truth.items()})
    v2 = args.get('openid.ns') == OPENID2
    ctx.event('attack_judged')
    if not v2:
        ctx.event('attack_openid1')
    ctx.event('attack_success_legit' if ok else 'attack_refused')
    ctx.state(kind, detail, v2, w.rp_kind, had, resp.status)
    return ok


def evil_assertions(rng, ctx):
    """The malicious provider signs claims about identifiers it does not own."""
    w, users = build(rng)
    try:
        s = 'victim'
        a = users['alice']
        # real associations with the honest provider and the malicious one, handles colliding on request
        d = login(w, a, s)
        good_handle = dict(d[1])['openid.assoc_handle']
        if rng.random() < .5:
            w.evil.next_handle = good_handle
        w.evil.invalidate = rng.choice([None, good_handle])
        try:
            w.rp.begin(rng.choice([s, 'other']), 'http://evil.example.net/me')
        except Exception:
            pass
        if not w.evil.keys:
            w.evil.keys['evil-x'] = ('HMAC-SHA1', b'0' * 20)
        handle = rng.choice(sorted(w.evil.keys))
        if rng.random() < .3:
            w.rp.begin(s, a['url'])
        if rng.random() < .2:
            w.rp.sessions[s] = {}
        for _ in range(rng.randint(2, 6)):
            victim = rng.choice([a, a, users['bob']])
            local = victim['local'] or victim['url']
            claimed = rng.choice([victim['url']] * 4 + [victim['url'] + '#x', 'http://evil.example.net/me',
                                                        'http://evil.example.net/redir', victim['url'].upper()])
            ident = rng.choice([local] * 4 + ['http://evil.example.net/me', victim['url'], victim['second']])
            if rng.random() < .65:
                args = {'openid.ns': OPENID2, 'openid.mode': 'id_res', 'openid.claimed_id': claimed, 'openid.identity': ident,
                        'openid.op_endpoint': rng.choice([w.evil.endpoint, w.good.endpoint, w.other.endpoint]),
                        'openid.return_to': w.rp.return_to, 'openid.response_nonce': nonce(rng),
                        'openid.assoc_handle': rng.choice([handle, handle, good_handle, 'unknown']),
                        'openid.signed': V2_SIGNED}
                r = rng.random()
                if r < .2:
                    drop = rng.choice(V2_SIGNED.split(','))
                    args['openid.signed'] = ','.join(x for x in V2_SIGNED.split(',') if x != drop)
                elif r < .3:
                    args.pop('openid.' + rng.choice(['claimed_id', 'identity', 'op_endpoint', 'response_nonce']))
            else:
                ret = w.rp.return_to
                ret += ('&' if '?' in ret else '?') + 'janrain_nonce=' + nonce(rng).replace(':', '%3A')
                if rng.random() < .6:
                    from urllib.parse import quote
                    ret += '&openid1_claimed_id=' + quote(claimed, '')
                args = {'openid.mode': 'id_res', 'openid.identity': ident, 'openid.return_to': ret,
                        'openid.assoc_handle': rng.choice([handle, handle, good_handle, 'unknown']),
                        'openid.signed': rng.choice(['identity,return_to', 'identity,return_to', 'mode,identity,return_to', 'return_to'])}
                if rng.random() < .2:
                    args['openid.ns'] = rng.choice(['http://openid.net/signon/1.0', 'http://openid.net/signon/1.1'])
                    if rng.random() < .5:
                        args['openid.op_endpoint'] = w.evil.endpoint
                args.update(parse_qsl(ret.split('?', 1)[1], keep_blank_values=True))
            if args['openid.assoc_handle'] in w.evil.keys and all(
                    'openid.' + k in args for k in args['openid.signed'].split(',')):
                args = sign_with(w.evil, args, args['openid.assoc_handle'])
            else:
                k = sorted(w.evil.keys)[0]
                args['openid.sig'] = ref_sig(*(w.evil.keys[k] + (args,)))
            if '?' in w.rp.return_to and 'openid.ns' in args:
                args.update(parse_qsl(w.rp.return_to.split('?', 1)[1], keep_blank_values=True))
            judge(w, s, args, ctx, 'evil', (claimed == victim['url'], ident == local,
                                            args.get('openid.op_endpoint') == w.evil.endpoint,
                                            args['openid.assoc_handle'] in w.evil.keys,
                                            args['openid.assoc_handle'] == good_handle, args['openid.signed']))
        # the honest user can still log in with the association in place
        d = login(w, a, 'fresh')
        expect_success(w, 'fresh', d, a['url'], ctx, 'after attack')
    finally:
        w.stores.close()


def crafted_requests(rng, ctx):
    """Mallory, an honest provider's user, crafts requests so that the provider asserts mallory's identity next to
    somebody else's claimed identifier, or asks one provider about identifiers served by another."""
    w, users = build(rng)
    try:
        a, m, b = users['alice'], users['mallory'], users['bob']
        s = 's'
        for _ in range(rng.randint(1, 4)):
            start = rng.choice([a, m, b])
            ep, args, req = w.rp.begin(s, start['url'])
            op = rng.choice([start['op'], w.good, w.other])
            who = rng.choice([m, m, b])
            mine = sorted(who['owned'])[0]
            kind = rng.choice(['claimed', 'identity', 'both', 'cross'])
            if kind in ('identity', 'both', 'cross'):
                args['openid.identity'] = mine
            if kind in ('claimed', 'both') and args.get('openid.ns') == OPENID2:
                args['openid.claimed_id'] = rng.choice([a['url'], b['url'], a['url'] + '#f'])
            if rng.random() < .3:
                args.pop('openid.assoc_handle', None)
            r = op.authenticate(args, who['owned'])
            if dict(r[1]).get('openid.mode') != 'id_res' or 'openid.sig' not in dict(r[1]):
                ctx.event('denied_by_provider')
                continue
            if rng.random() < .3:
                w.rp.sessions[s] = {}
            elif rng.random() < .3:
                w.rp.begin(s, rng.choice([a, b])['url'])
            judge(w, s, r[1], ctx, 'crafted', (kind, op is start['op']))
    finally:
        w.stores.close()


MUTABLE = ['claimed_id', 'identity', 'op_endpoint', 'return_to', 'response_nonce', 'assoc_handle', 'signed', 'sig', 'ns', 'mode',
           'invalidate_handle']


def tamper(rng, ctx):
    """Genuine responses altered or recombined in transit."""
    w, users = build(rng)
    try:
        pool = []
        for i in range(rng.randint(2, 4)):
            u = users[rng.choice(sorted(users))]
            pool.append((u, dict(login(w, u, 's%d' % i)[1])))
        for _ in range(rng.randint(2, 6)):
            i = rng.randrange(len(pool))
            u, args = pool[i]
            args = dict(args)
            other_u, other = rng.choice(pool)
            changed = []
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                f = rng.choice(MUTABLE)
                k = 'openid.' + f
                r = rng.random()
                if r < .15:
                    args.pop(k, None)
                    changed.append((f, 'drop'))
                elif r < .5 and k in other:
                    args[k] = other[k]
                    changed.append((f, 'swap'))
                elif f == 'signed' and k in args:
                    items = args[k].split(',')
                    op_ = rng.choice(['remove', 'dup', 'shuffle', 'add'])
                    if op_ == 'remove':
                        items.remove(rng.choice(items))
                    elif op_ == 'dup':
                        items.append(rng.choice(items))
                    elif op_ == 'shuffle':
                        rng.shuffle(items)
                    else:
                        items.append('nothere')
                    args[k] = ','.join(items)
                    changed.append((f, op_))
                elif f == 'sig' and k in args:
                    sig = args[k]
                    args[k] = rng.choice(['', sig[:-1], sig[:-4], sig + 'A', sig.lower(), sig[:1], sig.swapcase(), '=', sig.rstrip('='),
                                          base64.b64encode(b'\0' * 20).decode(), sig + '\n', ' ' + sig])
                    changed.append((f, 'forge'))
                elif f in ('claimed_id', 'identity'):
                    v = users[rng.choice(sorted(users))]
                    args[k] = rng.choice([v['url'], v['local'] or v['url'], v['url'] + '#x', args.get(k, 'x') + '/'])
                    changed.append((f, 'other-id'))
                elif f == 'op_endpoint':
                    args[k] = rng.choice([w.good.endpoint, w.other.endpoint, w.evil.endpoint])
                    changed.append((f, 'other-op'))
                elif f == 'ns':
                    if rng.random() < .5:
                        args.pop(k, None)
                    else:
                        args[k] = rng.choice([OPENID2, 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0'])
                    changed.append((f, 'ns'))
                elif f == 'mode':
                    args[k] = rng.choice(['id_res', 'cancel', 'setup_needed', 'check_authentication', 'error'])
                    changed.append((f, 'mode'))
                elif f == 'response_nonce':
                    args[k] = nonce(rng)
                    changed.append((f, 'nonce'))
                elif f == 'assoc_handle':
                    args[k] = rng.choice(['unknown', '', args.get(k, '') + 'x'])
                    changed.append((f, 'handle'))
                elif f == 'invalidate_handle':
                    args[k] = args.get('openid.assoc_handle', 'x')
                    changed.append((f, 'set'))
                else:
                    args[k] = args.get(k, '') + '&x=1'
                    changed.append((f, 'append'))
            # which fields the response's provider really covered; untouched ones may legitimately still pass
            orig = pool[i][1]
            covered = orig.get('openid.signed', '').split(',')
            broken = [f for f in covered if args.get('openid.' + f) != orig.get('openid.' + f)] or \
                args.get('openid.signed') != orig.get('openid.signed') or \
                args.get('openid.sig') != orig.get('openid.sig') or \
                args.get('openid.assoc_handle') != orig.get('openid.assoc_handle')
            sess = 's%d' % i if rng.random() < .7 else 'none'
            before = args.get('openid.sig'), args.get('openid.signed')
            ok = judge(w, sess, args, ctx, 'tamper', tuple(sorted(changed)))
            if ok:
                require(not broken or any(
                    all(args.get('openid.' + f) == r.get('openid.' + f) for f in r['openid.signed'].split(','))
                    and r['openid.sig'] == args.get('openid.sig') and r['openid.signed'] == args.get('openid.signed')
                    for op in (w.good, w.other) for r in op.issued),
                    'altered response accepted', changed=changed, args=args, orig=orig)
    finally:
        w.stores.close()


def forged_stateless(rng, ctx):
    """Nothing but a well-formed claim naming the honest provider, with an unknown handle: the provider itself must be
    asked and say yes."""
    w, users = build(rng)
    try:
        a = users['alice']
        v2 = T_20 in a['types']
        local = a['local'] or a['url']
        answers = rng.choice([b'is_valid:false\n', b'', b'ns:http://specs.openid.net/auth/2.0\nis_valid:TRUE\n', b'is_valid:true \nx:y\n',
                              b'is_valid\n', b'is_valid: false\nis_valid:false\n', b'error:no\n', b'is_valid:1\n', b'is_valid:yes\n',
                              b'<html>is_valid:true</html>', b'is_valid:truefalse\n'])
        status = rng.choice([200, 200, 200, 400, 500, 404, 302])
        body = answers
        if rng.random() < .2:
            body, status = b'is_valid:true\n', rng.choice([500, 404, 400, 403, 201, 203, 204, 205, 207, 301, 304])
        w.net.add(w.good.endpoint, lambda m, u, b, h: (status, {}, body))
        with_session = rng.random() < .5
        if with_session:
            w.rp.begin('s', a['url'])
        ret = w.rp.return_to
        if v2:
            args = {'openid.ns': OPENID2, 'openid.mode': 'id_res', 'openid.claimed_id': a['url'], 'openid.identity': local,
                    'openid.op_endpoint': w.good.endpoint, 'openid.return_to': ret, 'openid.response_nonce': nonce(rng),
                    'openid.assoc_handle': 'h', 'openid.signed': V2_SIGNED, 'openid.sig': 'AAAA'}
        else:
            ret += ('&' if '?' in ret else '?') + 'janrain_nonce=' + nonce(rng).replace(':', '%3A') + '&openid1_claimed_id=' + a['url']
            args = {'openid.mode': 'id_res', 'openid.identity': local, 'openid.return_to': ret, 'openid.assoc_handle': 'h',
                    'openid.signed': 'identity,return_to', 'openid.sig': 'AAAA'}
        if '?' in ret:
            args.update(parse_qsl(ret.split('?', 1)[1], keep_blank_values=True))
        good = status in (200, 206) and any(l.strip().split(b':', 1)[0].strip() == b'is_valid' and l.split(b':', 1)[1].strip() == b'true'
                                            for l in body.split(b'\n') if b':' in l)
        resp = w.rp.complete('s', args)
        ctx.event('attack_judged')
        if not v2:
            ctx.event('attack_openid1')
        ctx.state('stateless', v2, status, body, with_session, resp.status, w.rp_kind)
        if resp.status == SUCCESS:
            require(good, 'success although the provider did not confirm', status=status, body=repr(body), args=args)
    finally:
        w.stores.close()


# --- neighbours: everything matches but for one small difference -----------------------------------------

def twist(rng, url):
    """A similar address that is another one."""
    for _ in range(30):
        head, sep, rest = url.partition('://')
        host, slash, path = rest.partition('/')
        out = rng.choice([
            url + 'x', url[:-1], url + '/', url.rstrip('/'), url + '?', url + '?x=1', url.partition('?')[0], url + '&y', {'http': 'https', 'https': 'http'}.get(head, head + 's') + sep + rest,
            head + sep + host + ':8080' + slash + path, head + sep + 'www.' + rest, head + sep + host + slash + path.swapcase(), head + sep + host + slash + path.upper(),
            head + sep + host + slash + path.capitalize(), head + sep + host + '.' + slash + path, url + '#', url + '#x', head + sep + host + slash + '/' + path, url.replace('/a', '/%2561', 1),
            head + sep + host + slash + path + '/.x', head + sep + host + '/', head + sep + 'u@' + rest, url + ';', url.replace('-', '_'), url + '%20', url.replace('e', '\u0435', 1)])
        if out == url or '://' not in out or out.endswith('://'):
            continue
        if refurl.canon(out) != refurl.canon(url):
            return out
    return url + 'zz'


NOT_SIGNON = ['http://specs.openid.net/auth/2.0/signon/', 'http://specs.openid.net/auth/2.1/signon', 'http://openid.net/signon/1.2', 'http://specs.openid.net/auth/2.0/SIGNON',
              'http://specs.openid.net/auth/2.0/return_to', 'https://specs.openid.net/auth/2.0/signon']


def plain(url):
    """Already in normal form, without a fragment, fit for discovery."""
    try:
        return '#' not in url and urinorm(url) == url
    except ValueError:
        return False


def near(rng, ctx):
    """Providers which sign anything; published and asserted information differ in one or two small details."""
    stores = Stores()
    try:
        net = Net(exact=True)
        kind = rng.choice(['memory', 'memory', 'file', 'sqlite', 'none'])
        store = stores.make(kind)
        base = rng.choice(['http://op.example.com/server', 'https://op.example.com/', 'http://op.example.com/a-b/Server?x=Y', 'http://op.example.com:8080/aServer/'])
        uris = [base]
        for _ in range(2):
            uris.append(twist(rng, rng.choice(uris)))
        uris = sorted(set(u for u in uris if '#' not in u))
        yes = {u: rng.random() < .5 for u in uris}
        ops = {}
        for u in uris:
            ops[u] = Keyed(net, u, lambda q, u=u: yes[u])
        user = rng.choice(['http://users.example.com/alice', 'https://alice.example.com/', 'http://users.example.com/a-l/Ice?x=y', 'http://users.example.com/a/'])
        ids = [user]
        for _ in range(2):
            ids.append(twist(rng, rng.choice(ids)))
        ids = sorted(set(ids))
        local = rng.choice(['http://op.example.com/~alice', 'alice', 'http://op.example.com/u?alice'])
        locals_ = [local, local + rng.choice(['x', '/', '#', '#a', ' ', '?']), local.upper(), local[:-1]] + [user]
        truth = {}

        def publish(u):
            services = []
            for _ in range(gen.bulk(rng, .03, 60) or rng.choice((1, 1, 2, 3)) if u == user else rng.choice((0, 1, 2))):
                types = set(rng.choice([{T_20}, {T_20}, {T_20, T_11}, {T_11}, {T_10}, {T_10, T_11}]))
                if rng.random() < .1:
                    types = {T_SERVER}
                elif rng.random() < .15:
                    types = {rng.choice(NOT_SIGNON)} | ({rng.choice([T_20, T_11])} if rng.random() < .5 else set())
                services.append((types, rng.choice(uris), rng.choice([None, None, local, local, rng.choice(locals_)])))
            truth[u] = services
            net.routes[u] = None
            doc = xrds([dict(types=sorted(t), uris=[(e, None)], local_id=l, prio=i) for i, (t, e, l) in enumerate(services)])
            net.page(u, doc, {'content-type': 'application/xrds+xml'})
            if u != user and rng.random() < .2 and user in truth:
                net.redirect(u, user)
                truth[u] = []

        for u in ids:
            if plain(u):
                publish(u)
        rp = RP(store, 'http://rp.example.com/', 'http://rp.example.com/cb')
        if store is not None:
            shared = {u: ops[u].share(store, rng, handle=rng.choice(['h', None, None]) and 'h%d' % len(u) if rng.random() < .7 else 'same') for u in uris}
        n = 0
        for _ in range(rng.randint(2, 5)):
            n += 1
            if n > 1 and rng.random() < .25:
                # the owner changes what is published
                publish(rng.choice([u for u in ids if plain(u)]))
                ctx.event('moved')
            v2 = rng.random() < .6
            about = rng.choice(ids) if rng.random() < .4 else user
            pool = [x for x in truth.get(about.partition('#')[0], ()) if (T_20 in x[0]) == v2] or truth.get(about.partition('#')[0]) or truth.get(user) or [(set(), base, None)]
            types, endpoint, lid = rng.choice(pool)
            claimed, ident = about, lid or about
            # one or two coordinates are replaced by neighbours
            changed = []
            for _ in range(rng.choice((0, 1, 1, 1, 2))):
                what = rng.choice(['claimed', 'identity', 'endpoint', 'fragment', 'key', 'list', 'identity'])
                changed.append(what)
                if what == 'claimed':
                    claimed = rng.choice(ids + [twist(rng, claimed)])
                elif what == 'identity':
                    ident = rng.choice(locals_ + ids + [claimed, twist(rng, ident) if '://' in ident else ident + 'x'])
                elif what == 'endpoint':
                    endpoint = rng.choice(uris)
                elif what == 'fragment':
                    claimed = claimed + '#' + rng.choice(['', 'f', 'new'])
            signer = rng.choice(uris) if 'key' in changed else endpoint
            stateless = store is None or rng.random() < .3
            handle = 'unknown-to-all' if stateless else shared[signer]
            args = assertion(v2, ops[endpoint], handle, claimed, ident, rp.return_to, nonce_at(clock.now, 'n%d' % n))
            lost = False
            if not v2 and rng.random() < .25:
                # nothing about the claimed identifier in the return address
                rt = args['openid.return_to']
                args['openid.return_to'] = rt = rt.partition('?')[0] + '?janrain_nonce=' + dict(url_args(rt))['janrain_nonce']
                args.pop('openid1_claimed_id')
                lost = True
            fields = args['openid.signed'].split(',')
            unsigned = None
            if 'list' in changed:
                must = [f for f in (['op_endpoint', 'claimed_id', 'identity', 'return_to', 'response_nonce', 'assoc_handle'] if v2 else ['identity', 'return_to'])]
                unsigned = rng.choice(must)
                i = fields.index(unsigned)
                other = rng.choice(['x' + unsigned, unsigned + 'x', 'e.' + unsigned, unsigned.upper(), unsigned + '.x', ' ' + unsigned, None, 'openid.' + unsigned])
                fields[i:i + 1] = [other] if other else []
                if other:
                    args['openid.' + other] = rng.choice([args['openid.' + unsigned], 'v'])
                args['openid.signed'] = ','.join(fields)
            if rng.random() < .03:
                # unusually long or many fields
                for i in range(rng.choice((1, 120))):
                    args['openid.x%d' % i] = gen.long_text(rng) if rng.random() < .02 or not i else 'v'
                    fields.append('x%d' % i)
                args['openid.signed'] = ','.join(fields)
                ctx.event('long')
            if stateless:
                args['openid.sig'] = 'c2lnbmF0dXJl'
            else:
                args['openid.sig'] = ref_sig(ops[signer].keys[handle][0], ops[signer].keys[handle][1], args)
            # what the session remembers
            begun = rng.choice([None, user, user, about])
            if rp.keep:
                rp.session('s').clear()
            else:
                rp.sessions = {}
            session = rp.session('s')
            if begun:
                try:
                    rp.begin('s', begun)
                except Exception:
                    begun = None
            # decision of the reference
            frag = claimed.partition('#')[0]
            if not v2 and lost:
                claimed = frag = remembered(session)
            right = []
            for t, e, l in truth.get(frag, ()):
                if (T_20 in t) if v2 else (T_11 in t or T_10 in t):
                    if (not v2 or e == endpoint) and (l or frag) == ident:
                        right.append(e)
            if unsigned is not None:
                right = []
            good = []
            for e in right:
                if stateless or handle not in ops[e].keys:
                    if yes[e]:
                        good.append(e)
                elif args['openid.sig'] == ref_sig(ops[e].keys[handle][0], ops[e].keys[handle][1], args):
                    good.append(e)
            held = [(v, {k: list(x) if isinstance(x, list) else x for k, x in vars(v).items()}) for v in held_endpoints(session)]
            resp = rp.complete('s', args)
            ok = resp.status == SUCCESS
            require(all({k: list(x) if isinstance(x, list) else x for k, x in vars(v).items()} == old for v, old in held), 'a response changed what was discovered before',
                    now=repr([vars(v) for v, _ in held]), before=repr([o for _, o in held]), args=args)
            detail = dict(args=args, truth=repr(truth), changed=changed, signer=signer, stateless=stateless, says_yes=yes, message=getattr(resp, 'message', None) if not ok else '')
            if ok:
                require(good, 'success for something no authoritative provider asserted', **detail)
                require(resp.identity_url == claimed or not v2 and resp.identity_url == frag, 'another identifier is reported than asserted', got=resp.identity_url, **detail)
                ctx.event('neighbours accepted')
                if stateless:
                    # what the provider confirmed is what arrived
                    copies = [q for op in ops.values() for q in op.asked if q.get('openid.mode') == 'check_authentication']
                    same = {'openid.' + f: args.get('openid.' + f) for f in fields + ['signed', 'sig', 'assoc_handle'] if f != 'mode' and 'openid.' + f in args}
                    require(any(all(q.get(k) == v for k, v in same.items()) for q in copies), 'the provider confirmed something else than what arrived', copies=str(copies)[-3000:], **detail)
                    ctx.event('confirmed')
            else:
                if good and set(good) == set(right) and '#' not in ident and ident.strip() == ident and (v2 or '#' not in (claimed or '')) and frag in truth:
                    require(False, 'a genuine assertion is refused', **detail)
                ctx.event('neighbours refused')
            ctx.state('near', v2, tuple(sorted(set(changed))), stateless, begun == frag, len(right), ok, unsigned)
    finally:
        stores.close()


def held_endpoints(session):
    """The endpoints a session holds, in whatever it keeps."""
    out, todo = [], list(session.values())
    while todo:
        v = todo.pop()
        if isinstance(v, OpenIDServiceEndpoint):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            todo.extend(v)
        elif hasattr(v, '__dict__') and not isinstance(v, type):
            todo.extend(vars(v).values())
    return out


def remembered(session):
    """The identifier the session's authentication was begun for."""
    for v in session.values():
        if isinstance(v, OpenIDServiceEndpoint):
            return v.claimed_id
    return None


SCENARIOS = [
    ('near', near, 5000, 60000),
    ('honest', honest, 800, 8000),
    ('evil_assertions', evil_assertions, 1800, 20000),
    ('crafted_requests', crafted_requests, 1000, 10000),
    ('tamper', tamper, 1800, 20000),
    ('forged_stateless', forged_stateless, 800, 6000),
]
