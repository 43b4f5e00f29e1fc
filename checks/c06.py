"""C06: completing an authentication always yields a definite, mode-true result."""
import pickle

from openid.consumer.consumer import CANCEL, FAILURE, SETUP_NEEDED, SUCCESS, Consumer

from lib import gen
from lib.assocserver import AssocServer
from lib.core import Violation, require
from lib.vclock import clock
from lib.world import (OPENID2, RP, T_10, T_11, T_20, T_SERVER, Keyed, Net, NetError, SimOP, Stores, assertion, kv_bytes, nonce_at, read_form,
                       xrds)

PROP = 'C06'
TECHNIQUE = 'runtime monitoring: totality and mode-table oracle on every completion under hostile arguments, pages and replies'
LEVEL_NOTE = ('Structured and random arguments, reachable session and store states and hostile network behaviour; each completion has to return the '
              'result its mode allows and clear the token. Random exploration with literals harvested from the code.')
RULE = ('a case is a set of completions; counted distinct: (mode, protocol, validity of the message, session state, store, network behaviour, '
        'result, head of the failure text)')
NEED = {'completed': 4000, 'success': 100, 'cancel': 200, 'setup_needed': 100, 'error_text': 100, 'failure': 1500, 'token_gone': 1000}

OP = 'http://op.example.com/x'
USER = 'http://joe.example.com/'
RT = 'http://rp.example.com/cb'
V1S = ['http://openid.net/signon/1.0', 'http://openid.net/signon/1.1']


class W(object):
    def __init__(self, rng):
        self.rng = rng
        self.stores = Stores()
        self.net = Net()
        self.kind = rng.choice(['memory', 'file', 'sqlite', 'none'])
        self.store = self.stores.make(self.kind)
        self.op = Keyed(self.net, OP, lambda q: rng.random() < .5)
        self.types = rng.choice([[T_20], [T_11], [T_20, T_11], [T_10], [T_SERVER]])
        self.page = xrds([dict(types=self.types, uris=[(OP, None)], local_id=None)])
        self.net.page(USER, self.page, {'content-type': 'application/xrds+xml'})
        self.handle = self.op.share(self.store, rng) if self.store is not None else 'h'
        self.old = self.op.share(self.store, rng, lifetime=5, issued=clock.now - 100) if self.store is not None else 'h2'
        self.n = 0

    def hostile_net(self):
        rng = self.rng
        what = rng.choice(['none', 'none', 'down', 'status', 'garbage', 'html', 'reply', 'empty', 'redirect'])

        def boom(*a):
            raise NetError('connection refused')
        if what == 'down':
            self.net.add(USER, boom)
            self.net.add(OP, boom)
        elif what == 'status':
            s = rng.choice([404, 500, 301, 204, 400])
            self.net.add(USER, lambda *a: (s, {}, b''))
            self.net.add(OP, lambda *a: (s, {}, b'is_valid:true\n'))
        elif what == 'garbage':
            b = rng.choice([b'', b'\x00\xff', b'<?xml version="1.0"?><x/>', b'<', b'\xef\xbb\xbf', b'<!DOCTYPE x [<!ENTITY a "b">]><x>&a;</x>'])
            self.net.add(USER, lambda *a: (200, {'content-type': rng.choice(['application/xrds+xml', 'text/html', ''])}, b))
            self.net.add(OP, lambda *a: (200, {}, b))
        elif what == 'html':
            self.net.page(USER, '<html><head><link rel="openid2.provider openid.server" href="%s"></head></html>' % OP)
        elif what == 'reply':
            b = rng.choice([b'is_valid:true\nns:bogus\n', b'is_valid:true\nns.a:x\nns.b:x\n', b'is_valid\n', b'is_valid:true', b':\n', b'a:b\n\n\nis_valid:true\n',
                            b'is_valid:true\ninvalidate_handle:' + self.handle.encode() + b'\n', b'\xff:\xfe\n', b'ns.openid:x\nis_valid:true\n',
                            b'mode:x\nns:' + OPENID2.encode() + b'\nis_valid:true\n'])
            s = rng.choice([200, 200, 206, 400])
            self.net.add(OP, lambda *a: (s, {}, b))
        elif what == 'empty':
            self.net.page(USER, xrds([]), {'content-type': 'application/xrds+xml'})
        elif what == 'redirect':
            self.net.redirect(USER, rng.choice([USER, 'http://other.example.com/']))
        return what


def token_keys(w, session, rng):
    """Start an authentication the normal way; returns the keys it put in the session."""
    before = set(session)
    state = rng.choice(['none', 'begun', 'begun', 'pickled', 'done'])
    if state != 'none':
        c = Consumer(session, w.store)
        try:
            req = c.begin(USER)
            if rng.random() < .5:
                req.redirectURL('http://rp.example.com/', RT)
        except Exception as e:
            raise Violation('begin failed: %s' % e)
        if state == 'done':
            c.complete({'openid.mode': 'cancel'}, RT)
        elif state == 'pickled':
            data = pickle.loads(pickle.dumps(dict(session)))
            session.clear()
            session.update(data)
    return state, set(session) - before


PROTO = ['mode', 'identity', 'claimed_id', 'return_to', 'assoc_handle', 'signed', 'sig', 'op_endpoint', 'response_nonce', 'invalidate_handle', 'error',
         'contact', 'reference', 'user_setup_url', 'error_code', 'is_valid', 'session_type', 'assoc_type', 'realm', 'trust_root']
MODES = ['id_res', 'cancel', 'error', 'setup_needed', 'checkid_setup', 'checkid_immediate', 'associate', 'check_authentication', '', 'invalid',
         'Cancel', 'ID_RES', 'id_res ', '__class__', 'complete', 'id-res', 'setup-needed', 'setup_needed ', ' id_res', 'id_res\n', 'idres', 'id.res', 'id_res,cancel', 'openid.id_res',
         'cancel ', 'cancelled', 'id_res\x00', '_id_res', 'id_res_', 'setup_need', 'Error', 'id_re\u017f', '\uff49d_res']


def any_value(rng):
    r = rng.random()
    if r < .3:
        return gen.text(rng, 0, 6, newline=True, nul=True)
    if r < .6:
        return gen.lit(rng)
    if r < .7:
        return gen.url(rng)
    return rng.choice(['', USER, RT, OP, OPENID2, 'x', '=foo', '@bar*baz', 'xri://=x', 'http://[::1', 'http://', '//', 'a:b', 'mode', 'identity,return_to', ',',
                       'signed,sig', 'http://\u2100.com/', 'http://a b/', 'http://xn--/', 'http://%zz/', '#', 'http://joe.example.com/#f',
                       'http://joe.example.com:99999/', 'http://joe.example.com:x/', '\x00'])


def base_args(w, rng):
    """A valid positive assertion."""
    w.n += 1
    v2 = rng.random() < .6
    h = rng.choice([w.handle, w.handle, w.old, 'unknown'])
    args = assertion(v2, w.op, h, USER, USER, RT, nonce_at(clock.now, 'q%d' % w.n))
    if h in w.op.keys:
        args = w.op.sign(args)
    else:
        args['openid.sig'] = 'AAAA'
    return args


def resign(w, rng, args):
    h = args.get('openid.assoc_handle')
    if h in w.op.keys and args.get('openid.signed') is not None:
        try:
            return w.op.sign(args)
        except Exception:
            pass
    return args


def check(w, rng, ctx, args, url, netkind, expect=None):
    session = w.session
    endpoint_before = dict(session)
    state, keys = token_keys(w, session, rng) if rng.random() < .6 else ('kept', set())
    token = [k for k in keys if k.endswith('last_token')] or [k for k in keys if 'service' not in k]
    mode = args.get('openid.mode')
    try:
        resp = Consumer(session, w.store).complete(dict(args), url)
    except Exception as e:
        raise Violation('complete raised %s: %s' % (type(e).__name__, e), args=args, url=url, state=state, net=netkind)
    ctx.event('completed')
    require(resp.status in (SUCCESS, FAILURE, CANCEL, SETUP_NEEDED), 'no definite result', status=repr(resp.status))
    ctx.event({SUCCESS: 'success', FAILURE: 'failure', CANCEL: 'cancel', SETUP_NEEDED: 'setup_needed'}[resp.status])
    for k in token:
        require(k not in session, 'token still in the session', key=k)
        ctx.event('token_gone')
    resp.getDisplayIdentifier()
    resp.identity_url
    # what the mode allows; messages with broken namespaces may always fail
    allowed = {'id_res': {SUCCESS, FAILURE, SETUP_NEEDED}, 'cancel': {CANCEL, FAILURE}, 'setup_needed': {SETUP_NEEDED, FAILURE}}.get(mode, {FAILURE})
    require(resp.status in allowed, 'result does not fit the mode', mode=mode, status=resp.status, args=args)
    ns = args.get('openid.ns')
    clean = (ns is None or ns == OPENID2 or ns in V1S) and not any(k.startswith('openid.ns.') for k in args)
    v2 = ns == OPENID2
    if clean:
        if mode == 'cancel':
            require(resp.status == CANCEL, 'cancel response not reported as cancel', status=resp.status, args=args)
        elif mode == 'error':
            require(resp.message == args.get('openid.error'), 'error text lost', want=args.get('openid.error'), got=resp.message)
            require(resp.contact == args.get('openid.contact') and resp.reference == args.get('openid.reference'), 'error contact or reference lost',
                    args=args, contact=resp.contact, reference=resp.reference)
            ctx.event('error_text')
        elif mode == 'setup_needed' and v2:
            require(resp.status == SETUP_NEEDED, 'setup-needed not reported', args=args)
            require(resp.setup_url == args.get('openid.user_setup_url'), 'setup address lost', got=resp.setup_url, args=args)
        elif mode == 'setup_needed':
            require(resp.status == FAILURE, 'setup_needed mode accepted in version 1', status=resp.status)
        elif mode == 'id_res':
            needed = not v2 and 'openid.user_setup_url' in args
            require((resp.status == SETUP_NEEDED) == needed, 'setup-needed wrong for a positive mode', status=resp.status, args=args)
            if needed:
                require(resp.setup_url == args['openid.user_setup_url'], 'setup address lost', got=resp.setup_url)
    if resp.status == FAILURE and mode == 'id_res':
        require(resp.message is None or isinstance(resp.message, str), 'failure message is no text', message=repr(resp.message))
    if expect is not None:
        require(resp.status == expect, 'wrong result', status=resp.status, want=expect, args=args, got=repr(getattr(resp, 'message', None)))
    ctx.state(mode if mode in MODES else 'other', v2, clean, state, w.kind, netkind, resp.status, str(getattr(resp, 'message', ''))[:24])
    return resp


def mutated(rng, ctx):
    w = W(rng)
    try:
        w.session = {}
        for _ in range(8):
            if w.kind != 'none':
                w.net.page(USER, w.page, {'content-type': 'application/xrds+xml'})
                w.net.add(OP, w.op.handle)
            args = base_args(w, rng)
            url = RT
            if rng.random() < .15:
                args['openid.mode'] = rng.choice(MODES)
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                k = rng.choice(['openid.' + p for p in PROTO] + ['janrain_nonce', 'openid1_claimed_id', 'openid.ns', 'openid.ns', gen.word(rng)])
                r = rng.random()
                if r < .3:
                    args.pop(k, None)
                elif k == 'openid.mode':
                    args[k] = rng.choice(MODES)
                elif k == 'openid.ns':
                    args[k] = rng.choice([OPENID2, '', 'x'] + V1S + [gen.lit(rng)])
                else:
                    args[k] = any_value(rng)
            if rng.random() < .15:
                a = rng.choice(['sreg', 'ax', 'mode', 'openid', 'sig', gen.word(rng, 1, 3), '', 'a.b', 'ns'])
                args['openid.ns.' + a] = rng.choice([OPENID2, 'http://openid.net/extensions/sreg/1.1', 'http://openid.net/sreg/1.0', 'x', '', gen.lit(rng)])
                args['openid.%s.x' % a] = 'y'
            if rng.random() < .15:
                url = any_value(rng)
            if rng.random() < .6:
                args = resign(w, rng, args)
            net = w.hostile_net() if rng.random() < .4 else 'none'
            # begin in token_keys needs a working page
            keep = dict(w.net.routes)
            w.net.page(USER, w.page, {'content-type': 'application/xrds+xml'})
            w.net.add(OP, w.op.handle)
            w.pre = keep
            check_with_net(w, rng, ctx, args, url, net, keep)
    finally:
        w.stores.close()


def check_with_net(w, rng, ctx, args, url, net, routes):
    """Begin on a working network, complete on the hostile one."""
    if rng.random() < .6:
        w.session.clear()
    state, keys = ('none', set())
    if rng.random() < .6:
        state, keys = token_keys(w, w.session, rng)
    w.net.routes = dict(routes)
    saved = globals()['token_keys']
    try:
        globals()['token_keys'] = lambda *a: (state, keys)
        check(w, rng, ctx, args, url, net)
    finally:
        globals()['token_keys'] = saved


def random_args(rng, ctx):
    w = W(rng)
    try:
        w.session = {}
        for _ in range(10):
            args = {}
            for _ in range(rng.randint(0, 8)):
                r = rng.random()
                if r < .6:
                    k = 'openid.' + rng.choice(PROTO)
                elif r < .7:
                    k = 'openid.' + gen.short_lit(rng)
                elif r < .8:
                    k = gen.text(rng, 0, 3)
                elif r < .9:
                    k = 'openid.ns' + rng.choice(['', '.', '.sreg', '.x', '.' + gen.word(rng, 1, 3)])
                else:
                    k = rng.choice(['openid', 'openid.', '.', 'openid..', 'openid.a.b.c', 'OPENID.mode', 'openid.ns.ns'])
                args[k] = any_value(rng)
            if rng.random() < .85:
                args['openid.mode'] = rng.choice(MODES)
            if rng.random() < .4:
                args['openid.ns'] = OPENID2
            url = rng.choice([RT, RT, any_value(rng)])
            check(w, rng, ctx, args, url, 'none')
    finally:
        w.stores.close()


def clean_modes(rng, ctx):
    """Well-formed responses of every mode, as real providers send them."""
    stores = Stores()
    try:
        net = Net()
        op = SimOP(net, OP, stores.make('memory'))
        types = rng.choice([[T_20], [T_11]])
        net.page(USER, xrds([dict(types=types, uris=[(OP, None)], local_id=None)]), {'content-type': 'application/xrds+xml'})
        kind = rng.choice(['memory', 'sqlite', 'none'])
        store = stores.make(kind)
        rp = RP(store, 'http://rp.example.com/', RT)
        for _ in range(3):
            immediate = rng.random() < .5
            allow = rng.random() < .4
            _, args, req = rp.begin('s', USER, immediate=immediate)
            d = op.authenticate(args, {USER}, allow=allow)
            resp = rp.complete('s', d[1], d[0])
            ctx.event('completed')
            want = SUCCESS if allow else SETUP_NEEDED if immediate else CANCEL
            require(resp.status == want, 'wrong result', want=want, status=resp.status, got=repr(getattr(resp, 'message', None)), args=dict(d[1]))
            ctx.event({SUCCESS: 'success', FAILURE: 'failure', CANCEL: 'cancel', SETUP_NEEDED: 'setup_needed'}[resp.status])
            if want == SETUP_NEEDED:
                require(resp.setup_url == dict(d[1]).get('openid.user_setup_url'), 'setup address lost', got=resp.setup_url)
                if types == [T_11]:
                    require(resp.setup_url, 'no setup address in version 1')
            if want != SUCCESS:
                require(resp.identity_url == USER, 'identity of the pending authentication lost', got=resp.identity_url)
            require(not [k for k in rp.session('s') if k.endswith('last_token')], 'token still in the session')
            ctx.event('token_gone')
            # an error answer
            text = gen.text(rng, 0, 5)
            _, args, req = rp.begin('s', USER)
            e = {'openid.mode': 'error', 'openid.error': text}
            if types == [T_20]:
                e['openid.ns'] = OPENID2
            resp = rp.complete('s', e)
            require(resp.status == FAILURE and resp.message == text, 'error text lost', want=text, got=resp.message)
            ctx.event('error_text')
            ctx.state('clean', types, kind, immediate, allow, resp.status)
    finally:
        stores.close()


SCENARIOS = [
    ('mutated', mutated, 6900, 34500),
    ('random_args', random_args, 3500, 17500),
    ('clean_modes', clean_modes, 2800, 14000),
]
