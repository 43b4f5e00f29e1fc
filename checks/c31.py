"""C31: the keys of associations stay between the parties that share them."""
import base64
import binascii
import logging
import pickle
import re
import traceback
import warnings
from urllib.parse import parse_qsl, quote

from cryptography.hazmat.backends.openssl import dh as backend_dh

from openid.server.server import ProtocolError

from lib import gen
from lib.core import require
from lib.world import Stores, kv_bytes
from checks import c30

PROP = 'C31'
TECHNIQUE = ('runtime monitoring: taint by value; every association key and Diffie-Hellman private number created during random histories is searched, in all usual encodings and in part, in '
             'everything the parties emit (wire traffic, addresses, forms, sessions, log records, warnings, errors, representations)')
LEVEL_NOTE = 'Random histories of whole systems with hostile requests and faulty associations; a key transformed by a one-way function is not recognized. Sampling.'
RULE = 'a case is a history; counted distinct: (association policies, stores, kinds of sinks seen, number of keys, faults)'
NEED = {'keys': 3000, 'private numbers': 1000, 'log records': 20000, 'wire': 8000, 'addresses': 4000, 'sessions': 8000, 'representations': 8000, 'errors': 400, 'clear keys delivered': 500,
        'encrypted keys delivered': 1000, 'faulty associations': 200, 'found where allowed': 500}
ASSUMPTIONS = ['the store is trusted with the keys', 'key-value documents on the wire are well-formed (malformed ones are quoted in debug messages)', 'parts of at least six bytes (four in handles) are recognized']

records = []


class Tap(logging.Handler):
    def emit(self, record):
        text = record.getMessage() + ' ' + repr(record.args)
        if record.exc_info:
            text += ''.join(traceback.format_exception(*record.exc_info))
        records.append(text)


def worker_init(ctx):
    logging.disable(logging.NOTSET)
    root = logging.getLogger('openid')
    root.setLevel(1)
    root.propagate = False
    root.handlers = [Tap(level=0)]
    warnings.simplefilter('always')
    warnings.showwarning = lambda message, *a, **k: records.append(str(message))
    real = backend_dh._DHParameters.generate_private_key

    def generate(self):
        key = real(self)
        numbers.append(key.private_numbers().x)
        return key
    backend_dh._DHParameters.generate_private_key = generate


numbers = []
W = 6


def traces(secret):
    """Byte strings and texts that give (a part of) the key away."""
    out = set()
    for i in range(0, len(secret) - W + 1):
        out.add(binascii.hexlify(secret[i:i + W]).decode())
    b64 = base64.b64encode(secret).decode()
    for i in range(0, len(secret) - W + 1, 3):
        out.add(b64[i // 3 * 4:i // 3 * 4 + 8])
    u64 = base64.urlsafe_b64encode(secret).decode()
    for i in range(0, len(secret) - W + 1, 3):
        out.add(u64[i // 3 * 4:i // 3 * 4 + 8])
    out.add(repr(secret[:W])[2:-1])
    out.add(repr(secret[-W:])[2:-1])
    out.add(str(int.from_bytes(secret, 'big')))
    out.add(quote(secret[:W]))
    out.add(secret.decode('latin-1')[:W])
    return out


class Watch(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.secrets = {}        # trace -> what it is
        self.long = []
        self.keys = 0
        self.kept = []           # everything emitted, to be searched again when further keys are known
        self.cleartext = set()
        self.sinks = set()

    def know(self, secret, what):
        if any(s == secret for s, _ in self.long):
            return
        self.long.append((secret, what))
        for t in traces(secret):
            self.secrets[t] = what

    def learn(self):
        while numbers:
            x = numbers.pop()
            self.know(x.to_bytes(x.bit_length() // 8 + 1, 'big').lstrip(b'\0'), 'the private number of a key exchange')
            self.ctx.event('private numbers')

    def emitted(self, sink, text):
        if isinstance(text, bytes):
            text = text.decode('latin-1')
        self.kept.append((sink, text))
        self.sinks.add(sink)
        self.ctx.event(sink)

    def judge(self):
        self.learn()
        everything = '\x00'.join(t for _, t in self.kept)
        low = everything.lower()
        for t, what in self.secrets.items():
            if t in everything or t in low:
                for sink, text in self.kept:
                    if t in text or t in text.lower():
                        require(False, '%s appears in %s' % (what, sink), trace=t, text=text[:600])


def wrap_store(store, watch, side):
    if store is None:
        return
    real = store.storeAssociation

    def store_association(server_url, assoc):
        watch.know(assoc.secret, 'an association key (%s)' % side)
        watch.ctx.event('keys')
        for token in re.findall('[A-Za-z0-9+/_-]{6,}=*', assoc.handle):
            for decode in (base64.b64decode, base64.urlsafe_b64decode, binascii.unhexlify):
                try:
                    part = decode(token)
                except ValueError:
                    continue
                require(len(part) < 4 or part not in assoc.secret, 'the handle contains a part of the key', handle=assoc.handle, key=repr(assoc.secret))
        watch.emitted('representations', repr(assoc) + str(assoc) + assoc.handle + assoc.assoc_type)
        return real(server_url, assoc)
    store.storeAssociation = store_association


class Provider(c30.Provider):
    watch = None
    fault = None

    def lose(self):
        c30.Provider.lose(self)
        wrap_store(self.store, self.watch, 'provider')

    def handle(self, method, url, body, headers):
        w = self.watch
        w.emitted('wire', url)
        w.emitted('wire', body or b'')
        status, rheaders, rbody = c30.Provider.handle(self, method, url, body, headers)
        w.emitted('wire', repr(rheaders))
        q = dict(parse_qsl((body or b'').decode('utf-8'), keep_blank_values=True))
        if q.get('openid.mode') == 'associate' and status == 200:
            pairs = [tuple(line.split(':', 1)) for line in rbody.decode('utf-8').split('\n') if line]
            d = dict(pairs)
            clear = d.get('session_type', '') in ('', 'no-encryption')
            if clear:
                require('mac_key' in d, 'no key in an association response', pairs=pairs)
                w.ctx.event('clear keys delivered')
                # this one place may hold it
                key = base64.b64decode(d['mac_key'])
                require(any(s == key for s, _ in w.long), 'the delivered key is not the one stored')
                w.ctx.event('found where allowed')
                w.emitted('wire', kv_bytes([p for p in pairs if p[0] != 'mac_key']))
                require(q.get('openid.session_type', '') in ('', 'no-encryption'), 'a key is sent in the clear although encryption was asked for', asked=q)
            else:
                w.ctx.event('encrypted keys delivered')
                w.emitted('wire', rbody)
            if self.fault and self.rng.random() < .7:
                w.ctx.event('faulty associations')
                k = self.fault
                if k == 'drop':
                    drop = self.rng.choice([p[0] for p in pairs])
                    pairs = [p for p in pairs if p[0] != drop]
                elif k == 'time':
                    pairs = [(a, self.rng.choice(['x', '-1', '', '1e99']) if a == 'expires_in' else b) for a, b in pairs]
                elif k == 'type':
                    pairs = [(a, self.rng.choice(['HMAC-SHA1', 'HMAC-SHA256', 'x']) if a == 'assoc_type' else b) for a, b in pairs]
                elif k == 'session':
                    pairs = [(a, self.rng.choice(['DH-SHA1', 'DH-SHA256', 'no-encryption', 'x']) if a == 'session_type' else b) for a, b in pairs]
                elif k == 'cut':
                    pairs = [(a, b[:-3] if a in ('mac_key', 'enc_mac_key') else b) for a, b in pairs]
                elif k == 'swap':
                    pairs = [({'mac_key': 'enc_mac_key', 'enc_mac_key': 'mac_key'}.get(a, a), b) for a, b in pairs]
                elif k == 'public':
                    pairs = [(a, self.rng.choice(['AAAA', 'x', '', 'AQ==']) if a == 'dh_server_public' else b) for a, b in pairs]
                rbody = kv_bytes([tuple(p) for p in pairs])
                if k == 'status':
                    status = self.rng.choice([400, 404, 500])
        else:
            w.emitted('wire', rbody)
        return status, rheaders, rbody


class System(c30.System):
    provider = Provider

    def __init__(self, rng, ctx, stores, watch):
        Provider.watch = watch
        c30.System.__init__(self, rng, ctx, stores)
        self.watch = watch
        for op in self.ops:
            op.fault = rng.choice([None, None, None, 'drop', 'time', 'type', 'session', 'cut', 'swap', 'public', 'status'])
        for site in self.sites:
            wrap_store(site.store, watch, 'relying party')
            site.dir = None

    def begin(self, *a, **k):
        login = c30.System.begin(self, *a, **k)
        w = self.watch
        w.emitted('addresses', repr(login.args))
        self.sessions()
        return login

    def answer(self, login, *a, **k):
        c30.System.answer(self, login, *a, **k)
        self.watch.emitted('addresses', login.delivery[0] + repr(login.delivery[1]))

    def complete(self, login):
        resp = c30.System.complete(self, login)
        if resp is not None:
            w = self.watch
            w.emitted('representations', '%r %s %r' % (resp, resp, sorted(vars(resp).items(), key=lambda i: i[0])))
            w.emitted('representations', repr([getattr(resp, n, None) for n in ('message', 'identity_url', 'signed_fields', 'setup_url')]))
            w.emitted('representations', pickle.dumps(resp))
        self.sessions()
        return resp

    def sessions(self):
        for site in self.sites:
            for s in site.sessions:
                self.watch.emitted('sessions', pickle.dumps(s))
                self.watch.emitted('sessions', repr({k: vars(v) if hasattr(v, '__dict__') else v for k, v in s.items()}))

    def hostile(self):
        """Requests and responses nobody honest sends."""
        rng, w = self.rng, self.watch
        op = rng.choice(self.ops)
        q = {'openid.mode': rng.choice(['check_authentication', 'checkid_setup', 'checkid_immediate', 'associate', 'x', ''])}
        handles = [p.handle for p in self.pending if p.handle] + [dict(p.delivery[1]).get('openid.assoc_handle', '') for p in self.pending if p.answered] + ['nobody']
        for k in rng.sample(['ns', 'assoc_handle', 'signed', 'sig', 'identity', 'claimed_id', 'return_to', 'realm', 'session_type', 'assoc_type', 'dh_consumer_public', 'dh_modulus', 'dh_gen',
                             'invalidate_handle', 'response_nonce'], rng.randint(0, 9)):
            q['openid.' + k] = rng.choice({'ns': ['http://specs.openid.net/auth/2.0'], 'assoc_handle': handles, 'invalidate_handle': handles, 'signed': ['mode,identity', 'sig', 'a\nb', ''],
                                           'session_type': ['no-encryption', 'DH-SHA1', 'DH-SHA256', '', 'x'], 'assoc_type': ['HMAC-SHA1', 'HMAC-SHA256', 'x'],
                                           'return_to': ['http://rp.example.com/', 'x']}.get(k, [gen.text(rng, 0, 4), 'AQ==', 'http://x.example.com/']))
        if rng.random() < .4:
            ready = [p for p in self.pending if p.answered]
            if ready:
                q = dict(rng.choice(ready).delivery[1])
                q['openid.mode'] = 'check_authentication'
                if rng.random() < .6:
                    k = rng.choice([k for k in q if k.startswith('openid.')])
                    q[k] = rng.choice(['', 'x', q[k] + 'x', 'a\nb'])
        try:
            r = op.server.decodeRequest(q)
            if r is not None and r.mode in ('check_authentication', 'associate'):
                response = op.server.handleRequest(r)
            elif r is not None:
                response = r.answer(rng.random() < .5)
            else:
                return
            web = op.server.encodeResponse(response)
            fields = web.body if isinstance(web.body, str) else web.body.decode('utf-8')
            lines = [line for line in fields.split('\n') if not (q['openid.mode'] == 'associate' and line.startswith('mac_key:'))]
            w.emitted('wire', '\n'.join(lines) + repr(web.headers))
        except Exception as e:
            w.emitted('errors', '%s %r %s' % (e, e.args, ''.join(traceback.format_exception(type(e), e, e.__traceback__))))
            if isinstance(e, ProtocolError):
                w.emitted('errors', e.encodeToKVForm() + (e.encodeToURL() if e.hasReturnTo() else ''))
        # and to the relying party
        site = rng.choice(self.sites)
        ready = [p for p in self.pending if p.answered]
        args = dict(rng.choice(ready).delivery[1]) if ready and rng.random() < .7 else dict(q)
        if args.get('openid.mode') == 'id_res' and rng.random() < .8:
            ks = [k for k in args if k.startswith('openid.')]
            args[rng.choice(ks)] = rng.choice(['', 'x', 'a\nb', 'http://rp.example.com/'])
        session = dict(rng.choice(site.sessions))
        resp = site.consumer(session).complete(args, rng.choice([site.return_to, 'x']))
        w.emitted('representations', '%r %s %r' % (resp, getattr(resp, 'message', ''), sorted(vars(resp).items(), key=lambda i: i[0])))
        w.emitted('sessions', pickle.dumps(session))


def history(rng, ctx):
    stores = Stores()
    watch = Watch(ctx)
    del numbers[:], records[:]
    try:
        s = System(rng, ctx, stores, watch)
        for _ in range(rng.randint(5, 12)):
            r = rng.random()
            waiting = [p for p in s.pending if not p.answered]
            ready = [p for p in s.pending if p.answered]
            if r < .3 or not s.pending:
                s.begin()
            elif r < .5 and waiting:
                s.answer(rng.choice(waiting))
            elif r < .7 and ready:
                login = rng.choice(ready)
                login.maybe = True
                s.complete(login)
            elif r < .85:
                s.hostile()
            elif r < .95:
                s.pause(rng.choice([1, 3600, 14 * 86400]))
            else:
                op = rng.choice(s.ops)
                op.lose()
        for login in list(s.pending):
            if not login.answered:
                s.answer(login)
            login.maybe = True
            s.complete(login)
        for text in records:
            watch.emitted('log records', text)
        watch.judge()
        ctx.state(tuple(sorted(watch.sinks)), len(watch.long), tuple(op.fault for op in s.ops), tuple(len(op.types or ()) for op in s.ops), tuple(site.kind for site in s.sites))
        ctx.sample('keys', '%d keys and numbers, %d texts searched' % (len(watch.long), len(watch.kept)))
    finally:
        stores.close()


SCENARIOS = [('history', history, 4000, 60000)]
