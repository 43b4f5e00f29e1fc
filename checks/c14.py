"""C14: key exchange agrees with the specification for every pair of parties."""
import base64
import hashlib

from cryptography.hazmat.primitives import hashes

from openid import cryptutil, oidutil
from openid.consumer.consumer import DiffieHellmanSHA1ConsumerSession, DiffieHellmanSHA256ConsumerSession
from openid.dh import DiffieHellman, strxor
from openid.message import OPENID1_NS, OPENID_NS, Message
from openid.server.server import DiffieHellmanSHA1ServerSession, DiffieHellmanSHA256ServerSession, ProtocolError, Server

from lib import gen
from lib.assocserver import DEFAULT_P, b64, btwoc
from lib.core import Violation, require
from lib.world import OPENID2, Stores

PROP = 'C14'
TECHNIQUE = ('runtime monitoring: differential oracle (independent modular arithmetic and byte conversion) over key exchanges of real parties with each other '
             'and with a simulated party that chooses its key so that the secret has a wanted shape')
LEVEL_NOTE = ('Random primes of many sizes, generators and keys; secrets with leading zero bytes, zero top bits or a set top bit are provoked by search. '
              'Random sampling of a space far too large to enumerate.')
RULE = 'a case is one conversion batch or one exchange; counted distinct: (part, modulus size, kind of parties, hash, shape of the shared secret or number)'
NEED = {'conversions': 5000, 'exchanges': 150, 'leading_zero': 30, 'top_bit': 30, 'refused': 100, 'provider': 60}
ASSUMPTIONS = ['the arithmetic library draws unpredictable private keys']

HASHES = {'DH-SHA1': (hashlib.sha1, hashes.SHA1(), 20, DiffieHellmanSHA1ConsumerSession, DiffieHellmanSHA1ServerSession),
          'DH-SHA256': (hashlib.sha256, hashes.SHA256(), 32, DiffieHellmanSHA256ConsumerSession, DiffieHellmanSHA256ServerSession)}


def number(rng):
    k = rng.random()
    if k < .25:
        return rng.randrange(70000)
    bits = rng.choice([rng.randint(1, 1100), 8 * rng.randint(1, 140) + rng.choice([-1, 0, 1])])
    if k < .5:
        return max(0, (1 << bits) + rng.choice([-2, -1, 0, 1]))
    return rng.getrandbits(bits)


def conversions(rng, ctx):
    for _ in range(30):
        n = number(rng)
        want = btwoc(n)
        got = cryptutil.int_to_bytes(n)
        require(got == want and isinstance(got, bytes), 'integer to bytes', n=n, got=got.hex(), want=want.hex())
        require(cryptutil.bytes_to_int(want) == n, 'bytes to integer', n=n, got=cryptutil.bytes_to_int(want))
        pad = bytes(rng.choice([1, 2, 7])) + want
        require(cryptutil.bytes_to_int(pad) == n, 'padded bytes to integer', n=n)
        require(cryptutil.longToBase64(n) == b64(want), 'integer to base64', n=n, got=cryptutil.longToBase64(n))
        require(cryptutil.base64ToLong(b64(want)) == n and cryptutil.base64ToLong(b64(pad)) == n, 'base64 to integer', n=n)
        require(cryptutil.longToBinary(n) == want and cryptutil.binaryToLong(want) == n, 'old names', n=n)
        raw = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 19, 20, 21, 32, 100])))
        if rng.random() < .3:
            raw += bytes(rng.randrange(3))
        require(oidutil.toBase64(raw) == b64(raw), 'bytes to base64', raw=raw.hex(), got=oidutil.toBase64(raw))
        require(oidutil.fromBase64(b64(raw)) == raw, 'base64 to bytes', raw=raw.hex())
        other = bytes(rng.randrange(256) for _ in range(len(raw)))
        x = strxor(raw, other)
        require(x == bytes(a ^ b for a, b in zip(raw, other)), 'exclusive or', a=raw.hex(), b=other.hex(), got=x.hex())
        try:
            x = strxor(raw, other + rng.choice([b'\0', b'x']))
        except ValueError:
            pass
        else:
            raise Violation('exclusive or of different lengths', got=x)
        bad = rng.choice(['\u00e9', 'A', 'AAAAA', 'A===', '\u4e2d' * 4, b64(raw + b'x' * (4 - len(raw) % 3))[:-1], ''])
        try:
            n2 = cryptutil.base64ToLong(bad)
        except ValueError:
            pass
        else:
            require(bad == 'A===' and False, 'not base64 but read as a number', text=bad, got=n2)
        ctx.event('conversions')
        ctx.state('n', n.bit_length() % 8, n.bit_length() // 8, len(raw) % 3)


SMALL = [p for p in range(3, 2000, 2) if all(p % q for q in range(3, int(p ** .5) + 1, 2))]


def is_prime(n):
    if n < 2000:
        return n in SMALL
    if n % 2 == 0 or any(n % p == 0 for p in SMALL):
        return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


_primes = {}


def prime(rng, bits):
    pool = _primes.setdefault(bits, [])
    if len(pool) < 3:
        while True:
            n = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
            if is_prime(n):
                pool.append(n)
                return n
    return rng.choice(pool)


BITS = [512, 513, 519, 520, 521, 600, 767, 768, 1023, 1024]


def group(rng):
    if rng.random() < .4:
        return DEFAULT_P, rng.choice([2, 2, 2, 3, 5, 4, 65537])
    p = prime(rng, rng.choice(BITS))
    return p, rng.choice([2, 3, 5, 7, 11, 127, 128, 255, 256, 65537, rng.randrange(2, p - 1)])


def make(rng, p, g):
    if (p, g) == (DEFAULT_P, 2) and rng.random() < .5:
        dh = DiffieHellman.fromDefaults()
    else:
        dh = DiffieHellman(b64(btwoc(p)), b64(btwoc(g))) if rng.random() < .8 else DiffieHellman(p, g)
    require(dh.parameters == (b64(btwoc(p)), b64(btwoc(g))), 'parameters differ', got=dh.parameters, p=p, g=g)
    require(dh.usingDefaultValues() == (p == DEFAULT_P and g == 2), 'default parameters mistaken', p=p, g=g)
    require((dh.modulus, dh.generator) == (p, g), 'modulus or generator differ', p=p, g=g)
    pub = public(dh)
    require(dh.public == pub, 'two public keys', a=dh.public, b=pub)
    return dh


def public(dh):
    text = dh.public_key
    n = int.from_bytes(base64.b64decode(text, validate=True), 'big')
    require(text == b64(btwoc(n)), 'public key not in shortest form', key=text)
    return n


def search(rng, p, their, shape, g):
    """A private key for which the secret shared with `their` has the shape."""
    size = (p.bit_length() + 7) // 8
    for _ in range(700):
        priv = rng.randrange(2, p - 1)
        secret = pow(their, priv, p)
        mine = pow(g, priv, p)
        if not 1 < mine < p - 1 or secret < 2:
            continue
        top = secret.bit_length()
        if shape == 'zero' and top <= 8 * (size - 1):
            break
        if shape == 'nibble' and top <= 8 * (size - 1) + 4 and top > 8 * (size - 1):
            break
        if shape == 'top' and top % 8 == 0:
            break
        if shape == 'own' and mine.bit_length() <= 8 * (size - 1):
            break
        if shape == 'any':
            break
    return priv, pow(g, priv, p), pow(their, priv, p)


def note(ctx, p, secret):
    size = (p.bit_length() + 7) // 8
    if secret.bit_length() <= 8 * (size - 1):
        ctx.event('leading_zero')
    if secret.bit_length() % 8 == 0:
        ctx.event('top_bit')
    ctx.event('exchanges')
    return (secret.bit_length() - 8 * size, secret.bit_length() % 8 == 0)


def mask(func, shared, data):
    return bytes(a ^ b for a, b in zip(func(btwoc(shared)).digest(), data))


def exchange(rng, ctx):
    p, g = group(rng)
    name = rng.choice(sorted(HASHES))
    func, algorithm, size, csess, ssess = HASHES[name]
    one, two = make(rng, p, g), make(rng, p, g)
    a, b = public(one), public(two)
    require(a != b, 'two parties have the same key', key=a)
    key = bytes(rng.randrange(256) for _ in range(size)) if rng.random() < .8 else rng.choice([bytes(size), b'\xff' * size, bytes(size - 1) + b'x'])
    c1 = one.xor_secret(two.public_key, b64(key), algorithm)
    c2 = two.xor_secret(one.public_key, b64(key), algorithm)
    require(c1 == c2, 'the parties derive different secrets', p=p, g=g, a=a, b=b)
    require(two.xor_secret(one.public_key, c1, algorithm) == b64(key), 'the transferred key differs')
    old = one.xorSecret(b, key, lambda x: func(x).digest())
    require(old == base64.b64decode(c1), 'the old interface derives another secret', p=p)
    # with a party whose key is known
    shape = rng.choice(['any', 'zero', 'nibble', 'top', 'own'])
    priv, pub, shared = search(rng, p, a, shape, g)
    got = one.xor_secret(b64(btwoc(pub)), b64(key), algorithm)
    require(got == b64(mask(func, shared, key)), 'the derived secret differs from the specification', p=p, g=g, priv=priv, their=a, got=got)
    shp = note(ctx, p, shared)
    # sessions of the library with each other
    msg = Message(rng.choice([OPENID2, OPENID1_NS]))
    sub = rng.random() < .2
    if sub:
        csess = type('C', (csess,), {'hash_func': staticmethod(lambda x: func(x).digest())})
        ssess = type('S', (ssess,), {'hash_func': staticmethod(lambda x: func(x).digest())})
    consumer = csess(one) if (p, g) != (DEFAULT_P, 2) or rng.random() < .5 else csess()
    req = consumer.getRequest()
    require(set(req) == ({'dh_consumer_public'} if (p, g) == (DEFAULT_P, 2) else {'dh_consumer_public', 'dh_modulus', 'dh_gen'}),
            'the request has other fields', got=sorted(req))
    require(req.get('dh_modulus', b64(btwoc(p))) == b64(btwoc(p)) and req.get('dh_gen', b64(btwoc(g))) == b64(btwoc(g)), 'the request has other parameters', req=req)
    msg.updateArgs(OPENID_NS, req)
    server = ssess.fromMessage(msg)
    ans = server.answer(key)
    require(set(ans) == {'dh_server_public', 'enc_mac_key'}, 'the answer has other fields', got=sorted(ans))
    reply = Message(OPENID2)
    reply.updateArgs(OPENID_NS, ans)
    require(consumer.extractSecret(reply) == key, 'the key does not arrive', p=p, g=g, sent=key.hex(), got=consumer.extractSecret(reply).hex())
    # a consumer session with a provider whose key is known
    their = int.from_bytes(base64.b64decode(req['dh_consumer_public']), 'big')
    priv, pub, shared = search(rng, p, their, shape, g)
    reply = Message(OPENID2)
    reply.updateArgs(OPENID_NS, {'dh_server_public': b64(btwoc(pub)), 'enc_mac_key': b64(mask(func, shared, key))})
    require(consumer.extractSecret(reply) == key, 'the key of a provider does not arrive', p=p, g=g, priv=priv, their=their)
    note(ctx, p, shared)
    ctx.state('exchange', p.bit_length(), min(g, 300), name, sub, shp)


def provider(rng, ctx):
    """A consumer whose key is known against the real provider."""
    stores = Stores()
    try:
        store = stores.make('memory')
        stored = {}
        keep = store.storeAssociation

        def record(url, assoc):
            stored[assoc.handle] = assoc
            return keep(url, assoc)

        store.storeAssociation = record
        server = Server(store, 'http://op.example.com/server')
        p, g = group(rng)
        name = rng.choice(sorted(HASHES))
        func, algorithm, size = HASHES[name][:3]
        v2 = name == 'DH-SHA256' or rng.random() < .5
        priv = rng.randrange(2, p - 1)
        pub = pow(g, priv, p)
        if not 1 < pub < p - 1:
            return
        q = {'openid.mode': 'associate', 'openid.session_type': name, 'openid.assoc_type': {'DH-SHA1': 'HMAC-SHA1'}.get(name, 'HMAC-SHA256'),
             'openid.dh_consumer_public': b64(btwoc(pub))}
        if (p, g) != (DEFAULT_P, 2) or rng.random() < .3:
            q.update({'openid.dh_modulus': b64(btwoc(p)), 'openid.dh_gen': b64(btwoc(g))})
        if v2:
            q['openid.ns'] = OPENID2
        keys = set()
        for _ in range(rng.choice([2, 2, 60])):
            web = server.encodeResponse(server.handleRequest(server.decodeRequest(q)))
            require(web.code == 200, 'a usable key was refused', body=web.body)
            ans = dict(line.split(':', 1) for line in web.body.split('\n') if line)
            theirs = int.from_bytes(base64.b64decode(ans['dh_server_public'], validate=True), 'big')
            require(ans['dh_server_public'] == b64(btwoc(theirs)), 'public key not in shortest form', answer=ans)
            require(theirs not in keys, 'the provider uses a key pair twice', key=theirs)
            keys.add(theirs)
            shared = pow(theirs, priv, p)
            key = mask(func, shared, base64.b64decode(ans['enc_mac_key'], validate=True))
            assoc = stored.get(ans['assoc_handle'])
            require(assoc is not None, 'the provider forgot the association')
            require(assoc.secret == key and len(key) == size, 'the key received differs from the key of the provider', p=p, g=g, priv=priv,
                    theirs=theirs, got=key.hex(), provider=assoc.secret.hex())
            ctx.event('provider')
            ctx.state('provider', p.bit_length(), name, note(ctx, p, shared))
    finally:
        stores.close()


def unusable(rng, ctx):
    """Degenerate or broken parameters are refused with ValueError, at the provider with a reportable error."""
    name = rng.choice(sorted(HASHES))
    func, algorithm, size, csess, ssess = HASHES[name]
    stores = Stores()
    try:
        server = Server(stores.make('memory'), 'http://op.example.com/server')
        p, g = group(rng)
        priv = rng.randrange(2, p - 1)
        pub = pow(g, priv, p)
        for _ in range(4):
            kind = rng.choice(['public', 'even', 'generator', 'tiny', 'garbage', 'huge'])
            P, G, Y = b64(btwoc(p)), b64(btwoc(g)), b64(btwoc(pub))
            if kind == 'public':
                n = rng.choice([0, 1, p - 1, p, p + 1, 2 * p - 1, 2 * p, p * p])
                Y = b64(btwoc(n))
            elif kind == 'even':
                P = b64(btwoc(rng.choice([p + 1, p - 1, 1 << 1023, 0, 2])))
            elif kind == 'generator':
                G = b64(btwoc(rng.choice([0, 1])))
            elif kind == 'tiny':
                P = b64(btwoc(rng.choice([0, 1])))
            elif kind == 'garbage':
                bad = rng.choice(['A', '', '\u00e9', 'AAAAA', '\u4e2d' * 4])
                which = rng.randrange(3)
                P, G, Y = [bad if i == which else x for i, x in enumerate((P, G, Y))]
                if bad == '' and which < 2:
                    continue
            else:
                P = b64(btwoc((1 << 20000) + 1))
            try:
                dh = DiffieHellman(P, G)
                got = dh.xor_secret(Y, b64(bytes(size)), algorithm)
            except ValueError:
                pass
            else:
                raise Violation('unusable parameters were used', kind=kind, modulus=P, generator=G, public=Y, got=got)
            q = {'openid.mode': 'associate', 'openid.session_type': name, 'openid.assoc_type': {'DH-SHA1': 'HMAC-SHA1'}.get(name, 'HMAC-SHA256'),
                 'openid.ns': OPENID2, 'openid.dh_consumer_public': Y, 'openid.dh_modulus': P, 'openid.dh_gen': G}
            try:
                answer = server.handleRequest(server.decodeRequest(q))
                web = server.encodeResponse(answer)
            except ProtocolError:
                pass
            else:
                raise Violation('the provider used unusable parameters', kind=kind, query=q, body=web.body)
            if (P, G) == (b64(btwoc(p)), b64(btwoc(g))):
                consumer = csess(make(rng, p, g))
                reply = Message(OPENID2)
                reply.updateArgs(OPENID_NS, {'dh_server_public': Y, 'enc_mac_key': b64(bytes(size))})
                try:
                    key = consumer.extractSecret(reply)
                except (ValueError, KeyError):
                    pass
                else:
                    raise Violation('the consumer used an unusable public key', public=Y, got=key)
            ctx.event('refused')
            ctx.state('unusable', kind, p.bit_length(), name)
    finally:
        stores.close()


SCENARIOS = [('conversions', conversions, 400, 20000), ('exchange', exchange, 140, 6000), ('provider', provider, 40, 800), ('unusable', unusable, 120, 2500)]
