"""C29: signatures are the specified keyed hash of the listed fields."""
import base64
import hashlib
import sys
import threading

from openid.association import Association
from openid.message import OPENID_NS, Message

from lib import gen
from lib.core import require
from lib.vclock import clock
from lib.world import OPENID2, kv_bytes
from checks.c20 import token

PROP = 'C29'
TECHNIQUE = ('runtime monitoring: every signature and verdict of long-lived association objects over streams of messages is compared with an independent keyed hash over an independent '
             'key-value form; inputs are watched for modification; round trips and expiry are compared with an own model')
LEVEL_NOTE = 'Random keys of any length, messages, signed lists and candidate signatures close to the right one; also several threads on one association. Sampling.'
RULE = 'a case is a stream of operations on a few associations; counted distinct: (operation, type, key length class, protocol, shape of the list, candidate, verdict)'
NEED = {'signed': 8000, 'raw': 8000, 'true': 8000, 'false': 15000, 'error': 2000, 'refused': 1500, 'unsigned added': 2000, 'signed altered': 800, 'serialized': 8000, 'damaged': 6000,
        'expiry': 20000, 'threads': 20}
ASSUMPTIONS = ['texts have no lone surrogates', 'signed lists do not name undeclared default aliases']

ALG = {'HMAC-SHA1': hashlib.sha1, 'HMAC-SHA256': hashlib.sha256}


def ref(atype, secret, pairs):
    """Signature text, or None where the pairs have no key-value form."""
    for k, v in pairs:
        if '\n' in k or ':' in k or '\n' in v:
            return None
    # the definition of HMAC
    block = 64
    key = ALG[atype](secret).digest() if len(secret) > block else secret
    key = key.ljust(block, b'\0')
    inner = ALG[atype](bytes(b ^ 0x36 for b in key) + kv_bytes(pairs)).digest()
    digest = ALG[atype](bytes(b ^ 0x5c for b in key) + inner).digest()
    return base64.b64encode(digest).decode()


def secret(rng, atype):
    n = rng.choice([20, 32, 20, 32, 1, 16, 63, 64, 65, 100, 200])
    if rng.random() < .1:
        return bytes([rng.choice([0, 10, 58, 61, 255])]) * n
    return bytes(rng.randrange(256) for _ in range(n))


def handle(rng):
    return gen.text(rng, 1, 5, strip=True).strip() or 'h'


def make(rng, **kw):
    atype = kw.get('atype') or rng.choice(sorted(ALG))
    return Association(handle(rng), secret(rng, atype), rng.choice([0, int(clock.now), int(clock.now) - rng.randint(0, 10 ** 6), rng.randint(0, 2 ** 40)]),
                       rng.choice([0, 1, 60, 1209600, 10 ** 9, rng.randint(0, 10 ** 7)]), atype)


def size_class(a):
    return len(a.secret) > 64, len(a.secret) < 20


def sign_raw(rng, ctx, a):
    pairs = [(token(rng, .02, .02), token(rng, .02, .3)) for _ in range(rng.choice((0, 1, 2, 3, 5)))]
    if pairs and rng.random() < .3:
        pairs.append(rng.choice(pairs))
    if pairs and rng.random() < .2:
        pairs.append((pairs[0][0], 'other'))
    given = rng.choice([list, tuple, iter])(pairs)
    want = ref(a.assoc_type, a.secret, pairs)
    try:
        got = a.sign(given)
    except ValueError:
        got = None
    ctx.event('raw')
    require((got is None) == (want is None), 'pairs with%s a key-value form were %s' % ('' if want else 'out', 'signed' if got is not None else 'refused'), pairs=pairs)
    if want is not None:
        require(isinstance(got, bytes) and base64.b64encode(got).decode() == want, 'the signature is not the specified hash', pairs=pairs, type=a.assoc_type, secret=a.secret.hex())
    ctx.state('raw', a.assoc_type, size_class(a), min(len(pairs), 3), want is None)


NAMES = ['mode', 'identity', 'claimed_id', 'return_to', 'op_endpoint', 'response_nonce', 'invalidate_handle', 'error', 'x', 'realm', 'ext', 'Mode', 'a:b', 'sig2', 'signed2', 'n', '\u00e9', 'a b',
         'longer_name', 'user_setup_url']


def fields(rng, v2, bad=.03):
    """Arguments of a message."""
    q = {}
    if v2 or rng.random() < .2:
        q['openid.ns'] = OPENID2 if v2 else rng.choice(['http://openid.net/signon/1.0', 'http://openid.net/signon/1.1'])
    for n in rng.sample(NAMES, rng.randint(1, 7)):
        if n == 'a:b' and rng.random() > bad:
            continue
        q['openid.' + n] = token(rng, bad / 3, .3)
    for i in range(gen.bulk(rng, .004, 300) or rng.choice((0, 0, 1, 2))):
        alias = 'e%d' % i
        q['openid.ns.' + alias] = 'http://ext.example/%d' % i
        for _ in range(rng.choice((0, 1, 2))):
            q['openid.%s.%s' % (alias, rng.choice(['k', 'value.x', 'type.a', 'mode', 'sig', 'signed', 'count']))] = token(rng, bad / 3, .3)
    for _ in range(rng.choice((0, 0, 1))):
        q[rng.choice(['foo', 'janrain_nonce', 'mode', 'sig', 'signed', 'openid', 'xopenid.mode', 'a,b', 'Openid.mode'])] = token(rng)
    if rng.random() < bad:
        q['openid.a,b'] = 'x'
    if rng.random() < .002:
        q['openid.long'] = gen.long_text(rng)
    items = list(q.items())
    rng.shuffle(items)
    return dict(items)


def sign_message(rng, ctx, a, pool):
    v2 = rng.random() < .6
    q = fields(rng, v2)
    if rng.random() < .2:
        q['openid.assoc_handle'] = rng.choice([a.handle, a.handle, '', a.handle + 'x', pool[0].handle, a.handle + ' ', ' ' + a.handle, a.handle.swapcase(), a.handle[:-1], a.handle.rstrip('=}')])
    if rng.random() < .06:
        q['openid.' + rng.choice(['sig', 'signed'])] = rng.choice(['mode', '', 'x'])
    m = Message.fromPostArgs(q)
    before = m.toPostArgs()
    other = q.get('openid.assoc_handle') not in (None, '', a.handle)
    names = {k[7:] for k in before if k.startswith('openid.')} | {'assoc_handle', 'signed'}
    refused = other or 'openid.sig' in q or 'openid.signed' in q or any(',' in n or ':' in n or '\n' in n for n in names) or any(
        '\n' in v for k, v in before.items() if k.startswith('openid.')) or '\n' in a.handle
    try:
        s = a.signMessage(m)
    except ValueError:
        s = None
    require(m.toPostArgs() == before, 'the message to be signed was changed', before=before, after=m.toPostArgs())
    if refused:
        require(s is None, 'a message that can not be signed was signed', args=q, signed=s and s.toPostArgs())
        ctx.event('refused')
        ctx.state('refuse', other, 'openid.sig' in q, 'openid.signed' in q)
        return
    require(s is not None, 'a message was not signed', args=q)
    out = s.toPostArgs()
    detail = dict(args=q, out=out, type=a.assoc_type)
    require({k: v for k, v in out.items() if k not in ('openid.sig', 'openid.signed', 'openid.assoc_handle')} == {k: v for k, v in before.items() if k != 'openid.assoc_handle'},
            'signing changed the message', **detail)
    require(out['openid.assoc_handle'] == a.handle, 'signed under another handle', **detail)
    listed = out['openid.signed'].split(',')
    require(set(listed) == names and len(listed) == len(names), 'not all fields are signed once', **detail)
    pairs = [(n, out.get('openid.' + n, '')) for n in listed]
    require(out['openid.sig'] == ref(a.assoc_type, a.secret, pairs), 'the signature is not the specified hash', **detail)
    require(a.checkMessageSignature(s) is True, 'the own signature is not accepted', **detail)
    ctx.event('signed')
    ctx.state('sign', a.assoc_type, size_class(a), v2, len(listed) > 6)
    return out


def candidates(rng, right, a, pairs, pool):
    """A candidate signature."""
    raw = base64.b64decode(right)
    other = rng.choice(pool)
    twin = {'HMAC-SHA1': 'HMAC-SHA256', 'HMAC-SHA256': 'HMAC-SHA1'}[a.assoc_type]
    kind = rng.choice(['right'] * 6 + ['other key', 'other type', 'order', 'no values', 'prefixed', 'empty field', 'short', 'long', 'space', 'newline', 'case', 'unpadded', 'padded', 'urlsafe', 'hex', 'flip',
                                      'flip char', 'unicode', 'plain hash', 'truncated mac', 'empty', 'missing', 'zero key', 'spare bits', 'own of sorted'])
    if kind == 'right':
        c = right
    elif kind == 'other key':
        c = ref(a.assoc_type, other.secret, pairs)
    elif kind == 'other type':
        c = ref(twin, a.secret, pairs)
    elif kind == 'order':
        c = ref(a.assoc_type, a.secret, list(reversed(pairs)))
    elif kind == 'own of sorted':
        c = ref(a.assoc_type, a.secret, sorted(set(pairs)))
    elif kind == 'no values':
        c = ref(a.assoc_type, a.secret, [(k, '') for k, v in pairs])
    elif kind == 'prefixed':
        c = ref(a.assoc_type, a.secret, [('openid.' + k, v) for k, v in pairs])
    elif kind == 'empty field':
        c = ref(a.assoc_type, a.secret, [p for p in pairs if p[1]])
    elif kind == 'short':
        c = right[:rng.randint(1, len(right) - 1)]
    elif kind == 'long':
        c = right + rng.choice(['A', '=', right, ','])
    elif kind == 'space':
        c = rng.choice([right + ' ', ' ' + right, right.replace('+', ' ') if '+' in right else right + '\t'])
    elif kind == 'newline':
        c = rng.choice([right + '\n', right[:8] + '\n' + right[8:], right + '\r\n'])
    elif kind == 'case':
        c = right.swapcase()
    elif kind == 'unpadded':
        c = right.rstrip('=')
    elif kind == 'padded':
        c = right + '='
    elif kind == 'urlsafe':
        c = base64.urlsafe_b64encode(raw).decode()
    elif kind == 'hex':
        c = raw.hex()
    elif kind == 'flip':
        i = rng.randrange(len(raw) * 8)
        c = base64.b64encode((int.from_bytes(raw, 'big') ^ 1 << i).to_bytes(len(raw), 'big')).decode()
    elif kind == 'flip char':
        i = rng.randrange(len(right))
        c = right[:i] + rng.choice('AbC+/9=') + right[i + 1:]
    elif kind == 'unicode':
        c = rng.choice([right + '\u00e9', right.replace('A', '\u0410'), '\uff21' + right[1:], '\u2028', '\U0001f600'])
    elif kind == 'plain hash':
        c = base64.b64encode(ALG[a.assoc_type](a.secret + kv_bytes(pairs)).digest()).decode()
    elif kind == 'truncated mac':
        c = base64.b64encode(raw[:rng.randint(0, len(raw) - 1)]).decode()
    elif kind == 'zero key':
        c = ref(a.assoc_type, b'', pairs)
    elif kind == 'spare bits':
        # decodes to the same bytes
        alphabet = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
        last = alphabet.index(right.rstrip('=')[-1])
        c = right.rstrip('=')[:-1] + alphabet[last ^ 1] + '=' * (len(right) - len(right.rstrip('=')))
    else:
        c = '' if kind == 'empty' else None
    return kind, c


def check(rng, ctx, a, pool, args=None):
    v2 = rng.random() < .6
    q = dict(args) if args else fields(rng, v2, .01)
    q.pop('openid.sig', None)
    if not args or rng.random() < .5:
        own = [k[7:] for k in q if k.startswith('openid.')]
        listed = rng.sample(own, rng.randint(0, len(own)))
        for _ in range(rng.choice((0, 0, 1, 2))):
            listed.insert(rng.randint(0, len(listed)), rng.choice(['absent', 'signed', 'sig', 'mode', '', 'ns', 'x.y', 'openid.mode', ' mode', 'assoc_handle'] + own))
        q['openid.signed'] = ','.join(listed)
        if rng.random() < .03:
            del q['openid.signed']
    if rng.random() < .4:
        q['openid.assoc_handle'] = rng.choice([a.handle, 'x'])
    raw = q.get('openid.signed')
    if raw == '':
        raw = None

    def expected(q):
        return [(n, q.get('openid.' + n, '')) for n in raw.split(',')]
    candidate_pairs = expected(q) if raw else [('mode', '')]
    right = ref(a.assoc_type, a.secret, candidate_pairs)
    if raw and 'sig' in raw.split(','):
        right_kind, c = 'self', rng.choice([right or 'x', 'AAAA'])
    elif right is None:
        right_kind, c = 'none', 'AAAA'
    else:
        right_kind, c = candidates(rng, right, a, candidate_pairs, pool)
    if c is not None:
        q['openid.sig'] = c
    change = 'none'
    if c is not None and rng.random() < .5:
        # after the signature was computed
        change = rng.choice(['add', 'alter', 'remove', 'bare', 'declare'])
        names = [k for k in q if k.startswith('openid.') and k not in ('openid.sig', 'openid.signed', 'openid.ns') and not k.startswith('openid.ns.')]
        if change == 'add':
            q['openid.' + rng.choice(['added', 'added.x', 'zzz'])] = token(rng)
        elif change == 'bare':
            q[rng.choice(['mode', 'bare', 'sig', 'signed', 'ns'])] = token(rng)
        elif change == 'declare':
            q['openid.ns.decl'] = 'http://decl.example/'
        elif names:
            k = rng.choice(names)
            if change == 'remove':
                del q[k]
            else:
                q[k] = rng.choice([q[k] + 'x', q[k] + ' ', q[k].upper(), q[k].lower(), '', q[k][:-1], q[k] + '\u00a0', token(rng)])
    m = Message.fromPostArgs(q)
    before = m.toPostArgs()
    want = None
    if raw and q.get('openid.sig'):
        pairs = expected(q)
        sig = ref(a.assoc_type, a.secret, pairs)
        if sig is not None:
            want = q['openid.sig'] == sig
    try:
        got = a.checkMessageSignature(m)
    except ValueError:
        got = None
    detail = dict(args=q, candidate=right_kind, change=change, type=a.assoc_type, secret=a.secret.hex())
    require(m.toPostArgs() == before, 'verification changed the message', **detail)
    if want is None:
        # nothing to verify
        require(not got, 'a signature was accepted where there is none', **detail)
        ctx.event('error')
    else:
        require(got is not None and bool(got) == want, 'the verdict is %r' % (got,), want=want, **detail)
        ctx.event('true' if want else 'false')
        if right_kind == 'right' and change != 'none':
            ctx.event('unsigned added' if want else 'signed altered')
    if right is not None and raw:
        try:
            mine = a.getMessageSignature(m)
        except ValueError:
            mine = None
        require(mine == ref(a.assoc_type, a.secret, expected(q)), 'the computed signature is not the specified hash', got=mine, **detail)
    ctx.state('check', right_kind, change, a.assoc_type, size_class(a), 'openid.ns' in q, want)
    ctx.sample(right_kind, detail)


def stream(rng, ctx):
    pool = [make(rng, atype=t) for t in ('HMAC-SHA1', 'HMAC-SHA256', None)]
    # the same handle with another key, the same key with another type
    pool.append(Association(pool[0].handle, secret(rng, 'HMAC-SHA1'), 0, 1, pool[0].assoc_type))
    pool.append(Association('twin', pool[0].secret, 0, 1, 'HMAC-SHA256'))
    keep = [(a.handle, a.secret, a.issued, a.lifetime, a.assoc_type) for a in pool]
    last = None
    for _ in range(30):
        a = rng.choice(pool)
        op = rng.choice(['raw', 'sign', 'sign', 'check', 'check', 'check', 'check last', 'check last'])
        if op == 'raw':
            sign_raw(rng, ctx, a)
        elif op == 'sign':
            last = sign_message(rng, ctx, a, pool) or last
        elif op == 'check':
            check(rng, ctx, a, pool)
        elif last:
            check(rng, ctx, a, pool, last)
    require(keep == [(a.handle, a.secret, a.issued, a.lifetime, a.assoc_type) for a in pool], 'associations changed')


def parts(a):
    return a.handle, a.secret, a.issued, a.lifetime, a.assoc_type


def serialize(rng, ctx):
    for _ in range(20):
        a = make(rng)
        fresh = Association(*parts(a))
        require(a == fresh and not a != fresh, 'equal associations differ')
        for i in range(5):
            p = list(parts(a))
            p[i] = {0: p[0] + rng.choice(['x', ' ', '\u00e9']), 1: p[1] + b'\0' if rng.random() < .5 else bytes([p[1][0] ^ 1]) + p[1][1:], 2: p[2] + rng.choice([1, -1, 10]), 3: p[3] + 1,
                    4: 'HMAC-SHA1' if p[4] == 'HMAC-SHA256' else 'HMAC-SHA256'}[i]
            other = Association(*p)
            require(a != other and not a == other, 'different associations are equal', which=i)
        h = token(rng, .05, .2, .15) or 'h' if rng.random() < .4 else a.handle
        a = Association(h, a.secret, a.issued, a.lifetime, a.assoc_type)
        try:
            text = a.serialize()
        except ValueError:
            # such handles can not be represented
            require(h != h.strip() or '\n' in h or not h, 'an association can not be serialized', handle=h)
            continue
        b = Association.deserialize(text)
        require(type(b) is Association and parts(b) == parts(a) and b == a and type(b.secret) is bytes and type(b.handle) is str and type(b.issued) is int and type(b.lifetime) is int,
                'an association changed through serialization', before=parts(a), after=parts(b), text=text)
        ctx.event('serialized')
        lines = text.split('\n')[:-1]
        kind = rng.choice(['truncate', 'drop', 'swap', 'twice', 'version', 'type', 'extra', 'name', 'int', 'case'])
        if kind == 'truncate':
            bad = text[:rng.randint(0, len(text) - 1)]
        elif kind == 'drop':
            i = rng.randrange(6)
            bad = '\n'.join(lines[:i] + lines[i + 1:]) + '\n'
        elif kind == 'swap':
            i = rng.randrange(5)
            bad = '\n'.join(lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2:]) + '\n'
        elif kind == 'twice':
            i = rng.randrange(6)
            bad = '\n'.join(lines[:i] + [lines[i]] + lines[i:]) + '\n'
        elif kind == 'extra':
            bad = text + 'x:y\n'
        elif kind == 'name':
            i = rng.randrange(6)
            bad = '\n'.join(lines[:i] + ['x' + lines[i]] + lines[i + 1:]) + '\n'
        else:
            i = {'version': 0, 'type': 5, 'int': rng.choice([3, 4]), 'case': 5}[kind]
            v = {'version': rng.choice(['1', '3', '', '2.0', '22']), 'type': rng.choice(['HMAC-MD5', '', 'HMAC', 'HMAC-SHA512']), 'int': rng.choice(['', 'x', '1.5', '0x10', '1e3', '12 x']), 'case': 'hmac-sha1'}[kind]
            bad = '\n'.join(lines[:i] + [lines[i].partition(':')[0] + ':' + v] + lines[i + 1:]) + '\n'
        try:
            c = Association.deserialize(bad)
        except ValueError:
            pass
        else:
            require(False, 'a damaged association was read', text=bad, got=parts(c), kind=kind)
        ctx.event('damaged')
        ctx.state('serialize', kind, a.assoc_type, size_class(a))


def expiry(rng, ctx):
    for _ in range(20):
        issued, lifetime = int(clock.now) + rng.randint(-1000, 1000), rng.choice([0, 1, 2, 1000, 1209600, rng.randint(0, 2000), 2 ** 31, 2 ** 32, 10 ** 10, 2 ** 40])
        if rng.random() < .2:
            issued = rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 40, -5])
        a = Association('h', b'x' * 20, issued, lifetime, 'HMAC-SHA1')
        for _ in range(3):
            now = rng.choice([issued + lifetime + rng.choice([-1, 0, 1, 5]), issued + rng.choice([-1, 0, 1]), rng.randint(0, 2 * 10 ** 9)])
            ctx.event('expiry')
            require(a.getExpiresIn(now) == max(0, issued + lifetime - now), 'wrong remaining time', issued=issued, lifetime=lifetime, now=now, got=a.getExpiresIn(now))
            if now >= 0:
                keep = clock.now
                clock.set(now + rng.choice([0, 0.25, 0.999]))
                try:
                    require(a.expiresIn == a.getExpiresIn() == max(0, issued + lifetime - now), 'wrong remaining time by the clock', issued=issued, lifetime=lifetime, now=now, got=a.expiresIn)
                    b = Association.fromExpiresIn(lifetime, 'h', b'y', 'HMAC-SHA256')
                    require((b.issued, b.lifetime, b.handle, b.secret, b.assoc_type) == (now, lifetime, 'h', b'y', 'HMAC-SHA256'), 'other times than given', got=(b.issued, b.lifetime))
                finally:
                    clock.set(keep)
        # text that has no bytes is either refused or signed apart from all others
        s = token(rng, 0, .2, .2) + '\ud83d' + token(rng, 0, .2, .2)
        try:
            sig = a.sign([('k', s)])
        except ValueError:
            pass
        else:
            for other in ('', '?', '\ufffd', '\\ud83d', '&#55357;'):
                require(a.sign([('k', s.replace('\ud83d', other))]) != sig, 'different values have the same signature', value=ascii(s), other=other)
        for bad in ('HMAC-MD5', '', 'hmac-sha1', 'HMAC-SHA512'):
            try:
                Association('h', b'x', 0, 1, bad)
            except ValueError:
                continue
            require(False, 'an association of unknown type', type=bad)
        ctx.state('expiry', lifetime == 0, issued < 0)


def threads(rng, ctx):
    """Several threads sign and verify with the same objects."""
    pool = [make(rng) for _ in range(2)]
    work = []
    for _ in range(4):
        items = []
        for _ in range(25):
            a = rng.choice(pool)
            q = {'openid.ns': OPENID2}
            q.update(('openid.f' + gen.word(rng), gen.word(rng)) for _ in range(rng.randint(1, 6)))
            items.append((a, q))
        work.append(items)
    faults = []

    def run(items):
        try:
            for a, q in items:
                s = a.signMessage(Message.fromPostArgs(q))
                out = s.toPostArgs()
                right = ref(a.assoc_type, a.secret, [(n, out.get('openid.' + n, '')) for n in out['openid.signed'].split(',')])
                if out['openid.sig'] != right or not a.checkMessageSignature(s):
                    faults.append((q, out))
                s.setArg(OPENID_NS, 'mode', 'altered')
                if a.checkMessageSignature(s) and 'mode' in out['openid.signed'].split(','):
                    faults.append((q, 'altered'))
        except Exception as e:
            faults.append(repr(e))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(w,)) for w in work]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    require(not faults, 'signatures are wrong when several threads sign', fault=repr(faults[:1]))
    ctx.event('threads')
    ctx.state('threads', len(pool))


SCENARIOS = [('stream', stream, 10000, 100000), ('serialize', serialize, 1600, 20000), ('expiry', expiry, 1000, 10000), ('threads', threads, 69, 500)]
