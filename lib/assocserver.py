"""Provider side of association requests with the specification's own arithmetic, answering well or badly."""
import base64
import hashlib
from urllib.parse import parse_qsl

from lib import gen
from lib.world import OPENID2, NetError, kv_bytes, secret_for

DEFAULT_P = int('155172898181473697471232257763715539915724801966915404479707795314057629378541917580651227423698188993727816'
                '152646631438561595825688188889951272158842675419950341258706556549803580104870537681476726513255747040765857'
                '479291291572334510643245094715007229621094194349783925984760375594985848253359305585439638443')


def btwoc(n):
    """Shortest big-endian two's complement of a non-negative integer."""
    return n.to_bytes(n.bit_length() // 8 + 1, 'big')


def b64(b):
    return base64.b64encode(b).decode()


PAIRS = [('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA1', 'no-encryption')]
HASH = {'DH-SHA1': hashlib.sha1, 'DH-SHA256': hashlib.sha256}


class Answer(object):
    """status, body, and what may come of it: usable is 'yes', 'no' or 'maybe'."""

    def __init__(self, status, body, usable, handle=None, secret=None, atype=None, lifetime=None, kind='', suggestion=None):
        self.status, self.body, self.usable, self.handle, self.secret = status, body, usable, handle, secret
        self.atype, self.lifetime, self.kind, self.suggestion = atype, lifetime, kind, suggestion


KINDS = ['good', 'good', 'good', 'good', 'plain', 'plain-ns', 'wrong-type', 'wrong-session', 'missing', 'garble', 'expires', 'unsupported', 'unsupported',
         'unsupported', 'error', 'error-v1', 'status', 'garbage', 'network', 'badkey', 'public', 'duplicate', 'extra', 'handle', 'long',
         'other-version', 'empty']


def answer(rng, q, kind, allowed, n):
    """Answer to association request q."""
    v2 = q.get('openid.ns') == OPENID2
    atype = q.get('openid.assoc_type', 'HMAC-SHA1')
    stype = q.get('openid.session_type') or 'no-encryption'
    secret = secret_for(rng, atype)
    handle = 'h%d-%s' % (n, gen.word(rng, 3, 6))
    lifetime = rng.choice([60, 3600, 1209600, 10 ** 9])
    a = Answer(200, None, 'yes', handle, secret, atype, lifetime, kind)
    if kind == 'handle':
        h = gen.text(rng, 1, 6, strip=True).strip(':').strip() or 'x'
        handle = a.handle = h + str(n)
    elif kind == 'long':
        handle = a.handle = handle * rng.choice([10, 40, 120])
    out = []
    if v2 and kind != 'other-version':
        out.append(('ns', OPENID2))
    if kind == 'other-version' and not v2:
        out.append(('ns', OPENID2))
    out += [('assoc_handle', handle), ('assoc_type', atype), ('expires_in', str(lifetime))]
    if kind in ('plain', 'plain-ns') and stype != 'no-encryption':
        if kind == 'plain-ns' or v2:
            out.append(('session_type', 'no-encryption'))
        out.append(('mac_key', b64(secret)))
        a.usable = 'no' if v2 else 'yes'
    elif stype == 'no-encryption':
        if v2 or rng.random() < .3:
            out.append(('session_type', 'no-encryption'))
        out.append(('mac_key', b64(secret)))
    else:
        p = DEFAULT_P
        priv = rng.randrange(2, p - 1)
        if rng.random() < .1:
            # provoke a shared secret with leading zero bytes
            for _ in range(300):
                priv = rng.randrange(2, p - 1)
                if pow(int.from_bytes(base64.b64decode(q['openid.dh_consumer_public']), 'big'), priv, p).bit_length() <= 1016:
                    break
        their = int.from_bytes(base64.b64decode(q['openid.dh_consumer_public']), 'big')
        pub = pow(2, priv, p)
        shared = pow(their, priv, p)
        if kind == 'public':
            pub = rng.choice([0, 1, p - 1, p, p + 1, 2, 3])
            a.usable = 'maybe'
            if pub == 1:
                shared = 1
            elif pub not in (0, p):
                a.secret = None
        digest = HASH[stype](btwoc(shared)).digest()
        mac = bytes(x ^ y for x, y in zip(digest, secret))
        if kind == 'public' and pub in (0, p):
            a.secret = None
        out += [('session_type', stype), ('dh_server_public', b64(btwoc(pub))), ('enc_mac_key', b64(mac))]
    if kind == 'other-version':
        # a version 1 style answer to a version 2 request or the other way round
        a.usable = 'maybe'
    fields = dict(out)
    if kind == 'wrong-type':
        other = {'HMAC-SHA1': 'HMAC-SHA256', 'HMAC-SHA256': 'HMAC-SHA1'}.get(atype, 'HMAC-SHA1')
        fields['assoc_type'] = rng.choice([other, other, 'HMAC-MD5', '', atype.lower()])
        a.usable = 'no'
    elif kind == 'wrong-session':
        cur = fields.get('session_type', '')
        pool = [s for s in ['DH-SHA1', 'DH-SHA256', 'bogus', stype.lower()] if s != stype and s != cur]
        fields['session_type'] = rng.choice(pool)
        a.usable = 'no'
    elif kind == 'missing':
        keys = ['assoc_handle', 'assoc_type', 'expires_in'] + [k for k in ('mac_key', 'dh_server_public', 'enc_mac_key') if k in fields]
        if v2:
            keys.append('session_type')
        k = rng.choice(keys)
        fields.pop(k, None)
        a.usable = 'no'
    elif kind == 'garble':
        k = rng.choice([k for k in ('mac_key', 'dh_server_public', 'enc_mac_key') if k in fields])
        fields[k] = rng.choice(['', 'x', '====', '\u00e9\u00e9\u00e9\u00e9', '!!!!', fields[k][:-5], 'A' * 7, fields[k] + 'A'])
        a.usable, a.secret = 'maybe', None
        if k == 'dh_server_public' and fields[k] in ('\u00e9\u00e9\u00e9\u00e9', 'x'):
            a.usable = 'no'
    elif kind == 'expires':
        fields['expires_in'] = rng.choice(['', 'x', '1.5', '0', '-5', '1e3', '9' * 12, '9' * 20, '9' * 40, '9' * 5000, ' 60', '0x10', '\u0661', '2147483647',
                                           '2147483648', '-' + '9' * 12, '-' + '9' * 20, '-' + '9' * 5000, '-9223372036854775809', '9223372036854775807'])
        try:
            a.lifetime = int(fields['expires_in'])
        except ValueError:
            a.usable = 'no'
        else:
            a.usable = 'maybe'
    elif kind == 'badkey' and 'enc_mac_key' in fields:
        fields['enc_mac_key'] = b64(b'x' * rng.choice([0, 1, 19, 21, 31, 33, 64]))
        a.usable = 'no'
    elif kind == 'extra':
        fields.update({gen.word(rng): gen.text(rng, 0, 3, strip=True), 'error': 'no', 'mode': 'cancel'})
    body = kv_bytes(fields.items())
    if kind == 'duplicate':
        body = kv_bytes(list(fields.items()) + [('assoc_handle', handle)])
    elif kind == 'empty':
        body, a.usable = b'', 'no'
    elif kind == 'garbage':
        body = rng.choice([b'<html></html>', b'\xff\xfe:x\n', b'::::', b'a\nb\nc', b'ns:bogus\n', b'ns:\n', b'ns.x:y\nns.z:y\n', bytes(rng.randrange(256) for _ in range(60))])
        a.usable = 'no'
    elif kind == 'network':
        a.usable, a.status = 'no', None
    elif kind == 'status':
        a.status = rng.choice([500, 404, 302, 301, 403, 503, 201, 204])
        a.usable = 'no'
    elif kind in ('unsupported', 'error', 'error-v1'):
        a.usable = 'no'
        err = [('error', rng.choice(['sorry', '', gen.text(rng, 0, 4, strip=True)])), ('error_code', 'unsupported-type' if kind != 'error' else rng.choice(['', 'x', 'unsupported', 'Unsupported-Type', 'unsupported-types']))]
        if kind != 'error-v1' and rng.random() < .9:
            err.insert(0, ('ns', OPENID2))
        s = rng.choice(PAIRS + list(allowed) * 2 + [('HMAC-SHA1', 'DH-SHA256'), ('bogus', 'bogus'), ('HMAC-SHA256', ''), ('', '')])
        if rng.random() < .85:
            err += [('assoc_type', s[0]), ('session_type', s[1])]
            if kind == 'unsupported' and err[0][0] == 'ns':
                a.suggestion = s
        elif rng.random() < .5:
            err.append(('assoc_type', s[0]))
        a.status = 400
        body = kv_bytes(err)
    a.body = body
    return a


class AssocServer(object):
    def __init__(self, net, endpoint, rng, allowed=()):
        self.rng, self.allowed, self.endpoint = rng, allowed, endpoint
        self.requests = []
        self.answers = []
        self.plan = []
        self.n = 0
        net.add(endpoint, self.handle)

    def handle(self, method, url, body, headers):
        pairs = parse_qsl((body or b'').decode('utf-8'), keep_blank_values=True)
        q = dict(pairs)
        self.requests.append((method, pairs, q))
        kind = self.plan.pop(0) if self.plan else self.rng.choice(KINDS)
        self.n += 1
        a = answer(self.rng, q, kind, self.allowed, self.n)
        self.answers.append(a)
        if a.status is None:
            raise NetError('no connection')
        return a.status, {'content-type': 'text/plain'}, a.body
