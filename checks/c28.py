"""C28: associations of a provider are fresh, distinct, typed and expire."""
import base64
import hashlib
import random

from openid.association import SessionNegotiator, default_negotiator, encrypted_negotiator
from openid.server.server import ProtocolError, Server

from lib import gen
from lib.assocserver import DEFAULT_P, b64, btwoc
from lib.core import require
from lib.vclock import clock
from lib.world import OPENID2, Stores, deliver, ref_sig
from checks.c08 import value
from checks.c09 import Reopenable

PROP = 'C28'
TECHNIQUE = ('runtime monitoring: online model of the associations handed out (handle, key, type, end) over histories of associations, policies, expirations, restarts and '
             'authentication requests on the real provider; keys are read off the wire with own arithmetic and every signature is recomputed')
LEVEL_NOTE = 'Random histories, policies, stores and handles against a model; batches of keys are watched for constant bits and repetition. Sampling.'
RULE = 'a case is a history; counted distinct: (operation, protocol family, types, policy, state of the named handle, outcome, store)'
NEED = {'associations': 3000, 'encrypted': 800, 'unsupported': 400, 'signed with the shared': 800, 'told to drop': 1500, 'expired handle': 300, 'private handle': 200, 'batches': 40, 'bad pairs': 100}
ASSUMPTIONS = ['the clock does not go backwards', 'handles with line feeds cannot be echoed in signed form and are left open']

TYPES = {'HMAC-SHA1': 20, 'HMAC-SHA256': 32}
PAIRS = [('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA256', 'DH-SHA256')]
HASH = {'DH-SHA1': hashlib.sha1, 'DH-SHA256': hashlib.sha256}
PRIMES = [(DEFAULT_P, 2), (DEFAULT_P, 5), (2 ** 521 - 1, 3), (2 ** 1279 - 1, 7)]
ENDPOINT = 'http://op.example.com/server'


def ask(rng, server, v2, atype, stype):
    """An association request over the wire: (status, answer, secret)."""
    q = {'openid.mode': 'associate'}
    if v2:
        q['openid.ns'] = OPENID2
    elif rng.random() < .2:
        q['openid.ns'] = rng.choice(['http://openid.net/signon/1.0', 'http://openid.net/signon/1.1'])
    if v2 or atype != 'HMAC-SHA1' or rng.random() < .5:
        q['openid.assoc_type'] = atype
    if v2 or stype != 'no-encryption' or rng.random() < .3:
        q['openid.session_type'] = stype
    elif rng.random() < .3:
        q['openid.session_type'] = ''
    if stype in HASH:
        p, g = rng.choice(PRIMES)
        x = rng.randrange(2, 10 ** 60)
        q['openid.dh_consumer_public'] = b64(btwoc(pow(g, x, p)))
        if (p, g) != (DEFAULT_P, 2) or rng.random() < .2:
            q['openid.dh_modulus'], q['openid.dh_gen'] = b64(btwoc(p)), b64(btwoc(g))
    try:
        web = server.encodeResponse(server.handleRequest(server.decodeRequest(q)))
    except ProtocolError as e:
        web = server.encodeResponse(e)
    body = web.body if isinstance(web.body, str) else web.body.decode('utf-8')
    ans = dict(line.split(':', 1) for line in body.split('\n') if line)
    secret = None
    if 'mac_key' in ans or 'enc_mac_key' in ans:
        if stype in HASH:
            require('mac_key' not in ans, 'a plain-text key that was not asked for', request=q, answer=ans)
            shared = pow(int.from_bytes(base64.b64decode(ans['dh_server_public']), 'big'), x, p)
            enc = base64.b64decode(ans['enc_mac_key'])
            digest = HASH[stype](btwoc(shared)).digest()
            require(len(enc) == len(digest), 'the encrypted key has another size', request=q, answer=ans)
            secret = bytes(a ^ b for a, b in zip(enc, digest))
            require(base64.b64encode(secret).decode() not in body, 'the key is in the answer in the clear', request=q, answer=ans)
        else:
            require('enc_mac_key' not in ans, 'an encrypted key for a plain session', request=q, answer=ans)
            secret = base64.b64decode(ans['mac_key'])
    return web.code, ans, secret, q


def leaks(secret, handle):
    """Four bytes of the key are in the handle (which is public) in some usual notation; of little meaning for one handle, as chance does it once in millions."""
    seen = [handle.encode('utf-8')]
    for part in [handle] + handle.replace('}', '{').split('{'):
        for f in (base64.b64decode, base64.urlsafe_b64decode, bytes.fromhex):
            try:
                seen.append(f(part))
            except ValueError:
                pass
    return any(secret[i:i + 4] in s for s in seen for i in range(len(secret) - 3))


def make_policy(rng, ctx):
    """(negotiator, allowed pairs)"""
    r = rng.random()
    if r < .3:
        return default_negotiator.copy(), list(PAIRS)
    if r < .4:
        return encrypted_negotiator.copy(), [p for p in PAIRS if p[1] != 'no-encryption']
    pairs = [rng.choice(PAIRS) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
    if r < .7:
        n = SessionNegotiator(list(pairs))
    elif r < .85:
        n = default_negotiator.copy()
        n.setAllowedTypes(list(pairs))
    else:
        n = SessionNegotiator([])
        for a, s in list(pairs):
            if rng.random() < .3:
                n.addAllowedType(a)
                pairs += [p for p in PAIRS if p[0] == a]
            else:
                n.addAllowedType(a, s)
    if rng.random() < .3:
        bad = rng.choice([('HMAC-SHA1', 'DH-SHA256'), ('HMAC-SHA256', 'DH-SHA1'), ('HMAC-MD5', 'DH-SHA1'), ('HMAC-SHA1', ''), ('HMAC-SHA1', 'dh-sha1'), ('', 'no-encryption'), ('HMAC-SHA512', None)])
        ctx.event('bad pairs')
        try:
            if bad[1] is not None and rng.random() < .5:
                n.setAllowedTypes(list(pairs) + [bad])
            else:
                n.addAllowedType(*bad)
        except ValueError:
            pass
        else:
            require(False, 'an impossible pair of types was allowed', pair=bad)
    for p in PAIRS:
        require(bool(n.isAllowed(*p)) == (p in pairs), 'the policy is other than set', pair=p, allowed=pairs)
    return n, pairs


def authenticate(rng, server, v2, handle):
    """Signed response to a request naming the handle."""
    rt = 'http://rp.example.com/cb?' + gen.word(rng)
    args = {'openid.mode': rng.choice(['checkid_setup', 'checkid_immediate']), 'openid.identity': 'http://id.example.com/' + gen.word(rng), 'openid.return_to': rt}
    if v2:
        args['openid.ns'] = OPENID2
        args['openid.claimed_id'] = args['openid.identity']
    if handle is not None:
        args['openid.assoc_handle'] = handle
    request = server.decodeRequest(args)
    if rng.random() < .1:
        # an answer given to the user much later is the same
        clock.advance(rng.choice([1, 600, 86400]))
    response = request.answer(True)
    if rng.random() < .3:
        response.fields.setArg('http://ext.example.com/', 'k', value(rng))
    return response, rt


def history(rng, ctx):
    kind = rng.choice(['memory', 'file', 'sqlite'])
    back, other = Reopenable(kind), Stores()
    try:
        server = Server(back.open(), ENDPOINT)
        foreign = Server(other.make('memory'), ENDPOINT)
        allowed = list(PAIRS)
        shared = {}        # handle -> [type, secret, end]
        secrets = set()
        privates, dropped = set(), []
        for _ in range(rng.randint(5, 30)):
            op = rng.choice(['associate'] * 4 + ['policy'] + ['time'] + ['restart'] + ['auth'] * 6 + ['drop'])
            v2 = rng.random() < .6
            if op == 'policy':
                n, allowed = make_policy(rng, ctx)
                server.negotiator = n
            elif op == 'restart':
                # a new process has the default policy
                server = Server(back.open(), ENDPOINT)
                allowed = list(PAIRS)
            elif op == 'drop':
                # another process of the provider gives an association up
                if shared:
                    h = rng.choice(sorted(shared))
                    Server(back.open(), ENDPOINT).signatory.invalidate(h, dumb=False)
                    del shared[h]
                    dropped.append(h)
                    ctx.event('dropped')
            elif op == 'time':
                ends = [a[2] - clock.now for a in shared.values() if a[2] > clock.now]
                clock.advance(rng.choice([1, 3600, 86400 * 3] + [e + d for e in ends[:3] for d in (-1, 0, 1) if e + d > 0]))
            elif op == 'associate':
                pair = atype, stype = rng.choice(PAIRS)
                where = foreign if rng.random() < .1 else server
                ok = where is foreign or pair in allowed
                code, ans, secret, q = ask(rng, where, v2, atype, stype)
                detail = dict(request=q, allowed=allowed, answer=ans, code=code)
                if not ok:
                    ctx.event('unsupported')
                    require(code == 400 and secret is None and 'assoc_handle' not in ans, 'an association not allowed by the policy', **detail)
                    if v2:
                        require(ans.get('error_code') == 'unsupported-type', 'not an unsupported-type error', **detail)
                        named = (ans.get('assoc_type'), ans.get('session_type'))
                        require(named in allowed if allowed else named == (None, None), 'the error does not name an allowed pair', **detail)
                    ctx.state('refused', v2, pair, len(allowed))
                    continue
                ctx.event('associations')
                require(code == 200 and secret is not None and 'error' not in ans and 'error_code' not in ans, 'no association is handed out', **detail)
                h = ans['assoc_handle']
                require(h and h not in shared and h not in privates, 'a handle is used twice', handle=h, **detail)
                require(ans.get('assoc_type') == atype, 'another type than requested', **detail)
                require(ans.get('session_type', 'no-encryption' if not v2 else None) == stype, 'another session than requested', **detail)
                require(len(secret) == TYPES[atype], 'a key of wrong size', size=len(secret), **detail)
                require(secret not in secrets and not any(s[:16] == secret[:16] for s in secrets), 'a key is used twice', **detail)
                require(ans['expires_in'].isdigit() and int(ans['expires_in']) > 0, 'no positive lifetime', **detail)
                require(int(ans['expires_in']) <= where.signatory.SECRET_LIFETIME, 'lives longer than the lifetime of secrets', **detail)
                secrets.add(secret)
                ctx.event('encrypted', int(stype in HASH))
                if where is server:
                    shared[h] = [atype, secret, int(clock.now) + int(ans['expires_in'])]
                else:
                    privates.add(h)
                ctx.state('associate', v2, pair, tuple(sorted(set(allowed))), 'openid.dh_modulus' in q)
            else:
                what = rng.choice(['none', 'shared', 'shared', 'shared', 'expired', 'private', 'unknown', 'near', 'own private'] + ['dropped'] * 2 * bool(dropped))
                handle = None
                pool = [h for h in shared if clock.now < shared[h][2]]
                if what == 'shared' and pool:
                    handle = rng.choice(sorted(pool))
                elif what == 'expired':
                    late = sorted(set(shared) - set(pool))
                    if not late:
                        continue
                    handle = rng.choice(late)
                elif what == 'dropped':
                    handle = rng.choice(dropped)
                elif what in ('private', 'own private') and privates:
                    handle = rng.choice(sorted(privates))
                elif what == 'near' and shared:
                    h = rng.choice(sorted(shared))
                    handle = rng.choice([h[:-1], h + 'x', h + ' ', h.lower(), h.upper(), h[1:], h.replace('{', '%7B'), h.replace('=', ''), h.rpartition('{')[0], 'x' * 300])
                    if handle in shared:
                        continue
                elif what == 'unknown':
                    handle = value(rng) or 'x'
                    if '\n' in handle or not handle.strip():
                        continue
                elif what != 'none':
                    continue
                response, rt = authenticate(rng, server, v2, handle)
                before = response.fields.toPostArgs()
                held = None
                if handle is not None and rng.random() < .5:
                    # some stores drop expired associations themselves
                    held = server.signatory.getAssociation(handle, dumb=False, checkExpiration=False)
                wire = dict((k, v) for k, v in deliver(server.encodeResponse(response), rt)[1] if k.startswith('openid.'))
                require(response.fields.toPostArgs() == before, 'encoding changed the response itself', before=before, after=response.fields.toPostArgs())
                got = wire.get('openid.assoc_handle')
                # the answer may have been given when the handle was over
                valid = handle in shared and clock.now < shared[handle][2]
                state = 'none' if handle is None else 'valid' if valid else 'expired' if handle in shared else 'private' if handle in privates else 'unknown'
                detail = dict(handle=handle, state=state, wire=wire, kind=kind)
                if valid:
                    ctx.event('signed with the shared')
                    require(got == handle, 'not signed with the shared association named', **detail)
                    require('openid.invalidate_handle' not in wire, 'told to drop a valid handle', **detail)
                    require(wire['openid.sig'] == ref_sig(shared[handle][0], shared[handle][1], wire), 'the signature is not by the shared key', **detail)
                else:
                    require(got and got != handle and got not in shared, 'signed with a handle that is not private', **detail)
                    require(got not in privates, 'a private handle is used twice', **detail)
                    privates.add(got)
                    if handle is not None:
                        ctx.event('told to drop')
                        ctx.event('expired handle', int(state == 'expired'))
                        ctx.event('private handle', int(state == 'private'))
                        require(wire.get('openid.invalidate_handle') == handle, 'not told to drop the handle', **detail)
                        require('invalidate_handle' in wire['openid.signed'].split(','), 'telling to drop the handle is not signed', **detail)
                    else:
                        require('openid.invalidate_handle' not in wire, 'told to drop a handle that was not named', **detail)
                    a = server.signatory.getAssociation(got, dumb=True)
                    require(a is not None and 0 < a.expiresIn <= server.signatory.SECRET_LIFETIME and a.handle == got, 'the private association is not valid', **detail)
                    require(a.assoc_type in TYPES and len(a.secret) == TYPES[a.assoc_type], 'the private key has a wrong size', type=a.assoc_type, size=len(a.secret), **detail)
                    if held is not None:
                        require(a.assoc_type == shared[handle][0], 'the private association replacing an expired one has another type', type=a.assoc_type, **detail)
                    require(a.secret not in secrets, 'a private key is used twice', **detail)
                    secrets.add(a.secret)
                    require(wire['openid.sig'] == ref_sig(a.assoc_type, a.secret, wire), 'the signature is not by the private key', **detail)
                    require(server.signatory.getAssociation(got, dumb=False) is None, 'a private association is also a shared one', **detail)
                ctx.state('auth', v2, state, what, kind)
                ctx.sample(state, detail)
    finally:
        back.close()
        other.close()


def batch(rng, ctx):
    """Keys and handles of many associations."""
    stores = Stores()
    state = random.getstate()
    try:
        keys = {'HMAC-SHA1': [], 'HMAC-SHA256': [], 'private': []}
        handles = []
        leaking = 0
        seed = rng.random()
        for i in range(4):
            # as after a restart with an equally seeded generator at the same time
            random.seed(seed)
            server = Server(stores.make('memory'), ENDPOINT)
            for j in range(16):
                for atype in TYPES:
                    code, ans, secret, q = ask(random.Random(j), server, True, atype, 'no-encryption')
                    require(secret is not None, 'no association', answer=ans)
                    require(len(secret) == TYPES[atype], 'a key of wrong size', size=len(secret), type=atype)
                    keys[atype].append(secret)
                    handles.append(ans['assoc_handle'])
                    leaking += leaks(secret, handles[-1])
                response, rt = authenticate(random.Random(5 + j), server, True, None)
                server.encodeResponse(response)
                args = dict(deliver(server.encodeResponse(response), rt)[1])
                a = server.signatory.getAssociation(args['openid.assoc_handle'], dumb=True)
                keys['private'].append(a.secret)
                handles.append(a.handle)
                leaking += leaks(a.secret, a.handle)
        require(leaking < 3, 'handles tell bytes of the keys', count=leaking, handle=handles[-1])
        for name, group in keys.items():
            require(len(set(k[:8] for k in group)) == len(group) == len(set(k[-8:] for k in group)), 'keys repeat', kind=name)
            for size in set(len(k) for k in group):
                some = [int.from_bytes(k, 'big') for k in group if len(k) == size]
                ones = zeros = 0
                full = (1 << 8 * size) - 1
                for k in some:
                    ones |= k
                    zeros |= ~k & full
                if len(some) >= 64:
                    require(ones == full and zeros == full, 'bits of keys are constant', kind=name, ones=hex(ones), zeros=hex(zeros))
        # 32 random bits and the second in every handle: two pairs of equal ones among so few are practically impossible
        require(len(set(handles)) >= len(handles) - 1, 'handles repeat')
        everything = [k for g in keys.values() for k in g]
        require(len(set(everything)) == len(everything), 'keys repeat')
        for h in handles:
            for k in everything[:20]:
                require(b64(k) not in h and k.hex() not in h.lower(), 'the handle gives the key away', handle=h)
        ctx.event('batches')
        ctx.state('batch', len(handles))
    finally:
        random.setstate(state)
        stores.close()


def isolated(rng, ctx):
    """Policies of different providers are independent."""
    stores = Stores()
    try:
        a, b = Server(stores.make('memory'), ENDPOINT), Server(stores.make('memory'), ENDPOINT)
        pairs = [rng.choice(PAIRS)]
        r = rng.random()
        if r < .4:
            a.negotiator.setAllowedTypes(list(pairs))
        elif r < .7:
            a.negotiator = encrypted_negotiator.copy()
            a.negotiator.addAllowedType(*pairs[0])
            pairs += [p for p in PAIRS if p[1] != 'no-encryption']
        else:
            a.negotiator.allowed_types = list(pairs)
        c = Server(stores.make('memory'), ENDPOINT)
        for server, allowed in ((a, pairs), (b, PAIRS), (c, PAIRS)):
            for pair in PAIRS:
                v2 = rng.random() < .5
                code, ans, secret, q = ask(rng, server, v2, *pair)
                require((secret is not None) == (pair in allowed), 'the policy of another provider applies', request=q, answer=ans, allowed=allowed)
        require(not any(encrypted_negotiator.isAllowed(*p) for p in PAIRS if p[1] == 'no-encryption'), 'the encrypted policy allows plain keys')
        ctx.event('isolated')
        ctx.state('isolated', r < .4, r < .7)
    finally:
        stores.close()


SCENARIOS = [('history', history, 3700, 60000), ('batch', batch, 110, 1000), ('isolated', isolated, 140, 2000)]
