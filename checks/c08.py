"""C08: every positive provider response is completely signed and tamper-evident."""
import base64
import re

from openid.association import Association
from openid.extensions import ax, pape, sreg
from openid.message import InvalidNamespace, InvalidOpenIDNamespace, Message
from openid.server.server import EncodingError, Server

from lib import gen
from lib.core import Violation, require
from lib.vclock import clock
from lib.world import OPENID2, SELECT, Stores, deliver, nonce_at, ref_sig

PROP = 'C08'
TECHNIQUE = 'runtime monitoring: every encoded positive response is read off the wire, its signature recomputed independently, then systematically tampered with'
LEVEL_NOTE = ('Random requests, handles, identifiers and extension data on all stores; a monitor recomputes the signature with the specification\'s '
              'arithmetic, requires that all protocol fields are covered, and feeds alterations to both verification paths. Random exploration.')
RULE = ('a case is a provider issuing a batch of responses; counted distinct: (protocol, mode, handle kind, association type, identifier kind, '
        'extensions, encoding) and (alteration kind, verifier)')
NEED = {'responses': 400, 'altered': 8000, 'verified': 400, 'with_extension': 150, 'private': 100, 'shared': 100}
ASSUMPTIONS = ['a covered field which is absent counts as empty, as in the key-value form',
               'the return address has no openid.* arguments of its own']

NONCE = re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ.*\Z')


def xml_ok(s):
    return all(c == '\t' or 0x20 <= ord(c) < 0x7f or 0xa0 <= ord(c) < 0xd800 or 0xe000 <= ord(c) < 0xfffe or ord(c) >= 0x10000 for c in s)


def value(rng):
    for _ in range(50):
        s = rng.choice([gen.text(rng, 0, 6), gen.lit(rng), gen.word(rng, 1, 9), 'a:b', ' x', 'x ', 'a,b', ''])
        if xml_ok(s):
            return s
    return 'x'


def associate(server, rng, v2):
    atype = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
    args = {'openid.mode': 'associate', 'openid.assoc_type': atype, 'openid.session_type': 'no-encryption'}
    if v2:
        args['openid.ns'] = OPENID2
    web = server.encodeResponse(server.handleRequest(server.decodeRequest(args)))
    d = dict(line.split(':', 1) for line in web.body.splitlines())
    return d['assoc_handle'], atype, base64.b64decode(d['mac_key'])


def message(args):
    return Message.fromPostArgs(dict(args))


def verdicts(server, private, key, args):
    """Answers of the ways to verify: 'key' with the shared key, 'own' by the provider (private handles only)."""
    atype, secret, handle = key
    out = {}
    try:
        m = message(args)
    except (InvalidNamespace, InvalidOpenIDNamespace):
        return {'key': False}
    try:
        out['key'] = bool(Association(handle, secret, int(clock.now), 1000, atype).checkMessageSignature(m))
    except ValueError:
        out['key'] = False
    if private:
        out['own'] = bool(server.signatory.verify(m.getArg('http://specs.openid.net/auth/2.0' if m.isOpenID2() else m.getOpenIDNamespace(),
                                                           'assoc_handle') or 'none', m))
    return out


def alterations(rng, args):
    """(kind, altered arguments): each changes something the signature has to cover."""
    signed = args['openid.signed'].split(',')
    fields = [k for k in signed if 'openid.' + k in args and k != 'signed']
    out = []

    def put(kind, **kw):
        new = dict(args)
        new.update({'openid.' + k: v for k, v in kw.items()})
        out.append((kind, new))

    for k in rng.sample(fields, min(len(fields), 5)):
        name = 'openid.' + k
        v = args[name]
        for nv in rng.sample([v + 'x', v[:-1], v.swapcase(), v + ' ', ' ' + v, 'x', v + '\n' + 'x:y', v.replace('http:', 'https:'), v * 2, v + '\x00'], 3):
            if nv != v:
                new = dict(args)
                new[name] = nv
                out.append(('change', new))
        if v:
            new = dict(args)
            del new[name]
            out.append(('remove', new))
            new[name + rng.choice(['x', '.1', '_'])] = v
            out.append(('rename', new))
            other = rng.choice(fields)
            if args['openid.' + other] != v:
                new = dict(args)
                new[name], new['openid.' + other] = args['openid.' + other], v
                out.append(('swap', new))
            # declare the field to belong somewhere else
            if '.' in k and not k.startswith('ns.'):
                alias, rest = k.split('.', 1)
                new = dict(args)
                del new[name]
                new['openid.zz.' + rest] = v
                new['openid.ns.zz'] = args.get('openid.ns.' + alias, 'http://zz.example.com/')
                out.append(('move', new))
            if k.startswith('ns.'):
                new = dict(args)
                new[name] = 'http://relabelled.example.com/'
                out.append(('relabel', new))
    i = rng.randrange(len(signed))
    put('list-remove', signed=','.join(signed[:i] + signed[i + 1:]))
    put('list-add', signed=','.join(signed[:i] + ['extra'] + signed[i:]), extra='forged')
    put('list-add-empty', signed=','.join(signed + ['']))
    if len(signed) > 1:
        mixed = signed[:]
        rng.shuffle(mixed)
        if mixed != signed:
            put('list-order', signed=','.join(mixed))
    put('list-dup', signed=','.join(signed + [signed[i]]))
    put('list-empty', signed='')
    sig = args['openid.sig']
    raw = base64.b64decode(sig)
    j = rng.randrange(len(raw))
    put('sig-bit', sig=base64.b64encode(raw[:j] + bytes([raw[j] ^ (1 << rng.randrange(8))]) + raw[j + 1:]).decode())
    put('sig-short', sig=sig[:rng.randrange(len(sig))])
    put('sig-trunc', sig=base64.b64encode(raw[:rng.randrange(len(raw))]).decode())
    put('sig-long', sig=sig + rng.choice(['A', '=', ' ', sig]))
    put('sig-case', sig=sig.swapcase())
    put('sig-other', sig=base64.b64encode(bytes(len(raw))).decode())
    new = dict(args)
    del new['openid.sig']
    out.append(('sig-none', new))
    return [(k, a) for k, a in out if a != args]


def responses(rng, ctx):
    stores = Stores()
    try:
        server = Server(stores.make(rng.choice(['memory', 'file', 'sqlite'])), gen.url(rng, query=rng.random() < .3))
        keys = {}
        expired = []
        if rng.random() < .5:
            expired.append(associate(server, rng, rng.random() < .5)[0])
            clock.advance(14 * 24 * 3600 + rng.choice([0, 1, 100, 10 ** 6]))
        shared = []
        for _ in range(rng.randint(1, 2)):
            h, t, s = associate(server, rng, rng.random() < .5)
            keys[h] = (t, s)
            shared.append(h)
        privates = []
        nonces = set()
        for _ in range(rng.randint(2, 5)):
            if rng.random() < .5:
                clock.advance(rng.choice([0, 1, 60, 3600]))
            one(rng, ctx, server, keys, shared, expired, privates, nonces)
    finally:
        stores.close()


def one(rng, ctx, server, keys, shared, expired, privates, nonces):
    v2 = rng.random() < .6
    immediate = rng.random() < .3
    pair = [('a', 'b c'), ('x', gen.word(rng))][:rng.randint(0, 2)]
    return_to = '%s://%s%s' % (rng.choice(['http', 'https']), gen.host(rng), gen.port(rng)) + rng.choice(['/', '/cb', '/a/b'])
    if pair:
        return_to += '?' + '&'.join('%s=%s' % (k, v.replace(' ', '+')) for k, v in pair)
    kind = rng.choice(['url', 'url', 'select', 'none'] if v2 else ['url', 'url', 'select'])
    identity = rng.choice([gen.url(rng), gen.url(rng) + '#frag', '=name*' + gen.word(rng), value(rng) or 'x'])
    if identity == SELECT:
        identity = 'x'
    claimed = rng.choice([identity, identity, gen.url(rng)])
    hkind = rng.choice(['none', 'shared', 'shared', 'unknown', 'private'] + (['expired'] * 2 if expired else []))
    if hkind == 'private' and not privates:
        hkind = 'none'
    handle = {'none': None, 'shared': rng.choice(shared), 'unknown': rng.choice(['x', '{HMAC-SHA1}{1}{2}', gen.word(rng, 3, 30)]),
              'private': rng.choice(privates) if privates else None, 'expired': rng.choice(expired) if expired else None}[hkind]
    args = {'openid.mode': 'checkid_immediate' if immediate else 'checkid_setup', 'openid.return_to': return_to}
    if v2:
        args['openid.ns'] = OPENID2
    elif rng.random() < .3:
        args['openid.ns'] = rng.choice(['http://openid.net/signon/1.1', 'http://openid.net/signon/1.0'])
    if kind == 'url':
        args['openid.identity'] = identity
        if v2:
            args['openid.claimed_id'] = claimed
    elif kind == 'select':
        args['openid.identity'] = SELECT
        if v2:
            args['openid.claimed_id'] = SELECT
    if handle is not None:
        args['openid.assoc_handle'] = handle
    request = server.decodeRequest(args)
    if kind == 'select':
        response = request.answer(True, identity=identity, claimed_id=claimed if v2 else None) if v2 else request.answer(True, identity=identity)
    else:
        response = request.answer(True)
    exts = []
    bad = False
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        e = rng.choice(['sreg', 'ax', 'pape', 'own', 'own'])
        if not v2 and e in ('ax', 'pape'):
            e = 'own'
        if e in exts:
            continue
        exts.append(e)
        if e == 'sreg':
            response.addExtension(sreg.SRegResponse(dict((f, value(rng)) for f in gen.sublist(rng, ['nickname', 'email', 'fullname', 'country', 'timezone']))))
        elif e == 'ax':
            fr = ax.FetchResponse()
            for t in gen.sublist(rng, ['http://axschema.org/contact/email', 'http://t.example.com/a', 'http://t.example.com/b?x=1']):
                for _ in range(rng.randint(1, 2)):
                    fr.addValue(t, value(rng))
            response.addExtension(fr)
        elif e == 'pape':
            response.addExtension(pape.Response([pape.AUTH_PHISHING_RESISTANT], nonce_at(clock.now)[:20]))
        else:
            uri = 'http://ext.example.com/%s' % gen.word(rng)
            for k in rng.sample(['a', 'b.c', 'd,e', 'long-name', 'k:v', 'signed', 'mode', 'a b', '\u010d', 'ns.foo', 'openid.a', 'x.openid.mode', 'sig', 'A', 'ns', ' lead', 'trail '], rng.randint(1, 3)):
                v = value(rng)
                if rng.random() < .05:
                    v += '\nidentity:evil'
                    bad = True
                if ',' in k or ':' in k:
                    bad = True
                response.fields.setArg(uri, k, v)
    if rng.random() < .06:
        for i in range(rng.choice([20, 70, 150])):
            response.fields.setArg('http://many.example.com/', 'field%d' % i, value(rng) if rng.random() < .2 else str(i))
        ctx.event('many fields')
    big = rng.random() < .15
    if big:
        response.fields.setArg('http://big.example.com/', 'pad', 'p' * rng.choice([1500, 2000, 4000]))
    try:
        web = server.encodeResponse(response)
    except EncodingError:
        require(bad, 'a response which can be encoded was refused', args=args)
        ctx.event('refused')
        return
    url, got = deliver(web, return_to)
    names = [k for k, v in got if k.startswith('openid.')]
    require(len(names) == len(set(names)), 'a field occurs twice', fields=names)
    wire = dict((k, v) for k, v in got if k.startswith('openid.'))
    ctx.event('responses')
    if exts:
        ctx.event('with_extension')
    # -- coverage
    for f in ('openid.sig', 'openid.signed', 'openid.assoc_handle', 'openid.mode'):
        require(wire.get(f), 'positive response without %s' % f, wire=wire)
    require(wire['openid.mode'] == 'id_res', 'positive response with another mode', wire=wire)
    signed = wire['openid.signed'].split(',')
    for k in wire:
        if k != 'openid.sig':
            require(k[7:] in signed or k == 'openid.signed', 'field %s is not covered by the signature' % k, wire=wire)
    for k in signed:
        require('openid.' + k in wire, 'the signed list names the absent field %s' % k, wire=wire)
    # -- fields demanded by the protocol
    want = {'openid.return_to': return_to}
    if v2:
        want['openid.ns'] = OPENID2
        want['openid.op_endpoint'] = server.op_endpoint
    if kind != 'none':
        want['openid.identity'] = identity
        if v2:
            want['openid.claimed_id'] = claimed
    for k, v in want.items():
        require(wire.get(k) == v, '%s differs' % k, expected=v, got=wire.get(k))
        require(k[7:] in signed, '%s is not signed' % k, signed=signed)
    nonce = wire.get('openid.response_nonce')
    if v2 or nonce is not None:
        require(nonce is not None and NONCE.match(nonce) and nonce[:20] == nonce_at(clock.now, ''), 'bad response nonce', nonce=nonce)
        require(nonce not in nonces, 'nonce repeated', nonce=nonce)
        require(len(nonce) <= 255, 'nonce too long', nonce=nonce)
        nonces.add(nonce)
    # -- the association
    used = wire['openid.assoc_handle']
    private = hkind != 'shared'
    if private:
        require(used not in keys and used != handle, 'signed with a wrong association', handle=handle, used=used, kind=hkind)
        a = server.signatory.getAssociation(used, dumb=True)
        require(a is not None and a.expiresIn > 0, 'signed with an association the provider does not hold', used=used)
        atype, secret = a.assoc_type, a.secret
        privates.append(used)
        if handle is not None:
            require(wire.get('openid.invalidate_handle') == handle, 'no invalidation of an unusable handle', wire=wire)
        ctx.event('private')
    else:
        require(used == handle, 'not signed with the shared association', handle=handle, used=used)
        atype, secret = keys[handle]
        require('openid.invalidate_handle' not in wire, 'a usable handle was invalidated', wire=wire)
        ctx.event('shared')
    require(wire['openid.sig'] == ref_sig(atype, secret, wire), 'the signature is not the specified one', wire=wire)
    ctx.state(v2, immediate, hkind, atype, kind, tuple(sorted(exts)), web.code, big)
    ctx.sample('response', 'v2=%s handle=%s signed=%s' % (v2, hkind, wire['openid.signed']))
    # -- verification and alterations
    key = (atype, secret, used)
    for who, ok in verdicts(server, private, key, wire).items():
        require(ok, 'the unaltered response is not verified (%s)' % who, wire=wire)
        ctx.event('verified')
    for what, altered in alterations(rng, wire):
        for who, ok in verdicts(server, private, key, altered).items():
            require(not ok, 'altered response (%s) is verified (%s)' % (what, who), wire=wire, altered=altered)
            ctx.event('altered')
            ctx.state('alter', what, who)
    if private:
        # the complete direct verification, once; the first answer settles it
        final = dict(wire)
        true = rng.random() < .5
        if not true:
            alts = [a for k, a in alterations(rng, wire) if a.get('openid.sig') and a.get('openid.assoc_handle') and 'mode' not in k
                    and a.get('openid.mode') == 'id_res' and a.get('openid.ns') == wire.get('openid.ns')]
            if not alts:
                return
            final = rng.choice(alts)
        final['openid.mode'] = 'check_authentication'
        from openid.server.server import ProtocolError
        try:
            web = server.encodeResponse(server.handleRequest(server.decodeRequest(final)))
        except (ProtocolError, EncodingError):
            require(not true, 'direct verification failed', query=final)
            return
        answer = dict(line.split(':', 1) for line in web.body.split('\n') if line)
        require(answer.get('is_valid') == ('true' if true else 'false'), 'direct verification answered %s' % answer.get('is_valid'), query=final, wire=wire)
        ctx.event('checked_' + answer['is_valid'])
        privates.remove(used)


SCENARIOS = [('responses', responses, 2800, 14000)]
