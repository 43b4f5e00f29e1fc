"""C04: a success response hands out only signed data as signed."""
from openid.consumer.consumer import SUCCESS
from openid.extensions import ax, sreg
from openid.extensions.draft import pape5
from openid.message import BARE_NS, OPENID_NS

from lib import gen
from lib.core import require
from lib.vclock import clock
from lib.world import OPENID2, RP, T_11, T_20, Keyed, Net, Stores, assertion, nonce_at, xrds

PROP = 'C04'
TECHNIQUE = 'runtime monitoring: every accessor of every success response compared with the set of fields really signed'
LEVEL_NOTE = ('Success responses with randomly chosen signed and unsigned fields, on both protocol versions, over shared-key and direct '
              'verification; all accessors are compared with the generator\'s record of what was signed. Random exploration.')
RULE = ('a case is a set of success responses; counted distinct: (protocol, namespaces, fully/partly/not signed, accessor, outcome)')
NEED = {'odd names': 200, 'success': 300, 'signed_returned': 1000, 'unsigned_withheld': 1000, 'partial_refused': 150, 'extension_objects': 300}
ASSUMPTIONS = ['providers sign the declaration (openid.ns.*) of every extension namespace whose fields they sign']

SREG11 = 'http://openid.net/extensions/sreg/1.1'
SREG10 = 'http://openid.net/sreg/1.0'
AX_NS = 'http://openid.net/srv/ax/1.0'
PAPE = 'http://specs.openid.net/extensions/pape/1.0'
SREG_FIELDS = ['fullname', 'nickname', 'dob', 'email', 'gender', 'postcode', 'country', 'language', 'timezone']


def sreg_values(rng):
    return {k: rng.choice(['v', gen.text(rng, 1, 4, strip=True) or 'x', 'F', 'cz']) for k in gen.sublist(rng, SREG_FIELDS)}


def ax_values(rng):
    out = {'mode': 'fetch_response'}
    for i in range(rng.randint(1, 3)):
        a = 'ext%d' % i
        out['type.' + a] = 'http://axschema.org/%s/%d' % (gen.word(rng, 2, 4), i)
        if rng.random() < .5:
            out['value.' + a] = gen.text(rng, 1, 4)
        else:
            n = rng.randint(0, 3)
            out['count.' + a] = str(n)
            for j in range(1, n + 1):
                out['value.%s.%d' % (a, j)] = gen.text(rng, 1, 4)
    return out


def pape_values(rng):
    out = {'auth_policies': rng.choice(['http://schemas.openid.net/pape/policies/2007/06/none', 'http://p.example.com/1 http://p.example.com/2'])}
    if rng.random() < .5:
        out['auth_time'] = '2023-01-02T03:04:05Z'
    if rng.random() < .5:
        out['auth_level.ns.al'] = 'http://levels.example.com/'
        out['auth_level.al'] = '3'
    return out


def custom_values(rng):
    return {rng.choice([gen.word(rng, 1, 5), 'a.b', 'mode', 'sig', 'x']): gen.text(rng, 0, 4) for _ in range(rng.randint(1, 4))}


def responses(rng, ctx):
    stores = Stores()
    try:
        net = Net()
        stateless = rng.random() < .3
        op = Keyed(net, 'http://op.example.com/x', lambda q: True)
        store = stores.make(rng.choice(['memory', 'file', 'sqlite']))
        user = 'http://joe.example.com/'
        net.page(user, xrds([dict(types=[T_20, T_11], uris=[(op.endpoint, None)], local_id=None)]),
                 {'content-type': 'application/xrds+xml'})
        handle = op.share(store, rng)
        for n in range(4):
            one_response(rng, ctx, net, op, store, user, 'unknown' if stateless else handle, n)
    finally:
        stores.close()


def one_response(rng, ctx, net, op, store, user, handle, n):
    v2 = rng.random() < .7
    fields = {}        # (namespace, key) -> (value, signed?)
    extra, signed = {}, []
    plans = [('sreg', SREG11, sreg_values)]
    if v2:
        plans += [('sreg', SREG10, sreg_values), ('ax', AX_NS, ax_values), ('pape', PAPE, pape_values),
                  ('foo', 'http://ext.example.com/foo', custom_values), ('s', 'http://ext.example.com/s', custom_values)]
    chosen, used = [], set()
    for p in plans:
        if p[0] in used or rng.random() < .4:
            continue
        used.add(p[0])
        chosen.append(p)
    modes = {}
    for alias, uri, maker in chosen:
        values = maker(rng)
        if not values:
            continue
        if not v2 and alias == 'sreg':
            uri = SREG11
        mode = rng.choice(['all', 'all', 'none', 'some', 'one-off'])
        modes[uri] = mode
        keys = sorted(values)
        if mode == 'all':
            sk = set(keys)
        elif mode == 'none':
            sk = set()
        elif mode == 'some':
            sk = set(gen.sublist(rng, keys))
        else:
            sk = set(keys) - {rng.choice(keys)}
        name = rng.choice([alias, alias, alias + 'x']) if v2 else alias
        if v2:
            extra['openid.ns.' + name] = uri
            if sk:
                signed.append('ns.' + name)
        for k in keys:
            extra['openid.%s.%s' % (name, k)] = values[k]
            fields[uri, k] = (values[k], k in sk)
            if k in sk:
                signed.append('%s.%s' % (name, k))
    # protocol-level fields
    for k in gen.sublist(rng, ['invalidate_handle', 'foo', 'user_setup_url2', gen.word(rng, 4, 6)]):
        v = gen.text(rng, 0, 3)
        s = rng.random() < .5
        if 'openid.' + k in extra:
            continue
        extra['openid.' + k] = v
        fields[OPENID_NS, k] = (v, s)
        if s:
            signed.append(k)
    rng.shuffle(signed)
    rt = 'http://rp.example.com/cb'
    args = assertion(v2, op, handle, user, user, rt, nonce_at(clock.now, 'n%d' % n), extra, signed)
    if rng.random() < .3:
        lst = args['openid.signed'].split(',')
        rng.shuffle(lst)
        args['openid.signed'] = ','.join(lst)
    if handle in op.keys:
        args = op.sign(args)
    else:
        args['openid.sig'] = 'eHh4'
    # an attacker adds namespaces and fields in transit
    if rng.random() < .15:
        # a signed name that only looks like that of the field
        for (uri, k), (v, s) in sorted(fields.items(), key=repr):
            if not s and uri == OPENID_NS and 'openid.' + k in args and handle in op.keys:
                odd = rng.choice([k + ' ', ' ' + k, 'openid.' + k, k + '\t', k.upper() if k.upper() != k else k + ' ', '\u00a0' + k])
                args['openid.signed'] += ',' + odd
                args['openid.' + odd] = 'x'
                fields[OPENID_NS, odd] = ('x', True)
                if '.' in odd:
                    del fields[OPENID_NS, odd]
                args = op.sign(args)
                ctx.event('odd names')
                break
    if rng.random() < .5:
        what = rng.choice(['field', 'ns', 'bare-alias'])
        if what == 'field':
            for alias, uri, _ in chosen:
                k = rng.choice(['email', 'type.evil', 'injected'])
                for name in (alias, alias + 'x'):
                    key = 'openid.%s.%s' % (name, k)
                    if extra.get('openid.ns.' + name) == uri and key not in args:
                        args[key] = 'evil'
                        fields[uri, k] = ('evil', False)
                        modes[uri] = 'injected'
        elif what == 'ns' and v2:
            args['openid.ns.zz'] = 'http://ext.example.com/zz'
            args['openid.zz.a'] = 'evil'
            fields['http://ext.example.com/zz', 'a'] = ('evil', False)
            modes['http://ext.example.com/zz'] = 'injected'
        else:
            k = 'inj' + gen.word(rng, 2, 4)
            args['openid.' + k] = 'evil'
            fields[OPENID_NS, k] = ('evil', False)
    rp = RP(store, 'http://rp.example.com/', rt)
    resp = rp.complete('s', args, rt)
    require(resp.status == SUCCESS, 'valid response refused: %s' % getattr(resp, 'message', None), args=args)
    ctx.event('success')
    sl = args['openid.signed'].split(',')
    # protocol fields
    for k in ['identity', 'return_to', 'mode', 'claimed_id', 'op_endpoint', 'response_nonce', 'assoc_handle', 'sig', 'signed', 'ns']:
        if 'openid.' + k in args:
            fields[OPENID_NS, k] = (args['openid.' + k], k in sl)
    require(resp.getReturnTo() == args['openid.return_to'], 'getReturnTo differs from the signed one', got=resp.getReturnTo())
    require(resp.identity_url == user, 'identity differs', got=resp.identity_url)
    marker = object()
    for (uri, k), (value, s) in fields.items():
        if k == 'ns' and uri == OPENID_NS:
            continue          # the message's own namespace is not a field
        got = resp.getSigned(uri, k, marker)
        sg = resp.isSigned(uri, k)
        if s:
            require(got == value, 'signed field not returned unchanged', ns=uri, key=k, value=value, got=repr(got))
            require(sg, 'signed field reported as unsigned', ns=uri, key=k)
            ctx.event('signed_returned')
        else:
            require(got is marker, 'unsigned field returned as signed', ns=uri, key=k, got=repr(got), signed=sl)
            require(not sg, 'unsigned field reported as signed', ns=uri, key=k)
            require(resp.getSigned(uri, k) is None, 'unsigned field returned as signed', ns=uri, key=k)
            ctx.event('unsigned_withheld')
    # the protocol's own fields as a whole, and what is outside of the protocol
    whole = all(s for (u, k), (v, s) in fields.items() if u == OPENID_NS and k != 'ns')
    for got in (resp.getSignedNS(OPENID_NS), resp.extensionResponse(OPENID_NS, True)):
        require(whole or got is None, 'namespace with unsigned fields handed out as signed', ns='the protocol', got=got and dict(got), signed=sl)
    for k in [k for k in args if not k.startswith('openid.')] + ['absent', 'identity']:
        for ns in (BARE_NS, 'http://not.there.example/'):
            require(not resp.isSigned(ns, k) and resp.getSigned(ns, k, marker) is marker, 'an argument outside of the protocol is handed out as signed', key=k, ns=ns)
    for uri in sorted({u for u, _ in fields if u != OPENID_NS}):
        want = {k: v for (u, k), (v, s) in fields.items() if u == uri}
        full = all(s for (u, k), (v, s) in fields.items() if u == uri)
        for got in (resp.getSignedNS(uri), resp.extensionResponse(uri, True)):
            got = None if got is None else dict(got)
            if full:
                require(got == want, 'signed namespace not returned unchanged', ns=uri, want=want, got=got)
            else:
                require(got is None, 'namespace with unsigned fields handed out as signed', ns=uri, want=want, got=got, signed=sl)
                ctx.event('partial_refused')
        loose = resp.extensionResponse(uri, False)
        require(dict(loose) == want, 'unsigned view differs from what arrived', ns=uri, want=want, got=dict(loose))
        ctx.state(v2, uri, modes.get(uri), full, len(want))
    # extension objects in their default mode
    objs = [('sreg', u) for u in (SREG11, SREG10)] + [('ax', AX_NS), ('pape', PAPE)]
    for kind, uri in objs:
        want = {k: v for (u, k), (v, s) in fields.items() if u == uri}
        if not want:
            continue
        full = all(s for (u, k), (v, s) in fields.items() if u == uri)
        ctx.event('extension_objects')
        if kind == 'sreg':
            r = sreg.SRegResponse.fromSuccessResponse(resp)
            data = dict(r.items()) if r is not None else {}
            if full:
                require(data == {k: v for k, v in want.items() if k in SREG_FIELDS}, 'signed registration data changed', want=want, got=data)
            else:
                require(not data, 'unsigned registration data handed out', want=want, got=data, signed=sl)
            r = sreg.SRegResponse.fromSuccessResponse(resp, signed_only=False)
            data = dict(r.items()) if r is not None else {}
            require(data == {k: v for k, v in want.items() if k in SREG_FIELDS}, 'registration data changed', want=want, got=data)
        elif kind == 'ax':
            try:
                r = ax.FetchResponse.fromSuccessResponse(resp)
            except ax.AXError:
                r = None
                full = full and False
            data = r.data if r is not None else {}
            if not all(s for (u, k), (v, s) in fields.items() if u == uri):
                require(not data, 'unsigned attributes handed out', want=want, got=repr(data), signed=sl)
            elif full:
                require(r is not None, 'signed attributes not handed out', want=want)
                for k in want:
                    if k.startswith('type.'):
                        a = k[5:]
                        if 'value.' + a in want:
                            require(data.get(want[k]) == [want['value.' + a]], 'attribute changed', want=want, got=repr(data))
                        else:
                            vals = [want['value.%s.%d' % (a, j)] for j in range(1, int(want['count.' + a]) + 1)]
                            require(data.get(want[k], []) == vals, 'attribute changed', want=want, got=repr(data))
        else:
            r = pape5.Response.fromSuccessResponse(resp)
            if not full:
                got = None if r is None else (r.auth_policies, r.auth_time, r.auth_levels)
                require(r is None or (not r.auth_policies and not r.auth_time and not r.auth_levels),
                        'unsigned policy data handed out', want=want, got=repr(got), signed=sl)
            else:
                require(r is not None, 'signed policy data not handed out', want=want)
                require(r.auth_time == want.get('auth_time'), 'authentication time changed', want=want, got=r.auth_time)
                pol = [p for p in want['auth_policies'].split(' ') if not p.endswith('/none')]
                require(r.auth_policies == pol, 'policies changed', want=pol, got=r.auth_policies)


SCENARIOS = [('responses', responses, 8600, 43000)]
