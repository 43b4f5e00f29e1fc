"""C03: responses are accepted only at the return address they were issued for."""
from urllib.parse import urlencode

from openid.consumer.consumer import SUCCESS

from lib import gen, refurl
from lib.core import require
from lib.vclock import clock
from lib.world import RP, T_11, T_20, Keyed, Net, SimOP, Stores, assertion, nonce_at, url_args, xrds

PROP = 'C03'
TECHNIQUE = 'runtime monitoring: reference comparison of delivery address and arguments against every completion outcome'
LEVEL_NOTE = ('Correctly signed, fresh assertions are delivered at original, equivalent and different addresses with intact and altered '
              'arguments; an independent URL reference decides which must be accepted. Random exploration.')
RULE = ('a case is a set of deliveries of valid assertions; counted distinct: (protocol, kinds of address edits, kinds of argument edits, '
        'outcome)')
NEED = {'accepted': 300, 'refused_address': 200, 'refused_args': 300}
ASSUMPTIONS = ['the application passes the address and the arguments of the request it received']


def base_url(rng):
    host = rng.choice(['rp.example.com', 'rp.example.com', 'localhost', '127.0.0.1', 'xn--bcher-kva.example', 'a.b.example.co.uk', '[::1]'])
    port = rng.choice(['', '', '', ':8080', ':8443'])
    path = rng.choice(['', '/', '/cb', '/cb/', '/a/b', '/a;p=1/b', '/a/b;p', '/cb;x=1', '/%7Ejoe', '/a%2Fb', '/caf%C3%A9', '/a.b/c', '/A', '/~joe',
                       '/a%20b', '/x/' + gen.word(rng)])
    return '%s://%s%s%s' % (rng.choice(['http', 'https']), host, port, path)


def rt_query(rng):
    pairs, names = [], set()
    large = gen.bulk(rng, .008, 600)
    for _ in range(large or rng.choice([0, 0, 1, 2, 3])):
        k = rng.choice(['next', 'a', 'b', 'x y', 'sid', 'openid', 'é', gen.word(rng, 1, 3 if not large else 6), 'openid.x', 'openid.own.arg'])
        if k in names:
            continue
        names.add(k)
        pairs.append((k, rng.choice(['', '1', 'a b', '&', '=', gen.text(rng, 0, 5), 'http://x/?y=z'])))
    if pairs and rng.random() < .008:
        pairs[rng.randrange(len(pairs))] = ('long', gen.long_text(rng, 9000))
    return pairs


def equivalent(rng, url):
    """Another spelling of the same scheme, host, port and path; the query is free."""
    scheme, auth, path, query, frag = refurl.split(url)
    kinds = []
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(['scheme', 'host', 'port', 'dots', 'pct', 'slash', 'query', 'fragment', 'pctcase'])
        if k == 'scheme':
            scheme = rng.choice([scheme.upper(), scheme.capitalize()])
        elif k == 'host':
            auth = auth.upper() if not auth.startswith('[') else auth
        elif k == 'port':
            if not auth.rstrip(']').rsplit(']')[-1].rpartition(':')[1] or auth.endswith(']'):
                auth += {'http': ':80', 'https': ':443'}[scheme.lower()]
        elif k == 'dots' and path:
            path = rng.choice(['/.' + path, '/zz/..' + path, path if not path.endswith('/') else path + './'])
        elif k == 'pct' and path:
            idx = [i for i, c in enumerate(path) if c.isalnum() and not (path[i - 1:i] == '%' or path[i - 2:i - 1] == '%')]
            if idx:
                i = rng.choice(idx)
                path = path[:i] + '%%%02x' % ord(path[i]) + path[i + 1:]
        elif k == 'pctcase':
            path = path.replace('%2F', '%2f').replace('%C3%A9', '%c3%a9').replace('%7E', '%7e')
        elif k == 'slash' and path in ('', '/'):
            path = '/' if path == '' else ''
        elif k == 'query':
            query = rng.choice([None, '', 'whatever=1', query])
        elif k == 'fragment':
            frag = rng.choice([None, 'f'])
        else:
            continue
        kinds.append(k)
    return refurl_join(scheme, auth, path, query, frag), tuple(sorted(kinds))


def refurl_join(scheme, auth, path, query, frag):
    u = '%s://%s%s' % (scheme, auth, path)
    if query is not None:
        u += '?' + query
    if frag is not None:
        u += '#' + frag
    return u


def different(rng, url):
    scheme, auth, path, query, frag = refurl.split(url)
    k = rng.choice(['scheme', 'host', 'host2', 'port', 'path', 'path', 'path2', 'case', 'param', 'slash', 'encslash', 'userinfo', 'prefix',
                    'odd', 'odd'])
    if k == 'scheme':
        scheme = {'http': 'https', 'https': 'http'}[scheme]
    elif k == 'host':
        auth = rng.choice(['evil.example.com', 'sub.' + auth, auth + '.evil.com', 'evil' + auth, auth.replace('.', '', 1), 'www.' + auth])
    elif k == 'host2':
        host, sep, port = (auth, '', '') if auth.endswith(']') else auth.partition(':') if not auth.startswith('[') else auth.rpartition(':')
        auth = rng.choice([host + '.', host[:-1] + 'x', 'x' + host[1:]]) + sep + port
    elif k == 'port':
        auth = (auth if auth.endswith(']') else auth.rpartition(':')[0] or auth) + rng.choice([':81', ':8081', ':443', ':80', ':8080'])
    elif k == 'path':
        path = rng.choice([path + '/x', path + 'x', path.rstrip('/') + '//', path[:-1], '/other', path + '/..', path + '%00', path + '/%2E%2E/q'])
    elif k == 'path2':
        path = path.replace('b', 'c') if 'b' in path else path + '/b'
    elif k == 'case':
        path = path.swapcase()
    elif k == 'param':
        path = rng.choice([path + ';p=2', path.replace(';', '/'), path.split(';')[0], path + ';', path.replace('p', 'q')])
    elif k == 'slash':
        path = path[:-1] if path.endswith('/') else path + '/'
    elif k == 'encslash':
        path = path.replace('%2F', '/') if '%2F' in path else path[:1] + path[1:].replace('/', '%2F')
    elif k == 'userinfo':
        auth = 'user@' + auth
    elif k == 'prefix':
        path = path[:rng.randint(0, max(0, len(path) - 1))]
        if path and not path.startswith('/'):
            path = '/' + path
    else:
        return rng.choice(['', 'x', '/cb', '//' + auth + path, 'ftp://' + auth + path, 'http://', 'javascript:1', scheme + ':' + auth + path,
                           scheme + '://' + path]), k
    return refurl_join(scheme, auth, path, query, frag), k


def same_place(a, b):
    ca, cb = refurl.canon(a), refurl.canon(b)
    return ca[:5] == cb[:5]


def deliveries(rng, ctx):
    stores = Stores()
    try:
        net = Net()
        store = stores.make('memory')
        op = Keyed(net, 'http://op.example.com/x')
        user = 'http://joe.example.com/'
        net.page(user, xrds([dict(types=[T_20, T_11], uris=[(op.endpoint, None)], local_id=None)]),
                 {'content-type': 'application/xrds+xml'})
        handle = op.share(store, rng)
        for n in range(12):
            base = base_url(rng)
            pairs = rt_query(rng)
            rt = base
            if pairs or rng.random() < .1:
                rt += '?' + urlencode(pairs)
            v2 = rng.random() < .6
            args = assertion(v2, op, handle, user, user, rt, nonce_at(clock.now, 'n%d' % n))
            args = op.sign(args)
            rt = args['openid.return_to']
            rp = RP(store, 'x', rt)
            # the address
            akind = ''
            if rng.random() < .55:
                at, kinds = equivalent(rng, rt)
                akind = 'eq' + ','.join(kinds)
            else:
                at, k = different(rng, rt)
                akind = 'ne' + k
            try:
                same = same_place(rt, at)
            except Exception:
                same = False
            # the arguments
            bare = [k for k in args if not k.startswith('openid.')]
            edit = rng.choice([None, None, None, 'drop', 'change', 'add', 'add', 'addprefix', 'blank', 'case', 'openid', 'own', 'own'])
            fine = True
            before = dict(args)
            if edit in ('drop', 'change', 'blank', 'case') and bare:
                k = rng.choice(bare)
                if edit == 'drop':
                    del args[k]
                elif edit == 'change':
                    args[k] = args[k] + rng.choice(['x', ' ', '&']) if rng.random() < .5 else gen.text(rng, 0, 3)
                elif edit == 'blank':
                    args[k] = ''
                else:
                    args[k] = args[k].swapcase()
            elif edit == 'add':
                args[rng.choice(['evil', 'next', 'sreg.email', 'openid_x', 'Openid.x', 'janrain_nonce', 'openid1_claimed_id', gen.word(rng), 'ns',
                                 gen.lit(rng).replace('openid.', '')])] = gen.text(rng, 0, 3)
            elif edit == 'addprefix':
                args['openid' + gen.word(rng)] = '1'
            elif edit == 'openid':
                args['openid.' + gen.word(rng, 3, 5) + 'q'] = gen.text(rng, 0, 3)    # protocol arguments are another property's matter
            own = [k for k, v in url_args(rt) if k.startswith('openid.')]
            if edit == 'own' and own:
                k = rng.choice(own)
                if rng.random() < .3:
                    del args[k]
                else:
                    args[k] = rng.choice([args[k] + 'x', args[k] + ' ', ' ' + args[k], '', args[k].swapcase()])
            want = dict(url_args(rt))
            got = {k: v for k, v in args.items() if not k.startswith('openid.') or k in want}
            fine = want == got
            resp = rp.complete('none', args, at)
            ok = resp.status == SUCCESS
            ctx.state(v2, akind, edit, same, fine, resp.status)
            require(not ok or same, 'accepted at another address', return_to=rt, delivered=at, edit=akind)
            require(not ok or fine, 'accepted with other arguments', return_to=rt, arguments=got, edit=edit)
            if same and fine and akind.startswith('eq'):
                require(ok, 'response refused at its own address: %s' % getattr(resp, 'message', None), return_to=rt, delivered=at,
                        edit=akind, arguments=got)
            ctx.event('accepted' if ok else 'refused_args' if not fine else 'refused_address' if not same else 'refused_other')
    finally:
        stores.close()


def full_flow(rng, ctx):
    """Through the real provider: what it sends back to the browser is accepted where the browser arrives, and only there."""
    stores = Stores()
    try:
        net = Net()
        op = SimOP(net, 'http://op.example.com/x', stores.make('memory'))
        user = 'http://joe.example.com/'
        types = rng.choice([[T_20], [T_11]])
        net.page(user, xrds([dict(types=types, uris=[(op.endpoint, None)], local_id=None)]), {'content-type': 'application/xrds+xml'})
        store = stores.make(rng.choice(['memory', 'sqlite']))
        for _ in range(3):
            base = base_url(rng)
            rt = base
            pairs = rt_query(rng)
            if pairs:
                rt += '?' + urlencode(pairs)
            realm = '/'.join(base.split('/')[:3]) + '/'
            rp = RP(store, realm, rt)
            _, args, _ = rp.begin('s', user)
            url, got = op.authenticate(args, {user})
            require(same_place(url, rt), 'provider sent the user elsewhere', return_to=rt, url=url)
            where = rng.choice([url, url.split('?')[0], rt, rt.split('?')[0]])
            bad = rng.random() < .4
            if bad:
                where, k = different(rng, where)
                try:
                    bad = not same_place(where, rt)
                except Exception:
                    pass
            resp = rp.complete('s', got, where)
            ctx.state('flow', types, bad, resp.status, len(pairs))
            if bad:
                require(resp.status != SUCCESS, 'accepted at another address', return_to=rt, delivered=where)
                ctx.event('refused_address')
            elif same_place(where, rt) and k_ok(where):
                require(resp.status == SUCCESS, 'genuine response refused: %s' % getattr(resp, 'message', None), return_to=rt,
                        delivered=where, args=dict(got))
                ctx.event('accepted')
    finally:
        stores.close()


def k_ok(url):
    return url.startswith('http') and '..' not in url and '%00' not in url


SCENARIOS = [
    ('deliveries', deliveries, 5500, 27500),
    ('full_flow', full_flow, 3100, 15500),
]
