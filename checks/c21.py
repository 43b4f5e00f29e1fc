"""C21: URL normalization is stable and never merges different resources."""
import re
from urllib.parse import unquote_to_bytes

from openid.consumer.discover import DiscoveryFailure, normalizeURL
from openid.urinorm import urinorm

from lib import gen, refurl
from lib.core import Violation, require

PROP = 'C21'
TECHNIQUE = ('runtime monitoring: an independent reading of what a URL denotes is compared before and after every real normalization; metamorphic monitors for '
             'spellings of one resource, for neighbouring resources and for repeated normalization')
LEVEL_NOTE = 'Random resources rendered in random spellings, one-component neighbours and hostile texts; sampling, biased to encoded delimiters and dots.'
RULE = 'a case is 30 resources or texts; counted distinct: (part, which components are present or changed, verdict)'
NEED = {'spellings': 20000, 'neighbours': 15000, 'hostile': 15000, 'refused': 5000, 'must refuse': 2000, 'identifiers': 5000}
ASSUMPTIONS = ['a query is a list of form fields; a field without "=" has the empty value and empty fields do not count',
               'a percent-encoded character other than a slash (or a delimiter of query fields) denotes the character itself',
               'tabs, line ends and leading control characters in a URL are dropped or refused', 'internationalized hosts are those of IDNA 2003',
               'an empty host beside user information is left open (pinned by a test)']

UNRES = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~'
SUB = "!$&'()*+,;="
PCHAR = UNRES + SUB
INTL = [('\u03c0', 'xn--1xa'), ('\u010d', 'xn--bea'), ('b\u00fccher', 'xn--bcher-kva'), ('\u4e2d\u6587', 'xn--fiq228c')]


def ref_host(host):
    if host.startswith('['):
        return host.lower()
    text = unquote_to_bytes(host).decode('utf-8', 'replace')
    if text.isascii():
        return text.lower()
    return text.lower().encode('idna').decode('ascii')


def segments(path):
    """Decoded path segments without dot segments (an encoded slash is not a separator)."""
    raw = [unquote_to_bytes(s) for s in path.split('/')[1:]] if path else [b'']
    out = []
    for i, s in enumerate(raw):
        last = i == len(raw) - 1
        if s == b'.':
            if last:
                out.append(b'')
        elif s == b'..':
            if out:
                out.pop()
            if last:
                out.append(b'')
        else:
            out.append(s)
    return tuple(out)


def form(query):
    out = []
    for field in (query or '').split('&'):
        if field:
            k, _, v = field.partition('=')
            out.append(tuple(unquote_to_bytes(x.replace('+', ' ')) for x in (k, v)))
    return tuple(out)


def meaning(url):
    """What the URL denotes, or ValueError."""
    scheme, auth, path, query, frag = refurl.split(url)
    if scheme is None or auth is None:
        raise ValueError('not absolute')
    scheme = scheme.lower()
    userinfo, at, hostport = auth.rpartition('@')
    m = re.match(r'^(\[[^\]]*\]|[^:\[\]]*)(?::([0-9]*))?$', hostport)
    if not m:
        raise ValueError('host')
    port = m.group(2) or ''
    port = int(port) if port else {'http': 80, 'https': 443}.get(scheme)
    if path and not path.startswith('/'):
        raise ValueError('path')
    return {'scheme': scheme, 'userinfo': (at, userinfo), 'host': ref_host(m.group(1)), 'port': port, 'path': segments(path), 'query': form(query),
            'fragment': unquote_to_bytes(frag or '')}


# --- resources and their spellings ------------------------------------------------------------------

SEGS = [b'', b'a', b'b', b'A', b'a/b', b'/', b'..a', b'a..', b'...', b'%', b'%2F', b'%41', b'?', b'#', b'&', b'=', b'+', b' ', b';', b':', b'@', b'\xc3\xa9', b'\xff', b'\x00', b'[', b']',
        b'\\', b'"', b'<', b'~user', b'a%20b', b'index.html', b'*', b'|', b'%2e', b'%252F']
DATA = [b'', b'a', b'b', b'A', b'&', b'=', b'+', b' ', b'%', b'%26', b'%2526', b'#', b'?', b'/', b'\xc3\xa9', b'\xff\xfe', b';', b':', b'[', b'\n', b'\x00', b"'", b'~', b'*', b'a=b&c', b'http://x/?y#z']


def resource(rng):
    r = rng.random()
    if r < 0.75:
        host = gen.host(rng)
    elif r < 0.83:
        host = '%d.%d.%d.%d' % tuple(rng.randint(0, 255) for _ in range(4))
    elif r < 0.9:
        host = rng.choice(['[::1]', '[2001:db8::1]', '[fe80::a:b]', '[::ffff:1.2.3.4]', '[2001:0db8:0000:0000:0000:0000:0000:0001]', '[0:0:0:0:0:0:0:1]', '[2001:db8:0:0:1::]', '[::0001]', '[fe80::0a:0]'])
    elif r < 0.95:
        host = rng.choice(INTL)[1] + '.' + gen.host(rng)
    else:
        host = rng.choice(['*.', 'localhost', '']) + gen.host(rng)
    segs = [rng.choice(SEGS) if rng.random() < 0.6 else gen.word(rng, 1, 5).encode() for _ in range(rng.choice((1, 1, 2, 2, 3, 4)))]
    query = [(rng.choice(DATA), rng.choice(DATA) if rng.random() < 0.6 else gen.word(rng).encode()) for _ in range(gen.bulk(rng, .004) or rng.choice((0, 0, 0, 1, 1, 1, 2, 2, 3, 12)))]
    if rng.random() < .004:
        segs[rng.randrange(len(segs))] = gen.word(rng, 1, 2).encode() * gen.bulk(rng, 1, 9000)
    elif rng.random() < .004:
        segs += [rng.choice(SEGS) for _ in range(gen.bulk(rng, 1, 300))]
    return {'scheme': rng.choice(['http', 'https']), 'userinfo': rng.choice(['', '', '', '', 'u', 'u:p', 'u:', ':p', 'U%41:b', 'a.b:c:d']), 'host': host,
            'port': rng.choice([None, None, None, 80, 443, 8080, 1, 65535, 0]), 'path': segs, 'query': query,
            'fragment': rng.choice([b'', b'', b'', b'f', b'a/b?c', b'%', b'%41', b'#', b'\xc3\xa9', b'\xff', b'a b', b'&=+', b'[', b'%2523'])}


def flip(rng, s):
    return ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def enc(rng, data, plain, p):
    """Percent-encode bytes: what is not plain always, the rest sometimes."""
    out = []
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError:
        text = None
    if text is not None and rng.random() < 0.3:
        units = [c.encode('utf-8') for c in text]
    else:
        units = [bytes([b]) for b in data]
    for u in units:
        if len(u) > 1 and rng.random() < 0.5:
            out.append(u.decode('utf-8'))
            continue
        for b in u:
            c = chr(b)
            if b < 0x80 and c in plain and rng.random() > p:
                out.append(c)
            else:
                out.append(rng.choice(['%%%02X', '%%%02x']) % b)
    return ''.join(out)


def spell(rng, res):
    """One of the spellings of a resource."""
    p = rng.choice((0, 0, 0.2, 1))
    host = res['host']
    if not host.startswith('['):
        if rng.random() < 0.3:
            for u, x in INTL:
                if host.startswith(x + '.'):
                    host = rng.choice([u, u.upper() if u.upper().lower() == u else u]) + host[len(x):]
        if rng.random() < 0.4:
            host = ''.join('%%%02x' % ord(c) if c.isascii() and c.isalnum() and rng.random() < 0.2 else c for c in host)
    host = ''.join(c.upper() if c.isascii() and rng.random() < 0.5 else c for c in host) if rng.random() < 0.5 else host
    port = res['port']
    default = {'http': 80, 'https': 443}[res['scheme']]
    if port is None or port == default:
        port = rng.choice(['', '', ':', ':%d' % default])
    else:
        port = ':%d' % port
    segs = [enc(rng, s, PCHAR + ':@', p) for s in res['path']]
    if res['path'] == [b''] and rng.random() < 0.4:
        path = ''
    else:
        out = []
        for s in segs:
            while rng.random() < 0.15:
                out.extend(rng.choice([['.'], ['zz', '..'], ['%2e'], ['q', 'r', '%2E.', '..'], ['', '..'], ['a%2Fb', '..']]))
            out.append(s)
        if not out[-1] and rng.random() < 0.2:
            out[-1] = rng.choice(['.', '%2E', 'zz/..', 'y/.%2e'])
        path = '/' + '/'.join(out)
        if rng.random() < 0.1:
            path = rng.choice(['/..', '/../..', '/.']) + path
    query = '&'.join(enc(rng, k, UNRES + "!$'()*,;:@/?", p).replace('%20', rng.choice(['%20', '+'])) + '=' +
                     enc(rng, v, UNRES + "!$'()*,;:@/?=", p).replace('%20', rng.choice(['%20', '+'])) for k, v in res['query'])
    url = '%s://%s%s%s%s' % (flip(rng, res['scheme']) if rng.random() < 0.3 else res['scheme'], res['userinfo'] + '@' if res['userinfo'] else '', host, port, path)
    if query:
        url += '?' + query
    frag = enc(rng, res['fragment'], PCHAR + ':@/?', p)
    if frag:
        url += '#' + frag
    return url


def same(url, result):
    """The normalization denotes what the URL denoted."""
    try:
        before = meaning(url)
    except ValueError as e:
        raise Violation('a URL that denotes nothing was normalized: %s' % e, url=url, result=result)
    try:
        after = meaning(result)
    except ValueError as e:
        raise Violation('the result of normalization is no URL: %s' % e, url=url, result=result)
    for k in before:
        require(before[k] == after[k], 'normalization changed the %s' % k, url=url, result=result, before=before[k], after=after[k])
    require(re.match(r"^[A-Za-z0-9\-._~:/?#\[\]@!$&'()*+,;=%]*$", result) and
            not re.search('%(?![0-9A-Fa-f]{2})', result.rpartition('@')[2] if '@' in url else result), 'result has characters no URL has',
            url=url, result=result)


def norm(url):
    try:
        res = urinorm(url)
    except ValueError:
        return None
    require(isinstance(res, str), 'normalization is not text', url=url, result=repr(res))
    require(urinorm(res) == res, 'normalization is not idempotent', url=url, result=res, again=urinorm(res))
    return res


def spellings(rng, ctx):
    for _ in range(30):
        res = resource(rng)
        urls = [spell(rng, res) for _ in range(3)]
        results = [norm(u) for u in urls]
        for u, r in zip(urls, results):
            require(r is not None, 'a valid URL is refused', url=u, resource=res)
            same(u, r)
        require(len(set(results)) == 1, 'spellings of one resource normalize differently', urls=urls, results=results)
        if rng.random() < 0.2:
            require(urinorm(urls[0].encode('utf-8')) == results[0], 'bytes normalize differently from text', url=urls[0])
        ctx.event('spellings', 3)
        ctx.state('spell', res['scheme'], bool(res['userinfo']), res['host'][:1] == '[', res['port'], len(res['path']), len(res['query']), res['fragment'][:1])
        ident = normalizeURL(urls[0])
        require('#' not in ident and ident == results[0].partition('#')[0], 'identifier is not the normalized URL without fragment', url=urls[0], identifier=ident)
        ctx.event('identifiers')


def neighbour(rng, res):
    out = dict(res)
    kind = rng.choice(['scheme', 'userinfo', 'host', 'port', 'path', 'path', 'path', 'query', 'query', 'query', 'fragment'])
    if kind == 'scheme':
        out['scheme'] = 'https' if res['scheme'] == 'http' else 'http'
    elif kind == 'userinfo':
        out['userinfo'] = rng.choice(['v', 'u:p', '', 'U', 'u%3Ap', 'u'])
    elif kind == 'host':
        if res['host'].startswith('['):
            out['host'] = '[::2]'
        else:
            h = res['host']
            out['host'] = rng.choice([h + '.', 'x' + h, h.replace('.', '-', 1), 'www.' + h, h.split('.')[0], h[:-1] + ('a' if h[-1] != 'a' else 'b'), h + '.com'])
    elif kind == 'port':
        out['port'] = rng.choice([None, 80, 443, 8080, 8081, 0, 1])
    elif kind == 'path':
        segs = list(res['path'])
        i = rng.randrange(len(segs))
        how = rng.choice(['add', 'drop', 'case', 'join', 'split', 'encode', 'decode', 'swap', 'slash'])
        if how == 'add':
            segs.insert(i, rng.choice([b'', b'a']))
        elif how == 'drop' and len(segs) > 1:
            del segs[i]
        elif how == 'case':
            segs[i] = segs[i].swapcase()
        elif how == 'join' and i + 1 < len(segs):
            segs[i:i + 2] = [segs[i] + b'/' + segs[i + 1]]
        elif how == 'split':
            segs[i:i + 1] = segs[i].split(b'/')
        elif how == 'encode':
            segs[i] = segs[i].replace(b'%', b'%25').replace(b'/', b'%2F') or b'%20'
        elif how == 'decode':
            segs[i] = unquote_to_bytes(segs[i])
        elif how == 'swap':
            segs.reverse()
        elif how == 'slash':
            segs.append(b'')
        if any(s in (b'.', b'..') for s in segs):
            segs = [b'x']
        out['path'] = segs
    elif kind == 'query':
        q = list(res['query'])
        how = rng.choice(['add', 'drop', 'swap', 'edit', 'encode', 'plus', 'merge', 'dup'])
        if how == 'add' or not q:
            q.append((b'z', b''))
        elif how == 'drop':
            del q[rng.randrange(len(q))]
        elif how == 'swap':
            q.reverse()
        elif how == 'edit':
            q[0] = (q[0][0], q[0][1] + b'x')
        elif how == 'encode':
            q[0] = (q[0][0], q[0][1].replace(b'%', b'%25').replace(b'&', b'%26').replace(b' ', b'%20'))
        elif how == 'plus':
            q[0] = (q[0][0].replace(b'+', b' '), q[0][1].replace(b'+', b' ').replace(b'=', b''))
        elif how == 'merge':
            q[0] = (q[0][0] + b'=' + q[0][1], b'')
        elif how == 'dup':
            q.append(q[0])
        out['query'] = q
    else:
        out['fragment'] = rng.choice([b'', b'g', b'f', b'%', b'%25', b'F', b'%C3%A9', res['fragment'] + b'x'])
    return kind, out


def neighbours(rng, ctx):
    for _ in range(30):
        res = resource(rng)
        kind, other = neighbour(rng, res)
        u1, u2 = spell(rng, res), spell(rng, other)
        m1, m2 = meaning(u1), meaning(u2)
        r1, r2 = norm(u1), norm(u2)
        require(r1 is not None, 'a valid URL is refused', url=u1)
        if r2 is not None:
            same(u2, r2)
        require((r1 == r2) == (m1 == m2) or r2 is None, 'different resources normalize alike' if r1 == r2 else 'spellings of one resource normalize differently',
                first=u1, second=u2, result=[r1, r2])
        ctx.event('neighbours')
        ctx.state('neighbour', kind, m1 == m2)


# --- hostile texts ----------------------------------------------------------------------------------

MUST_REFUSE = ['', '/', 'http:', 'http:/', 'http://', 'http:///', 'http:///a', 'https:///a', '//example.com/', 'example.com', 'example.com/a', 'ftp://example.com/', 'file:///etc/passwd',
               'javascript:alert(1)', 'mailto:a@b', 'httpx://example.com/', 'http://exa mple.com/', 'http://<x>.com/', 'http://a"b.com/', 'http://example.com:99999/',
               'http://example.com:x/', 'http://example.com:-1/', 'http://example.com:8 0/', 'http://a%2Fb.com/', 'http://a%3Fb.com/', 'http://a%23b.com/', 'http://a%40b.com/',
               'http://a%3A80/', 'http://a%20b/', 'http://[::1/', 'http://::1]/', 'http://a%5Bb/', 'http://..com/', 'http://.com/', 'http://a..b/', 'http://example.com\\@evil.com/',
               'http://%00.com/', 'http://a^b.com/', 'http://{x}.com/', 'http://a|b.com/', 'http://a%25b.com/', 'http://a%2525b/', 'data:text/html,x', 'http:example.com',
               'http:/example.com/', ':http://example.com/', '=http://example.com', 'xri://=a', 'gopher://example.com/', 'ftp://[::1]/', 'urn:x:y', '?http://example.com/', '#http://a.com/',
               'http://:80/', 'http://a]@[::1/', 'http://:/', 'http://:80//evil.com/', 'https://:8443/', 'http://' + 'a' * 64 + '.com/']
BITS = ['http://', 'https://', 'HTTP://', 'http:', '//', '/', ':', '@', '?', '#', '[', ']', '%', '%2F', '%2f', '%3A', '%40', '%23', '%3F', '%25', '%2525', '%2E', '%2e%2e', '..', '.', '*', '&', '=',
        '+', ';', 'a', 'b', 'example.com', 'EXAMPLE.com', 'evil.com', ':80', ':443', ':0', ':8080', '%FF', '%C3%A9', '\u00e9', '\u0130', '\u00df', '\u3002', '\uff0e', '\u2100', '\u200b', ' ', '\\', '|', '~', '[::1]',
        '[::1%25eth0]', '[v1.a]', '1.2.3.4', '%zz', '%4', '%u0041', '%00', 'user:pw@', 'xn--', 'xn--bea', "'", '"', '<', ',', '\uff0f', '\ufe56', '\U0001f600']


def hostile(rng, ctx):
    for _ in range(30):
        r = rng.random()
        must = False
        if r < 0.15:
            url = rng.choice(MUST_REFUSE)
            must = True
        elif r < 0.5:
            url = ''.join(rng.choice(BITS) for _ in range(rng.randint(0, 8)))
            if rng.random() < 0.7:
                url = rng.choice(['http://', 'https://']) + url
        else:
            url = list(spell(rng, resource(rng)))
            for _ in range(rng.randint(1, 3)):
                i = rng.randint(0, len(url))
                c = rng.random()
                if c < 0.6:
                    url.insert(i, rng.choice(BITS))
                elif c < 0.8 and url:
                    del url[min(i, len(url) - 1)]
                else:
                    url.insert(i, gen.text(rng, 1, 2))
            url = ''.join(url)
        dropped = re.sub('[\t\r\n]', '', url).lstrip(''.join(map(chr, range(33))))
        try:
            res = norm(url)
        except Violation:
            raise
        except Exception as e:
            raise Violation('unexpected %s in normalization' % type(e).__name__, url=url, error=str(e))
        ctx.event('hostile')
        ctx.state('hostile', res is None, must, tuple(c in url for c in '%@[?#'))
        if must:
            ctx.event('must refuse')
            require(res is None, 'something that is not an absolute HTTP(S) URL with a valid host is normalized', url=url, result=res)
        scheme, auth, _, _, _ = refurl.split(dropped)
        if (scheme or '').lower() not in ('http', 'https') or not auth:
            ctx.event('must refuse')
            require(res is None, 'something that is not an absolute HTTP(S) URL is normalized', url=url, result=res)
        if res is None:
            ctx.event('refused')
            try:
                normalizeURL(url)
            except DiscoveryFailure:
                pass
            else:
                raise Violation('an identifier that cannot be normalized is taken', url=url)
        elif dropped == url:
            if not ('[' in auth and '%' in auth):
                same(url, res)


SCENARIOS = [('spellings', spellings, 1600, 25000), ('neighbours', neighbours, 2300, 40000), ('hostile', hostile, 2300, 40000)]
