"""C23: an XRI is bound only to a canonical identifier its authority may assign."""
import re
from urllib.parse import parse_qsl, unquote, urlsplit
from xml.sax.saxutils import escape as xescape

from openid import fetchers
from openid.consumer.discover import DiscoveryFailure, discover
from openid.yadis import etxrd, xri
from openid.yadis.xrires import ProxyResolver

from lib import gen
from lib.core import Violation, require
from lib.world import T_10, T_11, T_20, T_SERVER, NetError

PROP = 'C23'
TECHNIQUE = ('runtime monitoring: a stand-in resolver records every query of a real resolution and answers with generated chains of documents; a reference authority rule decides '
             'which canonical identifier may be accepted and is compared with the services returned')
LEVEL_NOTE = 'Random XRIs of every authority kind, honest, forged and malformed chains up to depth 5, different documents per service type, resolver faults; sampling.'
RULE = 'a case is one resolution; counted distinct: (authority kind, chain depth, forgery, documents, outcome)'
NEED = {'resolved': 3000, 'honest': 1500, 'forged': 2000, 'forgery refused': 1500, 'queries': 20000, 'escapes': 3000, 'mixed': 500, 'fragments': 200, 'hostile': 800, 'faults': 200, 'direct': 1500, 'no XRI': 300, 'selected': 1000}
ASSUMPTIONS = ['cross references at the root of an authority are not nested and have no slash (a limit the code documents)',
               'sub-segments of canonical identifiers are persistent (start with an exclamation mark)', 'one canonical identifier element per level']

TYPES = [T_SERVER, T_20, T_11, T_10]
PROXY = 'http://proxy.xri.net/'


class Resolver(fetchers.HTTPFetcher):
    """Answers the queries of the proxy resolver and records them."""

    def __init__(self, answer):
        self.answer = answer
        self.urls = []
        fetchers.setDefaultFetcher(self)

    def fetch(self, url, body=None, headers=None):
        self.urls.append(url)
        service_type = dict(parse_qsl(urlsplit(url).query)).get('_xrd_t')
        status, doc = self.answer(service_type, url)
        if status is None:
            raise doc
        return fetchers.HTTPResponse(url, status, {'content-type': 'application/xrds+xml'}, doc)


def seg(rng):
    return rng.choice([gen.word(rng, 1, 4), '%X.%X' % (rng.randrange(65536), rng.randrange(65536)), '1000', 'abcd', 'ABCD'])


def name(rng):
    """(XRI, root authority)"""
    root = rng.choice(['=', '=', '@', '@', '+', '$', '!', '(example.com)', 'example.com', '(+x)', '(Example.COM)', 'Example.com', '(+X)', '(=Joe)'])
    n = rng.randint(1, 3)
    if root in '=@+$!':
        text = root + '*'.join(gen.word(rng, 1, 5).lower() for _ in range(n))
    elif root.startswith('('):
        text = root + ''.join('*' + gen.word(rng, 1, 4) for _ in range(n))
        if rng.random() < 0.2:
            text += '*(%s)' % rng.choice(['x', '=y', 'b.example.com'])
    else:
        text = root + ''.join(rng.choice(['*', '!']) + gen.word(rng, 1, 4) for _ in range(rng.choice((0, n))))
    if rng.random() < 0.2:
        text += rng.choice(['/path', '/(a/b)', '/x?y=z', '?q', '/a b', '/\u00e9', '/%41', '/(=a*(b/c)/d)'])
        if root.lower() == 'example.com' and text.endswith('?q'):
            text = text[:-2] + '/?q'              # a query right after a host name is left open
    return text, root


def honest_chain(rng, root):
    ids = [root]
    for _ in range(rng.choice((1, 1, 2, 2, 3, 5))):
        ids.append(ids[-1] + '!' + seg(rng))
    return ids[1:]


def recase(rng, cid):
    if rng.random() < 0.3:
        cid = cid.swapcase() if rng.random() < 0.5 else cid.upper()
    return cid


def forge(rng, ids, root):
    """A chain in which some level claims what it may not."""
    ids = list(ids)
    i = rng.randrange(len(ids))
    other = rng.choice([r for r in ('=', '@', '+', '$', '!', 'evil.com', '(evil)') if r != root])
    how = rng.choice(['other root', 'sibling', 'deeper', 'skip', 'missing', 'empty', 'equal', 'prefix', 'parent', 'reversed', 'star', 'swap', 'chop', 'xri', 'double', 'case root'])
    if how == 'other root':
        ids[i] = other + ids[i][len(root):]
    elif how == 'sibling' and len(ids) > 1:
        i = rng.randrange(1, len(ids))
        ids[i] = (ids[i - 2] if i > 1 else root) + '!' + seg(rng) + 'x!' + seg(rng)
    elif how == 'deeper':
        ids[i] = ids[i] + '!' + seg(rng)
    elif how == 'skip' and len(ids) > 2:
        del ids[rng.randrange(0, len(ids) - 1)]
    elif how == 'missing' and len(ids) > 1:
        ids[rng.randrange(len(ids) - 1)] = None
    elif how == 'empty' and len(ids) > 1:
        ids[rng.randrange(len(ids) - 1)] = ''
    elif how == 'equal' and len(ids) > 1:
        ids[-1] = ids[-2]
    elif how == 'prefix' and len(ids) > 1:
        ids[-2] = ids[-2][:-1]
    elif how == 'parent' and len(ids) > 1:
        ids[-1] = ids[0]
    elif how == 'reversed' and len(ids) > 1:
        ids.reverse()
    elif how == 'star' and len(ids) > 1:
        # a child by a reassignable segment of the level above
        ids[-1] = ids[-2] + '*' + seg(rng)
    elif how == 'swap' and len(ids) > 2:
        ids[0], ids[1] = ids[1], ids[0]
    elif how == 'chop':
        ids[i] = root
    elif how == 'xri':
        ids[i] = 'http://%s/' % gen.host(rng)
    elif how == 'double':
        ids[0] = root + root + ids[0][len(root):] if root in '=@+$' else 'x' + ids[0]
    elif how == 'case root':
        ids[-1] = ids[-1] + ' '
        ids[0] = ' ' + ids[0]
    else:
        ids[0] = other + '!' + seg(rng)
        ids = ids[:1] + [ids[0] + '!' + seg(rng) for _ in ids[1:2]]
        how = 'other root'
    return how, ids


def bare(cid):
    return (cid[6:] if cid.startswith('xri://') else cid).lower()


def direct_child(parent, child):
    """True, False, or None where the specification is left open."""
    parent, child = bare(parent), bare(child)
    if not child.startswith(parent + '!'):
        return False
    rest = child[len(parent) + 1:]
    if '!' in rest:
        return False
    return True if re.match(r'^[a-z0-9.]+$', rest) else None


def allowed(root, ids):
    """May the last identifier of the chain be accepted? True, False or None (open)."""
    if not ids or not ids[-1]:
        return False
    verdict = True
    for parent, child in zip([root] + [i or '' for i in ids], ids):
        r = direct_child(parent, child or '')
        if r is False:
            return False
        if r is None:
            verdict = None
    return verdict


def document(rng, ids, services, wrap=True):
    out = ['<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" xmlns:openid="http://openid.net/xmlns/1.0">']
    for n, cid in enumerate(ids):
        out.append('<XRD><Query>*x</Query><Status code="100"/>')
        parts = []
        if cid is not None:
            text = xescape(cid)
            if rng.random() < 0.2 and cid and not cid.startswith('xri://') and cid[0] in '=@+$!(':
                text = 'xri://' + text
            if rng.random() < 0.1:
                k = rng.randint(0, len(text))
                if '&' not in text:
                    text = text[:k] + '<!-- c -->' + text[k:]
            parts.append('<CanonicalID>%s</CanonicalID>' % text)
        if n == len(ids) - 1:
            for types, uri, local in services:
                parts.append('<Service>%s<URI>%s</URI>%s</Service>' % (''.join('<Type>%s</Type>' % t for t in types), xescape(uri), '<LocalID>%s</LocalID>' % xescape(local) if local else ''))
        else:
            parts.append('<Service><Type>%s</Type><URI>http://evil.example/upper</URI></Service>' % T_20)
        rng.shuffle(parts)
        out.extend(parts)
        out.append('</XRD>')
    out.append('</xrds:XRDS>')
    return ''.join(out).encode('utf-8')


def make_services(rng, n0=0):
    out = []
    for n in range(rng.choice((1, 1, 2, 3))):
        out.append((rng.choice([[T_20], [T_20], [T_11], [T_SERVER], [T_10], [T_20, T_11]]), 'http://op%d.example/%s' % (n0 + n, gen.word(rng)), rng.choice([None, None, '=!local'])))
    return out


def check_query(ctx, url, iname, service_type):
    """The resolver is asked for the XRI, with its arguments."""
    ctx.event('queries')
    require(url.startswith(PROXY), 'another resolver is asked', url=url)
    require(re.match(r"^[A-Za-z0-9\-._~:/?#\[\]@!$&'()*+,;=%]*$", url) and not re.search('%(?![0-9A-Fa-f]{2})', url), 'query is no valid URL', url=url)
    require('#' not in url, 'query to the resolver has a fragment, so its arguments are not sent', url=url, xri=iname)
    at = url.rfind('_xrd_r=')
    require(at > 0 and url[at - 1] in '?&', 'resolver arguments are missing', url=url)
    want = iname[6:] if iname.startswith('xri://') else iname
    if _fragment(want) is not None:
        ctx.event('fragments')
        want = want[:_fragment(want)]
    asked = url[len(PROXY):at - 1]
    require(unquote(asked) == want, 'another XRI is asked for', url=url, xri=want, asked=unquote(asked))
    # delimiters outside of cross references are those of the XRI, and only those
    plain = _outside(want)
    path, q, query = asked.partition('?')
    qpos = plain.find('?')
    blank = qpos < 0 or not plain[qpos:].strip('?')
    require(url[at - 1] == ('?' if blank else '&'), 'arguments are glued to the query in the wrong way', url=url, xri=want)
    if qpos < 0:
        require(not q, 'query part appears', url=url, xri=want)
        require(url[at - 1] == '?', 'arguments are not a query', url=url)
    else:
        require(unquote(path) == want[:qpos], 'query part moved', url=url, xri=want)
    require(path.count('/') == plain[:qpos if qpos >= 0 else None].count('/'), 'path segments changed', url=url, xri=want)
    args = parse_qsl(url[at:], keep_blank_values=True)
    require(args == ([('_xrd_r', 'application/xrds+xml'), ('_xrd_t', service_type)] if service_type else [('_xrd_r', 'application/xrds+xml;sep=false')]), 'wrong resolver arguments',
            args=args, service_type=service_type)


def _outside(text):
    """The text with cross references blanked."""
    out, depth = [], 0
    for c in text:
        if c == '(':
            depth += 1
        elif c == ')':
            depth = max(0, depth - 1)
        out.append(' ' if depth or c == ')' else c)
    return ''.join(out)


def _fragment(text):
    i = _outside(text).find('#')
    return None if i < 0 else i


def spell(rng, iname):
    return 'xri://' + iname if rng.random() < 0.3 else iname


def typable(iname):
    return iname if iname[0] in '=@+$!(' else 'xri://' + iname


def check_services(ctx, iname, cid, declared, claimed, services):
    want = sorted(uri for types, uri, local in declared)
    got = [s.server_url for s in services]
    require(set(got) == set(want), 'services are not those of the last document of the chain', found=got, declared=want)
    shown = iname[6:] if iname.startswith('xri://') else iname
    require(claimed == shown, 'returned name is not the given one', returned=claimed, given=iname)
    by_uri = {uri: (types, local) for types, uri, local in declared}
    for s in services:
        types, local = by_uri[s.server_url]
        require(s.canonicalID is not None and bare(s.canonicalID) == bare(cid), 'service is bound to another canonical identifier', found=s.canonicalID, expected=cid)
        require(s.claimed_id == s.canonicalID, 'claimed identifier is not the canonical one', claimed=s.claimed_id, canonical=s.canonicalID)
        require(s.display_identifier == shown and s.getDisplayIdentifier() == shown, 'display name is not the given one', display=s.display_identifier)
        require(s.getLocalID() == (local if local and T_20 in types else s.canonicalID), 'local identifier differs', found=s.getLocalID(), declared=local)
        ctx.event('resolved')
    seen_user = False
    for s in services:
        if not s.isOPIdentifier():
            seen_user = True
        else:
            require(not seen_user, 'provider identifier services are not first', order=got)


def resolve(rng, ctx):
    iname, root = name(rng)
    ids = honest_chain(rng, root)
    how = 'honest'
    if rng.random() < 0.6:
        how, ids = forge(rng, ids, root)
    ids = [i if i is None else recase(rng, i) for i in ids]
    verdict = allowed(root, ids)
    declared = make_services(rng)
    doc = document(rng, ids, declared)
    quiet = set(rng.sample(TYPES, rng.choice((0, 0, 1, 2))))
    docs = dict.fromkeys(TYPES, doc)
    if rng.random() < 0.4:
        # a resolver which selects: only the services of the type asked for
        docs = {t: document(rng, ids, [s for s in declared if t in s[0]]) for t in TYPES}
        declared = [s for s in declared if not quiet.issuperset(s[0])]
        ctx.event('selected')

    def answer(service_type, url):
        if service_type in quiet:
            return rng.choice((404, 500, 241)), b'not found'
        return 200, docs[service_type]
    net = Resolver(answer)
    given = typable(spell(rng, iname))
    claimed, services = discover(given)
    require(len(net.urls) >= 1, 'nothing was asked')
    for url, t in zip(net.urls, TYPES):
        check_query(ctx, url, iname, t)
    ctx.state('resolve', root, len(ids), how, verdict, len(services))
    if verdict is False:
        ctx.event('forged')
        require(not services, 'services are returned under an identifier the authority may not assign', xri=given, chain=ids, how=how,
                bound=[s.claimed_id for s in services])
        ctx.event('forgery refused')
    elif verdict is True:
        ctx.event('honest')
        require(services or not declared, 'an honest resolution gives nothing', xri=given, chain=ids, doc=doc)
        check_services(ctx, given, ids[-1], declared, claimed, services)
    elif services:
        check_services(ctx, given, ids[-1], declared, claimed, services)
    ctx.sample(how, '%s: %s -> %s' % (given, ids, [s.claimed_id for s in services]))


def mixed(rng, ctx):
    """Different documents for different service types: no service moves under the identifier of another document."""
    iname, root = name(rng)
    docs, owner = {}, {}
    for n, t in enumerate(TYPES):
        ids = honest_chain(rng, root)[:2]
        r = rng.random()
        if r < 0.2:
            ids[-1] = None
        services = make_services(rng, n * 10) if rng.random() < 0.7 else []
        if rng.random() < 0.3 and n:
            ids = docs[TYPES[n - 1]][0]
        docs[t] = (ids, document(rng, ids, services))
        for _, uri, _ in services:
            owner.setdefault(uri, set()).add(ids[-1])
    net = Resolver(lambda t, url: (200, docs[t][1]))
    try:
        claimed, services = discover(typable(iname))
    except DiscoveryFailure:
        services = []
    ctx.event('mixed')
    ctx.state('mixed', len(set(d[0][-1] for d in docs.values())), len(services))
    for s in services:
        require(any(o is not None and bare(o) == bare(s.claimed_id) for o in owner.get(s.server_url, ())), 'a service is bound to the canonical identifier of another document',
                service=s.server_url, bound=s.claimed_id, declared=list(owner.get(s.server_url, ())))


PIECES = ['/', '?', '?&', '&', '#', '%', '%41', '%2F', '%252F', ' ', '&', '=', '+', '\u00e9', '\u4e2d', '(', ')', '(a/b)', '(=a?b)', '((a)/b)', '(a*(b#c)?d)', '[', ']', '@', '!', '*', '$', "'", '"', '<', '\\', '~', '.', ':', ';', ',', 'a',
          'B', '(http://x/?y#z)', '??', '_xrd', '\U0001f600', '|', '^', '`', '{']


def balanced(text):
    depth = 0
    for c in text:
        depth += (c == '(') - (c == ')')
        if depth < 0:
            return False
    return depth == 0


def escapes(rng, ctx):
    """Any XRI reaches the resolver as itself."""
    for _ in range(10):
        text = rng.choice(['=', '@', '+', '(x)']) + ''.join(rng.choice(PIECES) if rng.random() < 0.6 else gen.word(rng, 1, 3) for _ in range(rng.randint(1, 6)))
        if not balanced(text):
            continue
        t = rng.choice([None, T_20, 'xri://+i-service*(+contact)*($v*1.0)', 'http://x/?a=b&c#d'])
        url = ProxyResolver().queryURL(spell(rng, text), t)
        ctx.event('escapes')
        ctx.state('escape', tuple(p in text for p in '/?#%()'))
        check_query(ctx, url, text, t)


def others(rng, ctx):
    """What is no XRI is not resolved as one."""
    text = rng.choice(['*', '%3D', '~', '-', '&', ';', ')', '[', '#', '.', '_', ':', ',', "'", '"', 'x', 'xri', 'xri:', 'xri:/', 'xri//', 'http://', 'https://', 'http://=', 'iri://', 'xri.net/', '\u00e9']) + \
        rng.choice(['', gen.word(rng, 1, 5), '=' + gen.word(rng, 1, 5), '@x', '/=x'])
    if text.startswith('xri://'):
        return
    net = Resolver(lambda t, url: (200, document(rng, ['=!1'], make_services(rng))))
    try:
        claimed, services = discover(text)
    except (DiscoveryFailure, fetchers.HTTPFetchingError):
        services = []
    ctx.event('no XRI')
    ctx.state('no XRI', text[:4])
    require(not any(u.startswith(PROXY) for u in net.urls), 'an identifier which is no XRI is resolved as one', identifier=text, urls=net.urls)
    require(not any('xri' in (s.claimed_id or '')[:4] or (s.claimed_id or 'x')[0] in '=@+$!(' for s in services), 'an XRI is bound to an identifier which is none', identifier=text)


BAD = ['', 'xri://', '=', '@', '(', '()', ')', '(a', 'xri:///', 'xri://?', 'xri://#', '=(', '$', '!', '+', '(http://x/y)*z', '=\x00', '=\n', '= ', '=%', '=/', '=#', '=?', 'xri://(', 'xri://)']


def hostile(rng, ctx):
    """Strange names and documents: no services or a discovery or fetch failure, never another error."""
    iname = rng.choice(BAD) if rng.random() < 0.5 else rng.choice('=@(!+$') + gen.text(rng, 0, 4, nul=True)
    if xri.identifierScheme(iname) != 'XRI':
        iname = 'xri://' + iname
    kind = rng.choice(['honest', 'chain', 'bytes', 'text'])
    ids = honest_chain(rng, rng.choice(['=', '@']))
    doc = document(rng, ids, make_services(rng))
    if kind == 'chain':
        ids = [rng.choice([None, '', ' ', '!', '!!', 'xri://', '=', '=!', '=!1', '=!1!2', gen.text(rng, 0, 5).replace('\x01', '').replace('\x0b', '').replace('\x0c', '').replace('\x1c', ''), 'x' * 5000, '=' + '!1' * 500])
               for _ in range(rng.randint(0, 4))]
        doc = document(rng, ids, make_services(rng))
    elif kind == 'bytes':
        data = bytearray(doc)
        for _ in range(rng.randint(1, 6)):
            data[rng.randrange(len(data))] = rng.randrange(256)
        doc = bytes(data)
    elif kind == 'text':
        doc = rng.choice([b'', b'<', b'<a/>', b'<html></html>', b'\x00', b'<x:XRDS xmlns:x="xri://$xrds"/>', b'<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD/></x:XRDS>'])
    Resolver(lambda t, url: (200, doc))
    ctx.event('hostile')
    try:
        claimed, services = discover(iname)
    except (DiscoveryFailure, fetchers.HTTPFetchingError):
        return
    except Violation:
        raise
    except Exception as e:
        raise Violation('resolution fails with %s' % type(e).__name__, error=str(e), xri=iname, doc=doc)
    ctx.state('hostile', kind, len(services), iname[:1])
    authority = iname[6:] if iname.startswith('xri://') else iname
    for s in services:
        if authority[:1] in ('=', '@', '+', '$', '!'):
            require(bare(s.claimed_id or '').startswith(authority[0] + '!'), 'identifier of another root authority', xri=iname, bound=s.claimed_id)


def faults(rng, ctx):
    iname, root = name(rng)
    ids = honest_chain(rng, root)
    doc = document(rng, ids, make_services(rng))
    state = {'n': 0, 'at': rng.randrange(4)}
    what = rng.choice(['error', 'status', 'broken'])

    def answer(t, url):
        state['n'] += 1
        if state['n'] - 1 != state['at']:
            return 200, doc
        if what == 'error':
            return None, rng.choice([NetError('x'), OSError('x'), ValueError('x'), fetchers.HTTPFetchingError('x')])
        if what == 'status':
            return rng.choice((400, 404, 500, 302, 0)), b'x'
        return 200, doc[:-9]
    Resolver(answer)
    ctx.event('faults')
    ctx.state('fault', what, state['at'])
    try:
        claimed, services = discover(typable(iname))
    except (DiscoveryFailure, fetchers.HTTPFetchingError):
        require(what == 'error', 'failure for an error status or document', what=what)
        return
    for s in services:
        require(bare(s.claimed_id) == bare(ids[-1]), 'another canonical identifier after a fault', bound=s.claimed_id, chain=ids)


def direct(rng, ctx):
    """The authority rule itself, on parsed documents."""
    iname, root = name(rng)
    ids = honest_chain(rng, root)
    how = 'honest'
    if rng.random() < 0.7:
        how, ids = forge(rng, ids, root)
    ids = [i if i is None else recase(rng, i) for i in ids]
    verdict = allowed(root, ids)
    tree = etxrd.parseXRDS(document(rng, ids, make_services(rng)))
    try:
        got = etxrd.getCanonicalID(spell(rng, iname), tree)
    except etxrd.XRDSError:
        got = None
    ctx.event('direct')
    ctx.state('direct', how, verdict, len(ids), root)
    if verdict is True:
        require(got is not None and bare(got) == bare(ids[-1]) and got.startswith('xri://'), 'an honest chain is refused or changed', chain=ids, got=got, xri=iname)
        require(got[6:] == (ids[-1][6:] if ids[-1].startswith('xri://') else ids[-1]), 'spelling of the canonical identifier changed', chain=ids, got=got)
    elif verdict is False:
        require(got is None, 'a canonical identifier the authority may not assign is accepted', chain=ids, got=got, xri=iname, how=how)


SCENARIOS = [('resolve', resolve, 53000, 265000), ('mixed', mixed, 17000, 85000), ('escapes', escapes, 17000, 85000), ('hostile', hostile, 20000, 100000), ('faults', faults, 5300, 26500),
             ('direct', direct, 33000, 165000), ('others', others, 3300, 16500)]
