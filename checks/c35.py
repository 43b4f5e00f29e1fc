"""C35: documents fetched from the network are only data."""
import ctypes
import os
import resource
import shutil
import socket
import struct
import sys
import time

from openid import fetchers
from openid.consumer.discover import DiscoveryFailure, discover
from openid.server.trustroot import RealmVerificationRedirected, getAllowedReturnURLs, verifyReturnTo
from openid.yadis import etxrd
from openid.yadis.parsehtml import MetaNotFound, findHTMLMeta

from lib import gen
from lib.core import Violation, require
from lib.world import T_10, T_11, T_20, T_SERVER, NetError, scratch

PROP = 'C35'
TECHNIQUE = ('runtime monitoring: while hostile documents are processed, the kernel reports every opening of canary files (inotify), a local server counts connections, an audit hook watches '
             'for processes and code, the list of fetched addresses is checked, results are searched for planted contents, and processor time and memory are metered')
LEVEL_NOTE = 'Documents of known attack classes in random combinations and sizes. Effects the monitors cannot see (other files, other addresses) are not noticed. Sampling.'
RULE = 'a case is one document handed to one entry point; counted distinct: (entry point, class of attack, details, outcome)'
NEED = {'documents': 3000, 'with references to files': 800, 'with references to addresses': 800, 'amplifying': 300, 'large': 100, 'processed': 500, 'refused': 300, 'canary alive': 1, 'listener alive': 1}
ASSUMPTIONS = ['at most five seconds of processor time and 200 MB for a document of at most 64 kB', 'opening a file or connecting is visible in the canary directory or at the local server']

XRDS_HEAD = '<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" xmlns:openid="http://openid.net/xmlns/1.0"'
SECRET = 'c4nary-c0ntents'
IN_OPEN, IN_ACCESS = 0x20, 1
libc = ctypes.CDLL(None, use_errno=True)
S = {}


def worker_init(ctx):
    d = scratch()
    S['dir'] = d
    for name in ('plain.txt', 'doc.xml', 'evil.dtd', 'style.xsl', 'page.html'):
        with open(os.path.join(d, name), 'w') as f:
            f.write({'plain.txt': SECRET, 'evil.dtd': '<!ENTITY leak "%s">' % SECRET}.get(name, '<a>%s</a>' % SECRET))
    fd = libc.inotify_init1(os.O_NONBLOCK)
    if fd < 0 or libc.inotify_add_watch(fd, d.encode(), IN_OPEN | IN_ACCESS) < 0:
        raise RuntimeError('inotify is not available')
    S['inotify'] = fd
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    s.listen(50)
    s.setblocking(False)
    S['listener'] = s
    S['port'] = s.getsockname()[1]
    # The monitors work.
    open(os.path.join(d, 'plain.txt')).close()
    ctx.event('canary alive', len(opened()))
    c = socket.create_connection(('127.0.0.1', S['port']))
    ctx.event('listener alive', connected())
    c.close()
    sys.addaudithook(audit)


def worker_exit(ctx):
    shutil.rmtree(S['dir'], ignore_errors=True)


def audit(event, args):
    if S.get('watch') and (event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'pickle.find_class', 'marshal.loads', 'socket.connect', 'socket.getaddrinfo',
                                     'os.remove', 'os.rename', 'os.mkdir') or event == 'open' and SECRET_DIR() in str(args[0])):
        if event == 'marshal.loads':
            return
        S['audit'].append((event, repr(args)[:200]))


def SECRET_DIR():
    return S['dir']


def opened():
    try:
        data = os.read(S['inotify'], 65536)
    except BlockingIOError:
        return []
    out = []
    while data:
        _, mask, _, n = struct.unpack_from('iIII', data)
        out.append(data[16:16 + n].rstrip(b'\0').decode())
        data = data[16 + n:]
    return out


def connected():
    n = 0
    while True:
        try:
            S['listener'].accept()[0].close()
        except BlockingIOError:
            return n
        n += 1


class Web(fetchers.HTTPFetcher):
    def __init__(self):
        self.routes = {}
        self.fetched = []
        fetchers.setDefaultFetcher(self)

    def fetch(self, url, body=None, headers=None):
        self.fetched.append(url)
        r = self.routes.get(url)
        if r is None:
            raise NetError('no route to %r' % (url,))
        return fetchers.HTTPResponse(url, r[0], dict(r[1]), r[2])


def target(rng):
    """(reference, kind) something the reader must not touch."""
    if rng.random() < .5:
        name = rng.choice(['plain.txt', 'doc.xml', 'evil.dtd', 'style.xsl', 'page.html'])
        path = os.path.join(S['dir'], name)
        return rng.choice(['file://' + path, 'file://localhost' + path, path, 'file:' + path]), 'file'
    return rng.choice(['http://127.0.0.1:%d/x%s', 'http://localhost:%d/%s', '//127.0.0.1:%d/%s', 'ftp://127.0.0.1:%d/%s']) % (S['port'], gen.word(rng)), 'address'


def bomb(rng):
    """Declarations of entities that multiply."""
    depth = rng.choice([3, 6, 8, 12, 20, 30])
    width = rng.choice([2, 10, 10, 100])
    out = ['<!ENTITY a0 "%s">' % ('x' * rng.choice([1, 100]))]
    for i in range(1, depth + 1):
        out.append('<!ENTITY a%d "%s">' % (i, ('&a%d;' % (i - 1)) * width))
    if rng.random() < .15:
        out.append('<!ENTITY a%d "&a%d;">' % (depth, depth))
    return ''.join(out), '&a%d;' % depth


def service(types, uri, local='', extra=''):
    return '<Service%s>%s<URI>%s</URI>%s</Service>' % (extra, ''.join('<Type>%s</Type>' % t for t in types), uri, '<LocalID>%s</LocalID>' % local if local else '')


def hostile_xrds(rng):
    """(document, classes of attack, references in it)."""
    classes, refs, dtd, pis, inside = [], [], '', '', ''
    uri, local, prio, attrs = 'http://op.example.com/server', '', '', ''
    types = [rng.choice([T_20, T_SERVER, T_11, T_10, 'http://specs.openid.net/auth/2.0/return_to'])]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(['entity', 'entity', 'parameter', 'doctype', 'internal', 'bomb', 'bomb', 'quadratic', 'xinclude', 'stylesheet', 'schema', 'base', 'unparsed', 'catalog', 'plain'])
        ref, kind = target(rng)
        if k in ('entity', 'parameter', 'doctype', 'xinclude', 'stylesheet', 'schema', 'base', 'unparsed', 'catalog', 'plain'):
            refs.append(kind)
        classes.append(k)
        place = rng.choice(['uri', 'type', 'local', 'text', 'uri', 'element'])
        use = ''
        if k == 'entity':
            dtd += '<!ENTITY e%d %s "%s">' % (len(classes), rng.choice(['SYSTEM', 'PUBLIC "-//x//y"']), ref)
            use = '&e%d;' % len(classes)
        elif k == 'parameter':
            dtd += '<!ENTITY %% p%d SYSTEM "%s"> %%p%d;' % (len(classes), ref, len(classes))
            use = rng.choice(['', '&leak;'])
        elif k == 'doctype':
            pis += '\0' + ref
            use = rng.choice(['', '&leak;'])
        elif k == 'internal':
            dtd += '<!ENTITY i "http://evil.example.com/">'
            use = '&i;'
        elif k == 'bomb':
            d, use = bomb(rng)
            if '<!ENTITY a0' in dtd:
                use = ''
            else:
                dtd += d
            place = rng.choice(['uri', 'attribute', 'namespace', 'priority', 'type', 'text', 'local'])
        elif k == 'quadratic':
            if '<!ENTITY q ' not in dtd:
                dtd += '<!ENTITY q "%s">' % ('y' * rng.choice([2000, 20000]))
            use = '&q;' * rng.choice([100, 4000])
            place = rng.choice(['uri', 'attribute', 'type', 'text'])
        elif k == 'xinclude':
            inside += '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s" parse="%s"/>' % (ref, rng.choice(['text', 'xml']))
        elif k == 'stylesheet':
            pis += '<?xml-stylesheet type="text/xsl" href="%s"?>' % ref
        elif k == 'schema':
            attrs += ' xmlns:xsi%d="http://www.w3.org/2001/XMLSchema-instance" xsi%d:schemaLocation="xri://$xrds %s"' % (len(classes), len(classes), ref)
        elif k == 'base' and 'xml:base' not in attrs:
            attrs += ' xml:base="%s"' % ref
        elif k == 'unparsed':
            dtd += '<!NOTATION n%d SYSTEM "%s"><!ENTITY u%d SYSTEM "%s" NDATA n%d>' % (len(classes), ref, len(classes), ref, len(classes))
        elif k == 'catalog':
            pis += '<?oasis-xml-catalog catalog="%s"?>' % ref
        if k == 'plain':
            if place == 'type':
                types.append(ref)
            elif place == 'local':
                local = ref
            elif place == 'element':
                inside += rng.choice(['<Ref>%s</Ref>', '<Redirect>%s</Redirect>', '<Service><Type>x</Type><Ref>%s</Ref></Service>']) % ref
            else:
                uri = ref
        elif place == 'uri':
            uri += use
        elif place == 'type':
            types.append('http://t.example.com/' + use)
        elif place == 'local':
            local = 'http://l.example.com/' + use
        elif place == 'text':
            inside += use
        elif place == 'element':
            inside += '<Status>%s</Status>' % use
        elif place == 'priority':
            prio = ' priority="%s"' % use
        elif place == 'attribute':
            prio += ' a%d="%s"' % (len(classes), use)
        elif place == 'namespace' and 'xmlns:z' not in prio:
            prio += ' xmlns:z="http://n/%s"' % use
    ext = ''
    if '\0' in pis:
        head, _, tail = pis.rpartition('\0')
        end = tail.find('<?')
        ref, rest = (tail, '') if end < 0 else (tail[:end], tail[end:])
        pis = (head + rest).replace('\0', '<?x ') if '\0' not in head else rest
        ext = rng.choice([' SYSTEM "%s"', ' PUBLIC "-//W3C//DTD" "%s"']) % ref
    doctype = '<!DOCTYPE xrds:XRDS%s [%s]>' % (ext, dtd) if dtd or ext else ''
    doc = '<?xml version="1.0"?>' + pis + doctype + XRDS_HEAD + attrs + '><XRD>' + inside + service(types, uri, local, prio) + service([T_20], 'http://honest.example.com/') + '</XRD></xrds:XRDS>'
    return doc.encode('utf-8'), classes, refs


def large_xrds(rng):
    n = rng.choice([4000, 16000, 64000])
    k = rng.choice(['deep', 'services', 'uris', 'types', 'locals', 'priority', 'text', 'attributes', 'namespaces', 'comments', 'xrds', 'both'])
    body = {'deep': lambda: '<a>' * (n // 7) + '</a>' * (n // 7), 'services': lambda: service([T_20], 'http://a/') * (n // 85),
            'uris': lambda: '<Service><Type>%s</Type>%s</Service>' % (T_20, '<URI>http://a/</URI>' * (n // 20)), 'types': lambda: service([T_20] * (n // 52), 'http://a/'),
            'locals': lambda: '<Service><Type>%s</Type><URI>http://a/</URI>%s</Service>' % (T_20, '<LocalID>http://a/</LocalID>' * (n // 28)),
            'priority': lambda: service([T_20], 'http://a/', extra=' priority="%s"' % ('9' * n)), 'text': lambda: service([T_20], 'http://a/' + 'x' * n),
            'attributes': lambda: '<a %s/>' % ' '.join('a%d=""' % i for i in range(n // 9)), 'namespaces': lambda: '<a %s/>' % ' '.join('xmlns:a%d="b"' % i for i in range(n // 15)),
            'comments': lambda: '<!---->' * (n // 7), 'xrds': lambda: service([T_20], 'http://a/') + '</XRD>' + '<XRD></XRD>' * (n // 11) + '<XRD>',
            'both': lambda: '<Service>%s%s</Service>' % (('<Type>%s</Type>' % T_20) * (n // 150), '<URI>http://a/</URI>' * (n // 60))}[k]()
    return (XRDS_HEAD + '><XRD>' + body + '</XRD></xrds:XRDS>').encode(), ['large ' + k], []


def hostile_html(rng):
    refs, out, classes = [], [], []
    head = '<html>'
    for _ in range(rng.choice([1, 1, 2, 3])):
        ref, kind = target(rng)
        k = rng.choice(['doctype', 'script', 'style', 'frame', 'img', 'base', 'refresh', 'object', 'entity', 'ssi', 'import', 'link', 'xml'])
        classes.append(k)
        refs.append(kind)
        out.append({'doctype': '', 'script': '<script src="%s"></script>', 'style': '<link rel="stylesheet" href="%s">', 'frame': '<iframe src="%s"></iframe>', 'img': '<img src="%s">',
                    'base': '<base href="%s">', 'refresh': '<meta http-equiv="refresh" content="0;url=%s">', 'object': '<object data="%s"></object>', 'entity': '<title>&e;</title>',
                    'ssi': '<!--#include file="%s"-->', 'import': '<style>@import url("%s");</style>', 'link': '<link rel="openid2.provider2 alternate" href="%s">',
                    'xml': '<?xml-stylesheet href="%s"?>'}[k].replace('%s', ref))
        if k == 'doctype':
            head = '<!DOCTYPE html SYSTEM "%s">' % ref + head
        if k == 'entity':
            head = '<!DOCTYPE html [<!ENTITY e SYSTEM "%s">]>' % ref + head
    out.append('<link rel="openid2.provider openid.server" href="http://honest.example.com/">')
    rng.shuffle(out)
    return (head + '<head>' + ''.join(out) + '</head><body></body></html>').encode(), classes, refs


def large_html(rng):
    n = rng.choice([4000, 16000, 64000])
    k = rng.choice(['deep', 'open', 'links', 'rels', 'metas', 'attributes', 'comment', 'amp', 'quotes', 'nul', 'heads'])
    link = '<link rel="openid2.provider" href="http://a/">'
    body = {'deep': lambda: '<div>' * (n // 5), 'open': lambda: '<' * n, 'links': lambda: link * (n // len(link)), 'rels': lambda: '<link rel="%s" href="http://a/">' % ('openid2.provider ' * (n // 17)),
            'metas': lambda: '<meta http-equiv="x" content="y">' * (n // 33), 'attributes': lambda: '<link %s>' % ' '.join('a%d=1' % i for i in range(n // 8)), 'comment': lambda: '<!--' * (n // 4),
            'amp': lambda: '&' * n, 'quotes': lambda: '<a "' * (n // 4), 'nul': lambda: '\0' * n, 'heads': lambda: '<head>' * (n // 6)}[k]()
    return ('<html><head>' + body + '</head></html>').encode(), ['large ' + k], []


def texts(found):
    """Everything textual in a result."""
    out, todo, seen = [], [found], 0
    while todo and seen < 200000:
        x = todo.pop()
        seen += 1
        if isinstance(x, (str, bytes)):
            out.append(x if isinstance(x, str) else x.decode('latin-1'))
        elif isinstance(x, (list, tuple, set)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.items())
        elif hasattr(x, '__dict__'):
            todo.extend(v for k, v in vars(x).items() if k != 'service_element')
    return out


def peak():
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024


def case(rng, ctx):
    doc, classes, refs = rng.choice([hostile_xrds, hostile_xrds, hostile_xrds, hostile_html, hostile_html, large_xrds, large_html])(rng)
    is_html = doc.lstrip().lower().startswith((b'<html', b'<!doctype html'))
    web = Web()
    allowed = set()
    ident = 'http://id%d.example.com/' % rng.randint(0, 9)
    pages = {'html': ('text/html', doc), 'xrds': ('application/xrds+xml', doc)}
    if is_html:
        entry = rng.choice(['discover', 'discover', 'as xrds', 'meta'])
    else:
        entry = rng.choice(['discover', 'discover', 'discover by header', 'discover by meta', 'xri', 'realm', 'realm urls', 'parse', 'as html'])
    from_header = 'http://docs.example.com/doc'

    def page(url, ctype, body, **more):
        web.routes[url] = (200, dict({'content-type': ctype}, **more), body)
        allowed.add(url)
    if entry in ('discover', 'as xrds', 'as html'):
        ctype = {'discover': 'text/html' if is_html else 'application/xrds+xml', 'as xrds': 'application/xrds+xml', 'as html': rng.choice(['text/html', 'text/xml', 'application/xhtml+xml'])}[entry]
        page(ident, ctype, doc)
        run = lambda: discover(ident)
    elif entry == 'discover by header':
        page(ident, 'text/html', b'', **{'x-xrds-location': from_header})
        page(from_header, 'application/xrds+xml', doc)
        run = lambda: discover(ident)
    elif entry == 'discover by meta':
        page(ident, 'text/html', ('<html><head><meta http-equiv="X-XRDS-Location" content="%s"></head></html>' % from_header).encode())
        page(from_header, rng.choice(['application/xrds+xml', 'text/xml']), doc)
        run = lambda: discover(ident)
    elif entry == 'xri':
        class Proxy(dict):
            def get(self, url, default=None):
                if url.startswith('https://xri.net/') or url.startswith('http://xri.net/') or url.startswith('http://proxy.xri.net/'):
                    allowed.add(url)
                    return (200, {'content-type': 'application/xrds+xml'}, doc.replace(b'<XRD>', b'<XRD><CanonicalID>=!1234</CanonicalID>', 1))
                return dict.get(self, url, default)
        web.routes = Proxy()
        run = lambda: discover('=name%d' % rng.randint(0, 9))
    elif entry == 'realm':
        page('http://rp.example.com/', 'application/xrds+xml', doc)
        run = lambda: verifyReturnTo('http://rp.example.com/', 'http://rp.example.com/back')
    elif entry == 'realm urls':
        page('http://rp.example.com/', 'application/xrds+xml', doc)
        run = lambda: getAllowedReturnURLs('http://rp.example.com/')
    elif entry == 'parse':
        run = lambda: [(etxrd.getTypeURIs(s), etxrd.sortedURIs(s)) for s in etxrd.iterServices(etxrd.parseXRDS(doc))]
    else:
        import io
        text = io.StringIO(doc.decode()) if rng.random() < .5 else io.BytesIO(doc)
        run = lambda: findHTMLMeta(text)
    opened()
    connected()
    S['audit'] = []
    before = peak()
    start = time.process_time()
    S['watch'] = True
    try:
        found, outcome = run(), 'processed'
    except (DiscoveryFailure, etxrd.XRDSError, MetaNotFound, RealmVerificationRedirected, NetError, fetchers.HTTPFetchingError) as e:
        found, outcome = e.args, 'refused'
    except Violation:
        raise
    except Exception as e:
        raise Violation('a document raises %s' % type(e).__name__, error=repr(e)[:300], entry=entry, classes=classes, document=doc[:1500].decode('latin-1'))
    finally:
        S['watch'] = False
    spent = time.process_time() - start
    grown = peak() - before
    about = dict(entry=entry, classes=classes, document=doc[:1500].decode('latin-1'), size=len(doc))
    files = opened()
    require(not files, 'a document makes the reader open a file', files=files, **about)
    n = connected()
    require(n == 0, 'a document makes the reader connect somewhere', connections=n, **about)
    require(not S['audit'], 'a document has effects', effects=S['audit'][:5], **about)
    extra = [u for u in web.fetched if u not in allowed]
    require(not extra, 'addresses are fetched that discovery does not need', fetched=extra, **about)
    require(len(web.fetched) <= 8, 'a document causes many requests', fetched=web.fetched[:10], **about)
    require(spent < 5, 'a document takes too much work', seconds=round(spent, 1), **about)
    require(grown < 200, 'a document takes too much memory', megabytes=grown, **about)
    results = texts(found)
    if outcome == 'processed':
        require(not any(SECRET in t for t in results), 'contents of files are in the result', **about)
        require(classes[0].startswith('large') or sum(map(len, results)) <= 200 * len(doc) + 10000, 'the result is blown up', size_of_result=sum(map(len, results)), **about)
        require(not any(len(t) > len(doc) + 1000 for t in results), 'entities are expanded', longest=max(map(len, results), default=0), **about)
    ctx.event('documents')
    ctx.event(outcome)
    ctx.event('with references to files', 'file' in refs)
    ctx.event('with references to addresses', 'address' in refs)
    ctx.event('amplifying', any(c in ('bomb', 'quadratic') for c in classes))
    ctx.event('large', classes[0].startswith('large'))
    ctx.state(entry, tuple(sorted(set(classes))), outcome)


SCENARIOS = [('documents', case, 14000, 70000)]
