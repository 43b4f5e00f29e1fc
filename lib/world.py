"""An in-process OpenID world: a network, identity pages, honest and malicious providers, relying parties.

The code under test runs unmodified on both sides; only the network (the HTTP fetcher the library lets
applications plug in) and the wall clock are stand-ins.  Everything that crosses the wire is logged.
"""
import base64
import hashlib
import hmac
import os
import shutil
import sqlite3
import tempfile
import traceback
from html import escape
from html.parser import HTMLParser
from urllib.parse import parse_qsl, urldefrag, urlsplit
from xml.sax.saxutils import escape as xescape

from lib.core import Violation, habit
from openid import fetchers
from openid.consumer.consumer import Consumer
from openid.server.server import Server
from openid.store.filestore import FileOpenIDStore
from openid.store.memstore import MemoryStore
from openid.store.sqlstore import SQLiteStore

OPENID2 = 'http://specs.openid.net/auth/2.0'
SELECT = OPENID2 + '/identifier_select'
T_SERVER = OPENID2 + '/server'
T_20 = OPENID2 + '/signon'
T_11 = 'http://openid.net/signon/1.1'
T_10 = 'http://openid.net/signon/1.0'


# --- scratch -----------------------------------------------------------------------------------------

def _scratch_base():
    base = '/dev/shm'
    return base if os.path.isdir(base) and os.access(base, os.W_OK) else None


def scratch():
    return tempfile.mkdtemp(prefix='verif-oid-', dir=_scratch_base())


class Stores(object):
    """Creates stores and removes their scratch directories afterwards."""

    def __init__(self):
        self.dirs = []
        self.conns = []

    def make(self, kind):
        if kind == 'memory':
            return MemoryStore()
        if kind == 'file':
            d = scratch()
            self.dirs.append(d)
            return FileOpenIDStore(os.path.join(d, 'store'))
        if kind == 'sqlite':
            conn = sqlite3.connect(':memory:', check_same_thread=False)
            self.conns.append(conn)
            store = SQLiteStore(conn)
            store.createTables()
            return store
        if kind == 'none':
            return None
        raise ValueError(kind)

    def path(self, index=-1):
        """Directory of a file store."""
        return os.path.join(self.dirs[index], 'store')

    def close(self):
        for c in self.conns:
            c.close()
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)


# --- network -----------------------------------------------------------------------------------------

class NetError(Exception):
    pass


class Net(fetchers.HTTPFetcher):
    """The network: URL -> handler(method, url, body, headers) -> (status, headers, body) or a redirect."""

    def __init__(self, exact=False):
        self.routes = {}
        self.log = []
        self.exact = exact
        fetchers.setDefaultFetcher(self)

    def add(self, url, handler):
        self.routes[url] = handler

    def page(self, url, body, headers=None, status=200):
        if not isinstance(body, bytes):
            body = body.encode('utf-8')
        headers = dict(headers or {'content-type': 'text/html'})
        self.routes[url] = lambda m, u, b, h: (status, headers, body)

    def redirect(self, url, target):
        self.routes[url] = target

    def fetch(self, url, body=None, headers=None):
        method = 'GET' if body is None else 'POST'
        self.log.append((method, url, body))
        for _ in range(10):
            handler = self.routes.get(urldefrag(url)[0])
            if handler is None and not self.exact:
                handler = self.routes.get(url.split('?', 1)[0])
            if handler is None:
                raise NetError('no route to %r' % (url,))
            if isinstance(handler, str):
                url = handler
                method, body = 'GET', None
                continue
            try:
                status, rheaders, rbody = handler(method, url, body, headers or {})
            except (NetError, OSError, fetchers.HTTPFetchingError):
                raise
            except Exception as e:
                raise Violation('unexpected %s in a server: %s' % (type(e).__name__, e), trace=traceback.format_exc(limit=-8), url=url, body=repr(body))
            return fetchers.HTTPResponse(url, status, dict(rheaders), rbody)
        raise NetError('too many redirects')


# --- documents ---------------------------------------------------------------------------------------

def xrds(services, extra=''):
    """services: list of dict(types, uris=[(uri, prio)], local_id, prio)"""
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" '
           'xmlns:openid="http://openid.net/xmlns/1.0"><XRD>', extra]
    for s in services:
        prio = '' if s.get('prio') is None else ' priority="%s"' % (s['prio'],)
        out.append('<Service%s>' % prio)
        for t in s['types']:
            out.append('<Type>%s</Type>' % xescape(t))
        for uri, uprio in s['uris']:
            out.append('<URI%s>%s</URI>' % ('' if uprio is None else ' priority="%s"' % (uprio,), xescape(uri)))
        if s.get('local_id') is not None:
            if T_20 in s['types']:
                out.append('<LocalID>%s</LocalID>' % xescape(s['local_id']))
            if T_11 in s['types'] or T_10 in s['types']:
                out.append('<openid:Delegate>%s</openid:Delegate>' % xescape(s['local_id']))
        out.append('</Service>')
    out.append('</XRD></xrds:XRDS>')
    return ''.join(out)


def html_page(links, metas=(), body='hello'):
    out = ['<html><head><title>x</title>']
    for m in metas:
        out.append('<meta http-equiv="%s" content="%s">' % m)
    for rel, href in links:
        out.append('<link rel="%s" href="%s">' % (rel, escape(href, True)))
    out.append('</head><body>%s</body></html>' % body)
    return ''.join(out)


class FormReader(HTMLParser):
    """Independent reader of an HTML form."""

    def __init__(self, markup):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.forms = []
        self.tags = []
        self.feed(markup)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, attrs))
        d = dict(attrs)
        if tag == 'form':
            self.forms.append((d, []))
        elif tag == 'input' and self.forms and d.get('name') is not None:
            self.forms[-1][1].append((d['name'], d.get('value') or ''))

    handle_startendtag = handle_starttag


def read_form(markup):
    """(form attributes, fields as a list of pairs) of the only form."""
    r = FormReader(markup)
    assert len(r.forms) == 1, (len(r.forms), markup)
    return r.forms[0]


def url_args(url):
    return parse_qsl(urlsplit(url).query, keep_blank_values=True)


# --- reference cryptography ---------------------------------------------------------------------------

def kv_bytes(pairs):
    return ''.join('%s:%s\n' % p for p in pairs).encode('utf-8')


def ref_sig(assoc_type, secret, args):
    """Signature of post arguments by the specification."""
    fields = [(k, args.get('openid.' + k, '')) for k in args['openid.signed'].split(',')]
    alg = {'HMAC-SHA1': hashlib.sha1, 'HMAC-SHA256': hashlib.sha256}[assoc_type]
    return base64.b64encode(hmac.new(secret, kv_bytes(fields), alg).digest()).decode()


# --- provider ------------------------------------------------------------------------------------------

class SimOP(object):
    """An honest provider built on the library's server."""

    def __init__(self, net, endpoint, store):
        self.net = net
        self.endpoint = endpoint
        self.store = store
        self.server = Server(store, endpoint)
        self.issued = []          # post arguments of every positive assertion encoded
        self.direct = []          # (query, WebResponse)
        net.add(endpoint, self.handle)

    def handle(self, method, url, body, headers):
        query = dict(parse_qsl((body or b'').decode('utf-8'), keep_blank_values=True))
        return self.direct_request(query)

    def direct_request(self, query):
        from openid.server.server import EncodingError, ProtocolError
        try:
            request = self.server.decodeRequest(query)
            if request is None:
                return 200, {}, b''
            response = self.server.handleRequest(request)
        except ProtocolError as why:
            response = why
        try:
            web = self.server.encodeResponse(response)
        except EncodingError as why:
            web = self.server.encodeResponse(why.response)
        self.direct.append((query, web))
        body = web.body
        if not isinstance(body, bytes):
            body = body.encode('utf-8')
        return web.code, {'content-type': 'text/plain'}, body

    def authenticate(self, args, owned, allow=True, identity=None, claimed_id=None, extend=None):
        """Answer a request delivered by a browser.  Returns (delivery url, arguments) or None."""
        request = self.server.decodeRequest(dict(args))
        positive = allow and (request.idSelect() or request.identity is None or request.identity in owned)
        if positive:
            if request.idSelect():
                response = request.answer(True, identity=identity, claimed_id=claimed_id)
            else:
                response = request.answer(True)
            if extend is not None:
                extend(request, response)
        else:
            response = request.answer(False, server_url=self.endpoint)
        return self.encode(request, response, positive)

    def encode(self, request, response, positive):
        web = self.server.encodeResponse(response)
        delivery = deliver(web, request.return_to)
        if positive:
            self.issued.append(dict(delivery[1]))
        return delivery


def deliver(web, return_to):
    """What the browser does with a provider's response: (URL hit, list of arguments)."""
    if web.code == 302:
        loc = web.headers['location']
        return loc, url_args(loc)
    assert web.code == 200, (web.code, web.body)
    body = web.body
    if isinstance(body, bytes):
        body = body.decode('utf-8')
    attrs, fields = read_form(body)
    action = attrs['action']
    return action, url_args(action) + fields


class RP(object):
    def __init__(self, store, realm, return_to, types=None):
        self.store = store
        self.realm = realm
        self.return_to = return_to
        self.types = types
        self.sessions = {}
        self.keep = habit[0] & 1          # an application may use one consumer for all requests of a session
        self.kept = {}

    def session(self, name):
        return self.sessions.setdefault(name, {})

    def consumer(self, session):
        old = self.kept.get(session)
        if old is not None and old[1] is self.session(session) and old[2] is self.store and old[3] == self.types:
            return old[0]
        c = Consumer(self.session(session), self.store)
        if self.types:
            c.setAssociationPreference(self.types)
        if self.keep:
            self.kept[session] = c, self.session(session), self.store, self.types
        return c

    def begin(self, session, identifier, immediate=False, form=None, extend=None):
        """(endpoint url, request arguments as dict, AuthRequest)"""
        req = self.consumer(session).begin(identifier)
        if extend is not None:
            extend(req)
        if form is None:
            form = not req.shouldSendRedirect()
        if form:
            attrs, fields = read_form(req.htmlMarkup(self.realm, self.return_to, immediate=immediate))
            return attrs['action'], dict(url_args(attrs['action']) + fields), req
        url = req.redirectURL(self.realm, self.return_to, immediate=immediate)
        return url.split('?')[0], dict(url_args(url)), req

    def complete(self, session, args, url=None):
        return self.consumer(session).complete(dict(args), self.return_to if url is None else url)


# --- assertions made directly by the harness, with the specification's arithmetic -----------------------

def secret_for(rng, atype):
    return bytes(rng.randrange(256) for _ in range(20 if atype == 'HMAC-SHA1' else 32))


class Keyed(object):
    """A provider played by the harness: identity pages, associations with known keys, own signatures.

    ``confirm`` decides about direct verification: a callable(query) -> bool.
    """

    def __init__(self, net, endpoint, confirm=None):
        self.net = net
        self.endpoint = endpoint
        self.keys = {}
        self.asked = []
        self.confirm = confirm or (lambda q: False)
        net.add(endpoint, self.handle)

    def handle(self, method, url, body, headers):
        q = dict(parse_qsl((body or b'').decode('utf-8'), keep_blank_values=True))
        self.asked.append(q)
        if q.get('openid.mode') == 'check_authentication':
            ok = self.confirm(q)
            ns = [('ns', OPENID2)] if q.get('openid.ns') == OPENID2 else []
            return 200, {}, kv_bytes(ns + [('is_valid', 'true' if ok else 'false')])
        return 400, {}, kv_bytes([('error', 'no associations here')])

    def share(self, store, rng, handle=None, atype=None, lifetime=10 ** 7, issued=None):
        from openid.association import Association
        from lib.vclock import clock
        atype = atype or rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
        handle = handle or '{%s}%d' % (atype, len(self.keys))
        secret = secret_for(rng, atype)
        self.keys[handle] = (atype, secret)
        store.storeAssociation(self.endpoint, Association(handle, secret, int(clock.now if issued is None else issued),
                                                         lifetime, atype))
        return handle

    def sign(self, args, handle=None):
        args = dict(args)
        atype, secret = self.keys[handle or args['openid.assoc_handle']]
        args['openid.sig'] = ref_sig(atype, secret, args)
        return args


V2_REQUIRED = ['op_endpoint', 'claimed_id', 'identity', 'return_to', 'response_nonce', 'assoc_handle']


def assertion(v2, op, handle, claimed, identity, return_to, nonce, extra=(), signed_extra=()):
    """Unsigned arguments of a positive assertion as they arrive at return_to.

    extra: dict of further openid.* fields; signed_extra: names (without openid.) to add to the signed list.
    nonce: the nonce; for version 1 it travels in the return address.
    """
    from urllib.parse import urlencode
    args = {'openid.mode': 'id_res', 'openid.identity': identity, 'openid.assoc_handle': handle}
    if v2:
        args['openid.ns'] = OPENID2
        args['openid.claimed_id'] = claimed
        args['openid.op_endpoint'] = op.endpoint
        if nonce is not None:
            args['openid.response_nonce'] = nonce
        signed = [f for f in V2_REQUIRED if f != 'response_nonce' or nonce is not None]
    else:
        more = [('openid1_claimed_id', claimed)]
        if nonce is not None:
            more.append(('janrain_nonce', nonce))
        return_to += ('&' if '?' in return_to else '?') + urlencode(more)
        signed = ['mode', 'identity', 'return_to', 'assoc_handle']
    args['openid.return_to'] = return_to
    args.update(extra)
    args['openid.signed'] = ','.join(list(signed) + list(signed_extra))
    for k, v in url_args(return_to):
        args[k] = v
    return args


def nonce_at(when, salt='s4Lt'):
    import datetime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(when))
    return '%04d-%02d-%02dT%02d:%02d:%02dZ%s' % (d.year, d.month, d.day, d.hour, d.minute, d.second, salt)
