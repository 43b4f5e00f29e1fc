"""C30: honest logins complete, whatever the configuration and the history."""
import copy
import pickle
from contextlib import contextmanager
from urllib.parse import parse_qsl, urlencode

from openid.association import SessionNegotiator
from openid.consumer.consumer import CANCEL, SETUP_NEEDED, SUCCESS, Consumer
from openid.extensions import ax, pape, sreg
from openid.server.server import EncodingError, ProtocolError, Server
from openid.store.filestore import FileOpenIDStore

from lib import gen
from lib.core import require
from lib.vclock import clock
from checks.c07 import xml_ok
from lib.world import T_10, T_11, T_20, T_SERVER, Net, NetError, Stores, deliver, html_page, read_form, url_args, xrds

PROP = 'C30'
TECHNIQUE = ('runtime monitoring: whole systems of relying parties, providers and users, all running the library, are driven through random histories; an oracle that knows what every '
             'honest party did says what each completion has to report')
LEVEL_NOTE = ('Random configurations (protocol versions, discovery mechanisms, stores, association policies, realms, extensions) and histories (interleaved logins, lost and expired '
              'associations, restarts, outages, clock differences); sampling.')
RULE = ('a case is a history of several logins; counted distinct: (version, identifier form, discovery, policies, stores, mode, transport, association state, extensions, outcome)')
NEED = {'logins': 12000, 'success': 6000, 'cancel': 1000, 'setup needed': 400, 'setup address followed': 40, 'stateless': 1000, 'shared association': 3000, 'invalidated': 200, 'interleaved': 500,
        'extensions': 1000, 'request forms': 200, 'response forms': 200, 'xri': 200, 'selected': 300, 'delegated': 300, 'fragments': 60, 'skewed': 300, 'renegotiated': 60}
ASSUMPTIONS = ['an association used for a login neither expires nor is lost between request and response', 'clock difference and delays stay below two hours each',
               'in-process network']

PROXY = 'http://proxy.xri.net/'
PAIRS = [('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA256', 'no-encryption')]
SREG = ['nickname', 'email', 'fullname', 'dob', 'gender', 'postcode', 'country', 'language', 'timezone']
AX = ['http://axschema.org/namePerson', 'http://axschema.org/contact/email', 'http://schema.example.com/tags', 'http://schema.example.com/a?b=c&d']
POLICIES = [pape.AUTH_PHISHING_RESISTANT, pape.AUTH_MULTI_FACTOR, pape.AUTH_MULTI_FACTOR_PHYSICAL]


def policy(rng):
    return rng.sample(PAIRS, rng.choice([1, 2, 3, 4]))


class Provider(object):
    def __init__(self, rng, net, n, stores):
        self.rng, self.net, self.n, self.stores = rng, net, n, stores
        self.endpoint = rng.choice(['http://op%d.example.com/server', 'https://op%d.example.com/', 'http://op%d.example.com:8080/openid?q=1', 'https://www.op%d.example.org/a%%20b/s?x=%%26&y=']) % n
        self.skew = rng.choice([0, 0, rng.randint(-7000, 7000)])
        self.types = policy(rng) if rng.random() < .4 else None
        self.kind = rng.choice(['memory', 'memory', 'file', 'sqlite'])
        self.deaf = False            # refuses associations
        self.accounts = {}           # local id -> user
        self.lose()
        net.add(self.endpoint, self.handle)

    def lose(self):
        """A provider that forgot everything."""
        self.store = self.stores.make(self.kind)
        self.restart()

    def restart(self):
        self.server = Server(self.store, self.endpoint)
        if self.types:
            self.server.negotiator.setAllowedTypes(self.types)

    @contextmanager
    def time(self):
        clock.advance(self.skew)
        try:
            yield
        finally:
            clock.advance(-self.skew)

    def handle(self, method, url, body, headers):
        query = dict(parse_qsl((body or b'').decode('utf-8'), keep_blank_values=True))
        if self.deaf and query.get('openid.mode') == 'associate':
            raise NetError('connection refused')
        if self.rng.random() < .2:
            self.restart()
        with self.time():
            try:
                response = self.server.handleRequest(self.server.decodeRequest(query))
            except ProtocolError as why:
                response = why
            try:
                web = self.server.encodeResponse(response)
            except EncodingError as why:
                web = self.server.encodeResponse(why.response)
        return web.code, {'content-type': 'text/plain'}, web.body if isinstance(web.body, bytes) else web.body.encode('utf-8')


class User(object):
    def __init__(self, rng, net, n, op):
        self.op = op
        self.form = rng.choice(['url', 'url', 'url', 'select', 'select', 'xri'])
        self.disco = rng.choice(['type', 'header', 'meta', 'html'])
        self.v2 = rng.random() < .65 or self.form == 'select'
        self.name = gen.word(rng, 3, 6).lower() + str(n)
        if self.form == 'xri':
            self.entered = rng.choice(['=', '@']) + self.name
            self.canonical = self.entered[0] + '!' + str(1000 + n)
            self.claimed = 'xri://' + self.canonical
            self.display = self.entered
            if rng.random() < .3:
                self.entered = 'xri://' + self.entered
        else:
            self.claimed = rng.choice(['http://%s.example.com/', 'https://id.example.com/%s', 'http://id.example.com/u/%s?a=b&c=%%C3%%A9', 'https://%s.blog.example.com:8443/x/', 'http://id.example.com/~%s']) % self.name
            self.entered = self.claimed
            if self.claimed.startswith('http://') and rng.random() < .3:
                self.entered = self.claimed[7:]
            elif rng.random() < .2:
                self.entered = 'http://alias.example.com/' + self.name
                net.redirect(self.entered, self.claimed)
            self.display = self.claimed
        self.local = None
        if rng.random() < .4:
            self.local = rng.choice(['http://op.example.com/users/%s', 'https://%s.op.example.com/', 'http://op.example.com/users/?id=%s&x=%%20']) % self.name
        self.fragment = '#' + gen.word(rng, 1, 5) if self.form == 'select' and rng.random() < .4 else ''
        op.accounts[self.local or self.claimed] = self
        self.publish(rng, net)
        if self.form == 'select':
            self.entered = op.endpoint.split('?')[0] + '/%d/login' % n
            doc = xrds([dict(types=[T_SERVER], uris=[(op.endpoint, None)], local_id=None)])
            net.page(self.entered, doc, {'content-type': 'application/xrds+xml'})

    def publish(self, rng, net):
        types = rng.choice([[T_20], [T_20, T_11], [T_20]]) if self.v2 else rng.choice([[T_11], [T_10], [T_11, T_10]])
        self.both = False
        services = [dict(types=types, uris=[(self.op.endpoint, None)], local_id=self.local, prio=5)]
        if rng.random() < .3:
            services.append(dict(types=['http://other.example.com/service'], uris=[('http://other.example.com/', None)], local_id=None, prio=1))
        if self.v2 and rng.random() < .2:
            self.both = True
            services.append(dict(types=[T_11], uris=[(self.op.endpoint, None)], local_id=self.local, prio=rng.choice([7, None])))
        if self.form == 'select' and rng.random() < .15:
            # the user has accounts at many providers which come first
            services += [dict(types=types, uris=[('http://op%d.example.net/' % i, None)], local_id=rng.choice([None, 'http://op%d.example.net/joe' % i]), prio=rng.randint(0, 4)) for i in range(rng.choice([3, 12, 30]))]
        if self.form == 'xri':
            doc = xrds(services, '<Query>*x</Query><Status code="100"/><CanonicalID>%s</CanonicalID>' % rng.choice([self.claimed, self.canonical]))
            net.page(PROXY + self.display, doc, {'content-type': 'application/xrds+xml'})
            net.page(PROXY + self.canonical, doc, {'content-type': 'application/xrds+xml'})
            return
        doc = xrds(services)
        if self.disco == 'type':
            net.page(self.claimed, doc, {'content-type': rng.choice(['application/xrds+xml', 'application/xrds+xml; charset=utf-8'])})
        elif self.disco == 'header':
            net.page('http://docs.example.com/' + self.name, doc, {'content-type': rng.choice(['text/xml', 'application/xrds+xml'])})
            net.page(self.claimed, html_page([]), {'content-type': 'text/html', 'x-xrds-location': 'http://docs.example.com/' + self.name})
        elif self.disco == 'meta':
            net.page('http://docs.example.com/' + self.name, doc, {'content-type': 'text/xml'})
            net.page(self.claimed, html_page([], [('X-XRDS-Location', 'http://docs.example.com/' + self.name)]))
        else:
            links = []
            if self.v2:
                links.append(('openid2.provider', self.op.endpoint))
                if self.local:
                    links.append(('openid2.local_id', self.local))
            self.both = self.v2 and rng.random() < .3
            if not self.v2 or self.both:
                links.append(('openid.server', self.op.endpoint))
                if self.local:
                    links.append(('openid.delegate', self.local))
            rng.shuffle(links)
            net.page(self.claimed, html_page(links))


class Site(object):
    """A relying party."""

    def __init__(self, rng, n, stores):
        base = rng.choice(['http://rp%d.example.com', 'https://www.rp%d.example.org', 'http://rp%d.example.com:8080']) % n
        self.return_to = base + rng.choice(['/cb', '/openid/return?a=b', '/x/?k=%20%26&e=', '/cb?u=%C3%A9'])
        self.realm = rng.choice([base + '/', base + self.return_to[len(base):].split('?')[0], base, base.replace('://', '://*.', 1) + '/' if '//rp' in base else base.replace('www', '*') + '/'])
        self.kind = rng.choice(['memory', 'memory', 'file', 'sqlite', 'none'])
        self.store = stores.make(self.kind)
        self.dir = stores.path() if self.kind == 'file' else None
        self.types = policy(rng) if rng.random() < .5 else None
        self.sessions = [{}, {}]
        self.keep, self.kept = rng.random() < .4, {}

    def consumer(self, session):
        if id(session) in self.kept and self.kept[id(session)][1] is session:
            return self.kept[id(session)][0]
        c = Consumer(session, FileOpenIDStore(self.dir) if self.dir else self.store)
        if self.types:
            c.setAssociationPreference(self.types)
        if self.keep:
            self.kept[id(session)] = c, session
        return c


class Login(object):
    pass


class System(object):
    provider = Provider

    def __init__(self, rng, ctx, stores):
        self.rng, self.ctx = rng, ctx
        self.net = Net()
        self.ops = [self.provider(rng, self.net, n, stores) for n in range(rng.choice([1, 2]))]
        self.users = [User(rng, self.net, n, rng.choice(self.ops)) for n in range(rng.choice([1, 2, 3]))]
        self.sites = [Site(rng, n, stores) for n in range(rng.choice([1, 1, 2]))]
        self.pending = []
        self.serial = 0
        self.history = []

    # -- extensions

    def ask(self, login, req):
        rng = self.rng
        login.sreg = login.ax = login.pape = None
        if rng.random() < .4:
            fields = rng.sample(SREG, rng.randint(1, 6))
            k = rng.randint(0, len(fields))
            login.sreg = fields
            req.addExtension(sreg.SRegRequest(required=fields[:k], optional=fields[k:], policy_url=rng.choice([None, 'http://rp.example.com/policy'])))
        if login.v2 and rng.random() < .3:
            r = ax.FetchRequest()
            login.ax = {}
            for t in rng.sample(AX, rng.randint(1, 3)):
                count = rng.choice([1, 1, 3, ax.UNLIMITED_VALUES])
                r.add(ax.AttrInfo(t, count=count, required=rng.random() < .5))
                login.ax[t] = count
            req.addExtension(r)
        if login.v2 and rng.random() < .2:
            login.pape = rng.sample(POLICIES, rng.randint(0, 2))
            req.addExtension(pape.Request(login.pape, max_auth_age=rng.choice([None, 0, 3600])))
        if rng.random() < .08:
            for i in range(3):
                req.addExtensionArg('http://long.example.com/', 'x%d' % i, gen.word(rng, 400, 1500))

    def tell(self, login, request, response):
        rng = self.rng
        login.told_sreg = login.told_ax = login.told_pape = None
        value = lambda: ''.join(c for c in gen.text(rng, 1, 4) if xml_ok(c)).strip() or 'v'   # noqa: E731
        if login.sreg:
            q = sreg.SRegRequest.fromOpenIDRequest(request)
            data = {'nickname': value(), 'email': value(), 'fullname': value(), 'country': 'CZ', 'language': 'cs'}
            if rng.random() < .15:
                data['fullname'] = gen.word(rng, 1500, 2500)
            login.told_sreg = {k: v for k, v in data.items() if k in login.sreg}
            response.addExtension(sreg.SRegResponse.extractResponse(q, data))
        if login.ax:
            q = ax.FetchRequest.fromOpenIDRequest(request)
            require(q is not None and set(q.requested_attributes) == set(login.ax), 'attributes asked for did not reach the provider', asked=login.ax)
            r = ax.FetchResponse(q)
            login.told_ax = {}
            for t, count in login.ax.items():
                n = rng.randint(1, 3) if count != 1 else 1
                login.told_ax[t] = [value() for _ in range(n)]
                r.setValues(t, list(login.told_ax[t]))
            response.addExtension(r)
        if login.pape is not None:
            q = pape.Request.fromOpenIDRequest(request)
            require(q is not None and set(q.preferred_auth_policies) == set(login.pape), 'policies asked for did not reach the provider', asked=login.pape)
            login.told_pape = sorted(login.pape)
            response.addExtension(pape.Response(list(login.pape)))

    def heard(self, login, resp):
        if login.told_sreg is not None:
            got = sreg.SRegResponse.fromSuccessResponse(resp)
            require(dict(got.items() if got is not None else {}) == login.told_sreg, 'registration data differ', told=login.told_sreg, got=got and dict(got.items()), args=resp.message.toPostArgs(), signed=resp.signed_fields, request=login.args)
            self.ctx.event('extensions')
        if login.told_ax is not None:
            got = ax.FetchResponse.fromSuccessResponse(resp)
            require(got is not None and {t: got.get(t) for t in got.data} == login.told_ax, 'attributes differ', told=login.told_ax, got=got and got.data)
            self.ctx.event('extensions')
        if login.told_pape is not None:
            got = pape.Response.fromSuccessResponse(resp)
            require(got is not None and sorted(got.auth_policies) == login.told_pape, 'policies differ', told=login.told_pape, got=got and got.auth_policies)
            self.ctx.event('extensions')

    # -- steps

    def begin(self, site=None, session=None, user=None, immediate=None):
        rng, ctx = self.rng, self.ctx
        login = Login()
        self.serial += 1
        login.id = self.serial
        login.site = site or rng.choice(self.sites)
        login.session = session if session is not None else rng.choice(login.site.sessions)
        login.user = user or rng.choice(self.users)
        login.op = login.user.op
        login.v2 = login.user.v2
        login.immediate = rng.random() < .3 if immediate is None else immediate
        login.anonymous = login.v2 and not login.user.both and rng.random() < .04
        login.maybe = False
        login.answered = False
        login.alone = True
        login.started = clock.now
        for other in self.pending:
            if other.session is login.session:
                other.alone = False
        asked = len(self.net.log)
        req = login.site.consumer(login.session).begin(login.user.entered, anonymous=login.anonymous)
        posts = [b for m, u, b in self.net.log[asked:] if m == 'POST']
        if len(posts) > 1:
            ctx.event('renegotiated')
        require(req.endpoint.server_url == login.op.endpoint, 'request goes to another provider', endpoint=req.endpoint.server_url, want=login.op.endpoint)
        if login.user.both and login.user.form != 'select':
            # the services take turns while no login was completed
            login.v2 = req.message.isOpenID2()
        require(req.message.isOpenID2() == login.v2, 'protocol version differs from the discovered one', version2=req.message.isOpenID2())
        self.ask(login, req)
        if not req.shouldSendRedirect() or rng.random() < .2:
            attrs, fields = read_form(req.htmlMarkup(login.site.realm, login.site.return_to, immediate=login.immediate))
            require(attrs['action'] == login.op.endpoint, 'form goes elsewhere', action=attrs['action'])
            login.args = dict(url_args(attrs['action']) + fields)
            ctx.event('request forms')
        else:
            login.args = dict(url_args(req.redirectURL(login.site.realm, login.site.return_to, immediate=login.immediate)))
        login.handle = login.args.get('openid.assoc_handle')
        self.history.append(('begin', login.id, self.sites.index(login.site), login.user.entered, login.immediate, login.handle))
        if rng.random() < .3:
            data = pickle.loads(pickle.dumps(dict(login.session)))
            login.session.clear()
            login.session.update(data)
        self.pending.append(login)
        return login

    def answer(self, login, approve=None, args=None):
        rng = self.rng
        login.approve = rng.random() < .8 if approve is None else approve
        user = login.user
        with login.op.time():
            server = login.op.server
            request = server.decodeRequest(dict(args or login.args))
            require(request.trustRootValid(), 'provider finds the return address outside the realm', realm=login.site.realm, return_to=login.site.return_to)
            require(request.return_to.startswith(login.site.return_to) and request.trust_root == login.site.realm, 'return address or realm differ',
                    return_to=request.return_to, realm=request.trust_root)
            require(request.immediate == login.immediate, 'mode differs')
            if login.anonymous:
                require(request.identity is None, 'an anonymous request names an identifier', identity=request.identity)
            elif user.form == 'select':
                require(request.idSelect(), 'provider is not asked to select an identifier', identity=request.identity)
            else:
                require(request.identity == (user.local or user.claimed), 'another identifier is asked for', identity=request.identity, want=user.local or user.claimed)
                require(not login.v2 or login.anonymous or request.claimed_id == user.claimed, 'another claimed identifier is asked for', claimed=request.claimed_id)
            if not login.approve:
                response = request.answer(False, server_url=login.op.endpoint)
            else:
                if not login.anonymous and user.form == 'select':
                    response = request.answer(True, identity=user.local or user.claimed, claimed_id=user.claimed + user.fragment)
                else:
                    response = request.answer(True)
                self.tell(login, request, response)
            web = server.encodeResponse(response)
        if web.code == 200:
            self.ctx.event('response forms')
        login.delivery = deliver(web, request.return_to)
        login.form = web.code == 200
        login.answered = True
        self.history.append(('answer', login.id, login.approve))

    def complete(self, login):
        rng, ctx, user = self.rng, self.ctx, login.user
        self.pending.remove(login)
        url, args = login.delivery
        args = dict(args)
        shared = args.get('openid.assoc_handle') == login.handle and login.handle is not None
        had = None
        if login.site.store is not None and args.get('openid.invalidate_handle'):
            had = args['openid.invalidate_handle']
        asked = len(self.net.log)
        resp = login.site.consumer(login.session).complete(args, rng.choice([url, login.site.return_to]))
        for other in self.pending:
            if other.session is login.session:
                other.alone = False
        self.history.append(('complete', login.id, resp.status))
        ctx.event('logins')
        if login.op.skew:
            ctx.event('skewed')
        if not login.alone:
            ctx.event('interleaved')
        if login.maybe:
            return resp
        want = SUCCESS if login.approve else SETUP_NEEDED if login.immediate else CANCEL
        detail = dict(version=2 if login.v2 else 1, user=user.entered, claimed=user.claimed, local=user.local, endpoint=login.op.endpoint, args=args, history=self.history[-12:])
        require(resp.status == want, 'an honest login ended with another result', want=want, got=resp.status, message=getattr(resp, 'message', None), **detail)
        ctx.state(login.v2, user.form, user.disco, user.local is not None, bool(user.fragment), login.site.kind, login.op.kind, login.immediate, login.form, shared, had is not None,
                  login.told_sreg is not None if login.approve else None, login.approve, login.alone, len(user.op.types or ()), len(login.site.types or ()))
        if not login.approve:
            if login.immediate:
                ctx.event('setup needed')
            else:
                ctx.event('cancel')
            return resp
        ctx.event('success')
        posts = [dict(parse_qsl(b.decode('utf-8'), keep_blank_values=True)).get('openid.mode') for m, u, b in self.net.log[asked:] if m == 'POST']
        if shared:
            ctx.event('shared association')
            require('check_authentication' not in posts, 'a response under a shared association is verified directly', **detail)
        else:
            ctx.event('stateless')
            require('check_authentication' in posts, 'a response without a shared association is not verified directly', **detail)
        if had:
            left = login.site.store.getAssociation(login.op.endpoint, had)
            require(left is None, 'an association the provider gave up is still used', handle=had, **detail)
            ctx.event('invalidated')
        if login.anonymous:
            require(resp.identity_url is None and resp.getDisplayIdentifier() is None, 'identifier without one having been asked for', identity=resp.identity_url)
        else:
            claimed = user.claimed + user.fragment
            require(resp.identity_url == claimed, 'another identifier is reported', got=resp.identity_url, want=claimed, **detail)
            require(resp.endpoint.claimed_id == claimed and resp.endpoint.getLocalID() in (user.local or user.claimed, user.local or claimed) and resp.endpoint.server_url == login.op.endpoint,
                    'endpoint differs', got=(resp.endpoint.claimed_id, resp.endpoint.getLocalID(), resp.endpoint.server_url), **detail)
            if user.form != 'xri' or login.alone:
                require(resp.getDisplayIdentifier() == user.display, 'display identifier differs', got=resp.getDisplayIdentifier(), want=user.display, **detail)
            for what, is_it in [('xri', user.form == 'xri'), ('selected', user.form == 'select'), ('delegated', user.local is not None), ('fragments', bool(user.fragment))]:
                if is_it:
                    ctx.event(what)
        require(resp.isOpenID1() == (not login.v2), 'protocol version differs')
        require(resp.getReturnTo().startswith(login.site.return_to), 'return address differs', got=resp.getReturnTo())
        self.heard(login, resp)
        return resp

    def pause(self, seconds):
        """Time passes.  Logins under way stay within their limits."""
        for login in self.pending:
            if clock.now + seconds - login.started > 7000 or seconds > 7000:
                login.maybe = True
            if login.handle is not None and login.site.store is not None:
                a = login.site.store.getAssociation(login.op.endpoint, login.handle)
                if a is None or a.issued + a.lifetime <= clock.now + seconds + 1:
                    login.maybe = True
        clock.advance(seconds)
        self.history.append(('pause', seconds))


def history(rng, ctx):
    stores = Stores()
    try:
        s = System(rng, ctx, stores)
        for _ in range(rng.randint(8, 24)):
            r = rng.random()
            waiting = [p for p in s.pending if not p.answered]
            ready = [p for p in s.pending if p.answered]
            if r < .3 and len(s.pending) < 4 or not s.pending:
                s.begin()
            elif r < .55 and waiting:
                s.answer(rng.choice(waiting))
            elif r < .82 and ready:
                login = rng.choice(ready)
                resp = s.complete(login)
                if resp.status == SETUP_NEEDED and not login.maybe:
                    if not login.v2 and rng.random() < .9:
                        # the address the provider offered leads to the same login with interaction
                        require(resp.setup_url and resp.setup_url.split('?')[0] == login.op.endpoint.split('?')[0], 'setup address is not the provider\'s', got=resp.setup_url)
                        s.pending.append(login)
                        login.immediate, login.alone = False, False
                        # whether that address repeats the extension data is left to the provider
                        login.sreg = login.ax = login.pape = None
                        s.answer(login, args=dict(url_args(resp.setup_url)))
                        s.complete(login)
                        ctx.event('setup address followed')
                    elif rng.random() < .5:
                        again = s.begin(login.site, login.session, login.user, immediate=False)
                        s.answer(again)
                        s.complete(again)
            elif r < .87:
                s.pause(rng.choice([1, 60, 600, 3500, 86400, 13 * 86400, 14 * 86400, 15 * 86400]))
            elif r < .90:
                op = rng.choice(s.ops)
                for p in s.pending:
                    if p.op is op and p.answered:
                        p.maybe = True
                op.lose()
                s.history.append(('provider lost its store', op.n))
            elif r < .92:
                site = rng.choice(s.sites)
                if site.store is not None:
                    for op in s.ops:
                        a = site.store.getAssociation(op.endpoint)
                        if a is not None:
                            for p in s.pending:
                                if p.site is site and p.handle == a.handle:
                                    p.maybe = True
                            site.store.removeAssociation(op.endpoint, a.handle)
                    s.history.append(('site lost associations',))
            elif r < .95:
                for store in [op.store for op in s.ops] + [site.store for site in s.sites]:
                    if store is not None and rng.random() < .7:
                        store.cleanupNonces()
                        store.cleanupAssociations()
                s.history.append(('cleanup',))
            elif r < .97:
                op = rng.choice(s.ops)
                op.deaf = not op.deaf
                s.history.append(('deaf', op.n, op.deaf))
            else:
                # the session sees something unrelated
                site = rng.choice(s.sites)
                session = rng.choice(site.sessions)
                for p in s.pending:
                    if p.session is session:
                        p.alone = False
                site.consumer(session).complete(dict(rng.choice([{}, {'openid.mode': 'cancel'}, {'openid.mode': 'id_res'}, {'x': 'y'}])), site.return_to)
                s.history.append(('noise',))
        for login in list(s.pending):
            if not login.answered:
                s.answer(login)
            s.complete(login)
        ctx.sample('history', s.history)
    finally:
        stores.close()


SCENARIOS = [('history', history, 6000, 120000)]
