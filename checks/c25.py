"""C25: service fallback tries each discovered service once, in order, per session."""
import copy
import pickle

from openid import fetchers
from openid.consumer.consumer import CANCEL, FAILURE, SETUP_NEEDED, SUCCESS, Consumer
from openid.consumer.discover import DiscoveryFailure
from openid.yadis.manager import Discovery

from lib import gen
from lib.core import Violation, require
from lib.vclock import clock
from lib.world import OPENID2, T_10, T_11, T_20, T_SERVER, Keyed, Net, Stores, assertion, html_page, nonce_at, url_args, xrds

PROP = 'C25'
TECHNIQUE = ('runtime monitoring: online checker of a trace specification; every start and completion in several sessions is compared with a model of the '
             'remaining services, and the network log shows when discovery happened')
LEVEL_NOTE = ('Random histories of starts, completions, failing discoveries, changing pages and session save/restore, through the real consumer and the '
              'fallback interface; sampling.')
RULE = 'a case is one history; counted distinct: (operation, model state before: own/other/none and number of services left, outcome)'
NEED = {'starts': 4000, 'continued': 1500, 'discovered': 2000, 'restarted': 300, 'switched': 300, 'empty': 100, 'failed discovery': 100, 'success': 300, 'cancel': 300, 'failure': 200,
        'setup needed': 100, 'restored': 1000, 'other session': 500, 'direct': 5000, 'cleanup': 800}
ASSUMPTIONS = ['sessions are dictionaries of serializable values; one request at a time per session']


class StrictSession(object):
    """Like a shelf: keeps what was assigned, not later changes of the object."""

    def __init__(self, data=None):
        self.data = dict(data or {})

    def __getitem__(self, k):
        return pickle.loads(self.data[k])

    def __setitem__(self, k, v):
        self.data[k] = pickle.dumps(v)

    def __delitem__(self, k):
        del self.data[k]

    def __contains__(self, k):
        return k in self.data

    def get(self, k, default=None):
        return self[k] if k in self.data else default

    def pop(self, k, *default):
        v = self.get(k)
        if k in self.data:
            del self.data[k]
            return v
        if default:
            return default[0]
        raise KeyError(k)

    def setdefault(self, k, v):
        if k not in self.data:
            self[k] = v
        return self[k]

    def keys(self):
        return self.data.keys()

    def __iter__(self):
        return iter(list(self.data))

    def __len__(self):
        return len(self.data)


class Model(object):
    """State of one session and prefix."""

    def __init__(self):
        self.urls = None
        self.left = []
        self.current = None

    def kind(self, url):
        if self.urls is None:
            return 'none'
        if url in self.urls:
            return 'own%d' % min(len(self.left), 3)
        return 'other'

    def active(self, url):
        return self.urls is not None and url in self.urls and bool(self.left)

    def clear(self):
        self.urls, self.left, self.current = None, [], None


class Site(object):
    """An identity page and the services it declares now."""

    def __init__(self, rng, net, n, share=None):
        self.rng, self.net, self.n = rng, net, n
        self.typed = rng.choice(['http://id%d.example/', 'http://id%d.example/joe', 'https://id%d.example/', 'http://id.example/%d', 'http://id.example/?u=%d']) % n
        self.page = self.typed
        self.claimed = self.typed
        if share is not None:
            # redirects to the page of another one
            net.redirect(self.page, share.page)
            self.claimed = share.claimed
        elif rng.random() < 0.3:
            self.claimed = 'http://final%d.example/x' % n
            net.redirect(self.page, self.claimed)
        if self.typed.startswith('http://') and rng.random() < 0.3:
            self.typed = self.typed[7:]
        self.share = share
        self.state = 'ok'
        self.services = []
        self.round = 0
        if share is None:
            self.change()

    def change(self):
        """New content."""
        if self.share is not None:
            return self.share.change()
        rng = self.rng
        self.round += 1
        k = gen.bulk(rng, .02, 70) or rng.choice((0, 1, 1, 2, 2, 3, 4, 6))
        prios = rng.sample(range(100), k)
        prios.sort()
        op = rng.random() < 0.2
        self.services = []
        docs = []
        for i in range(k):
            uri = 'http://op%d.example/%d/%d' % (self.n, self.round, i)
            types = [T_SERVER] if op else [rng.choice([T_20, T_20, T_11, T_10])]
            self.services.append((uri, None if op else self.claimed, types[0]))
            docs.append({'types': types, 'uris': [(uri, None)], 'prio': prios[i]})
            Keyed(self.net, uri, lambda q: True)
        rng.shuffle(docs)
        if k and rng.random() < 0.2:
            docs.append({'types': ['http://other.example/type'], 'uris': [('http://evil.example/', None)], 'prio': 0})
        doc = xrds(docs).encode('utf-8')
        if k == 0 and rng.random() < 0.5:
            doc = html_page([]).encode('utf-8')
            headers = {'content-type': 'text/html'}
        else:
            headers = {'content-type': 'application/xrds+xml'}
        self.state = 'ok'

        def serve(m, u, b, h):
            state = self.state
            if state == 'down':
                raise fetchers.HTTPFetchingError('down') if rng.random() < 0.5 else OSError('down')
            if state == '500':
                return 500, {}, b'oops'
            return 200, headers, doc
        self.net.add(self.claimed, serve)

    def now(self):
        return self.share.now() if self.share is not None else (self.state, list(self.services))


def consumer_class(prefix):
    if prefix is None:
        return Consumer
    return type('MyConsumer', (Consumer,), {'session_key_prefix': prefix})


class Player(object):
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.stores = Stores()
        self.net = Net()
        self.store = self.stores.make(rng.choice(['memory', 'none']))
        self.sites = []
        for i in range(rng.randint(1, 4)):
            share = None
            own = [s for s in self.sites if s.share is None]
            if own and rng.random() < 0.25:
                share = rng.choice(own)
            self.sites.append(Site(rng, self.net, i, share))
        self.sessions = [StrictSession() if rng.random() < 0.3 else {} for _ in range(rng.choice((1, 2, 2)))]
        self.prefixes = [consumer_class(None)] + ([consumer_class(rng.choice(['x', '_openid_consumer_2', 'auth', '_', 'é']))] if rng.random() < 0.5 else [])
        self.models = {(s, p): Model() for s in range(len(self.sessions)) for p in range(len(self.prefixes))}
        self.pending = {}

    def consumer(self, where):
        return self.prefixes[where[1]](self.sessions[where[0]], self.store)

    def begin(self, where, site):
        ctx, m = self.ctx, self.models[where]
        before = m.kind(site.typed)
        status, services = site.now()
        self.net.log[:] = []
        expect_discovery = not m.active(site.typed)
        try:
            req = self.consumer(where).begin(site.typed)
        except DiscoveryFailure:
            req = None
        fetched = [u for meth, u, b in self.net.log if meth == 'GET']
        ctx.event('starts')
        if expect_discovery:
            require(bool(fetched), 'no new discovery although all services were used or none are known', identifier=site.typed, state=before)
            if before == 'own0':
                ctx.event('restarted')
                m.clear()
            if status != 'ok' or not services:
                require(req is None, 'a service is offered although discovery gives none', offered=req and req.endpoint.server_url)
                ctx.event('failed discovery' if status != 'ok' else 'empty')
                ctx.state('begin', before, status, len(services))
                return None
            ctx.event('discovered')
            if before == 'other':
                ctx.event('switched')
            m.urls, m.left = (site.typed, site.claimed), services
        else:
            require(not fetched, 'discovery is repeated although services remain', identifier=site.typed, left=len(m.left), fetched=fetched)
            ctx.event('continued')
        require(req is not None, 'no service is offered although some remain', identifier=site.typed, left=[s[0] for s in m.left], state=before)
        uri, claimed, typ = m.left.pop(0)
        e = req.endpoint
        require(e.server_url == uri, 'not the next service in the discovered order', offered=e.server_url, expected=uri, then=[s[0] for s in m.left], state=before)
        require(e.claimed_id == claimed and typ in e.type_uris, 'the service offered is altered', claimed=e.claimed_id, types=e.type_uris, expected=(claimed, typ))
        require(req.redirectURL('http://rp.example/', 'http://rp.example/cb').startswith(uri + '?'), 'request goes elsewhere', expected=uri)
        self.pending[where] = (uri, claimed, typ, req)
        m.current = uri
        ctx.state('begin', before, min(len(services), 3), len(m.left))
        ctx.sample('starts', '%s -> %s' % (site.typed, uri))
        return req

    def complete(self, where, kind):
        ctx, rng, m = self.ctx, self.rng, self.models[where]
        uri, claimed, typ, req = self.pending.pop(where)
        v2 = typ in (T_20, T_SERVER)
        op_id = claimed is None
        args = {}
        url = 'http://rp.example/cb'
        if kind == 'success':
            op = Keyed.__new__(Keyed)
            op.endpoint = uri
            sent = dict(url_args(req.redirectURL('http://rp.example/', url)))
            rt = sent['openid.return_to']
            who = claimed
            if op_id:
                # the user's own page agrees that this provider may speak for it
                who = 'http://user.example/%d' % rng.randrange(10)
                self.net.page(who, xrds([{'types': [T_20], 'uris': [(uri, None)]}]), {'content-type': 'application/xrds+xml'})
            args = assertion(v2, op, 'h', who, who, url, None)
            args['openid.return_to'] = rt
            args.update(url_args(rt))
            if v2:
                args['openid.response_nonce'] = nonce_at(clock.now, gen.word(rng, 6, 10))
                args['openid.signed'] += ',response_nonce'
            args['openid.sig'] = 'AAAA'
            url = rt
            expected = SUCCESS
        elif kind == 'cancel':
            args = {'openid.mode': 'cancel'}
            expected = CANCEL
        elif kind == 'setup':
            if v2:
                args = {'openid.mode': 'setup_needed'}
            else:
                args = {'openid.mode': 'id_res', 'openid.user_setup_url': uri + '?setup'}
            expected = SETUP_NEEDED
        elif kind == 'error':
            args = {'openid.mode': 'error', 'openid.error': 'x'}
            expected = FAILURE
        else:
            args = {'openid.mode': rng.choice(['bogus', 'id_res', 'checkid_setup'])}
            if rng.random() < 0.3:
                args = {}
            expected = FAILURE
        if args and v2:
            args['openid.ns'] = OPENID2
        resp = self.consumer(where).complete(args, url)
        require(resp.status == expected, 'harness: completion has another outcome', got=resp.status, expected=expected, message=getattr(resp, 'message', None), kind=kind)
        ctx.event({SUCCESS: 'success', CANCEL: 'cancel', FAILURE: 'failure', SETUP_NEEDED: 'setup needed'}[resp.status])
        ctx.state('complete', kind, op_id, v2, len(m.left))
        if resp.status in (SUCCESS, CANCEL) and resp.identity_url is not None:
            m.clear()


def flows(rng, ctx):
    p = Player(rng, ctx)
    try:
        focus = rng.random() < 0.5
        site = rng.choice(p.sites)
        for _ in range(rng.randint(5, 30)):
            where = rng.choice(sorted(p.models))
            if not focus or rng.random() < 0.15:
                site = rng.choice(p.sites)
            r = rng.random()
            if r < 0.6:
                others = {w: copy.deepcopy(m) for w, m in p.models.items() if w != where}
                p.begin(where, site)
                if others:
                    p.ctx.event('other session')
            elif r < 0.85:
                if where in p.pending:
                    p.complete(where, rng.choice(['success', 'cancel', 'error', 'junk', 'setup']))
            elif r < 0.9:
                s = rng.choice([x for x in p.sites if x.share is None])
                s.change()
            elif r < 0.95:
                s = rng.choice([x for x in p.sites if x.share is None])
                s.state = rng.choice(['ok', 'ok', 'down', '500'])
            i = rng.randrange(len(p.sessions))
            if isinstance(p.sessions[i], dict) and rng.random() < 0.5:
                p.sessions[i] = pickle.loads(pickle.dumps(p.sessions[i], rng.choice((0, 2, 4))))
                ctx.event('restored')
            if rng.random() < 0.2:
                clock.advance(rng.choice((1, 10, 100)))
    finally:
        p.stores.close()


class Boom(Exception):
    pass


def direct(rng, ctx):
    """The fallback interface itself."""
    urls = ['http://a.example/', 'http://b.example/', 'http://c.example/'][:rng.randint(1, 3)]
    while rng.random() < 0.4:
        # almost the same
        u = rng.choice(urls)
        urls.append(rng.choice([u[:-1], u + '/', u + 'x', u.upper(), u + '#f', u + '?', u.replace('http', 'https'), u + u, ' ' + u, u + ' ', u.replace('.example/', '.example:80/')]))
    suffixes = [None, 'auth', 'x', '', 'auth2', 'X', 'Auth', 'auth ', 'xx', 'x_x', '0', 'None']
    if rng.random() < 0.5:
        suffixes = suffixes[:rng.randint(1, 5)]
    else:
        suffixes = rng.sample(suffixes, rng.randint(1, 4))
    sessions = [rng.choice([dict, StrictSession])() for _ in range(rng.choice((1, 2)))]
    models = {}
    count = [0]
    caching, cache = rng.random() < 0.3, {}

    def model(s, suffix):
        return models.setdefault((s, 'auth' if suffix is None else suffix), Model())

    for _ in range(rng.randint(5, 40)):
        s = rng.randrange(len(sessions))
        suffix = rng.choice(suffixes)
        url = rng.choice(urls)
        m = model(s, suffix)
        d = Discovery(sessions[s], url, suffix) if rng.random() < 0.8 or suffix is not None else Discovery(sessions[s], url)
        before = m.kind(url)
        if rng.random() < 0.75:
            ctx.event('direct')
            final = rng.choice([url, url, url + 'final', rng.choice(urls)])
            services = [(count[0], i) for i in range(gen.bulk(rng, .01, 300) or rng.choice((0, 1, 2, 2, 3, 5)))]
            count[0] += 1
            answer = list(services)
            if caching:
                # what was discovered once is remembered by the application's function
                answer, services = cache.setdefault(url, (answer, tuple(services)))
                services = list(services)
            fail = rng.random() < 0.1
            asked = []

            def discover(u):
                asked.append(u)
                if fail:
                    raise Boom()
                return final, answer
            expect = not m.active(url)
            try:
                got = d.getNextService(discover)
            except Boom:
                got = Boom
            require(asked == ([url] if expect else []), 'discovery is done when it should not be or the other way round', asked=asked, state=before)
            if before == 'own0':
                m.clear()
            if expect:
                if fail:
                    require(got is Boom, 'failed discovery is hidden', got=got)
                    continue
                if not services:
                    require(got is None, 'a service is offered although there is none', got=got, state=before)
                    continue
                m.urls, m.left = (url, final), list(services)
            want = m.left.pop(0)
            require(got == want, 'not the next service in the discovered order', got=got, expected=want, state=before)
            m.current = want
        else:
            ctx.event('cleanup')
            force = rng.random() < 0.5
            got = d.cleanup(force=True) if force else d.cleanup()
            if m.urls is not None and (force or url in m.urls):
                require(got == m.current, 'cleaning up gives another service than the last one offered', got=got, expected=m.current)
                m.clear()
            else:
                require(got is None, 'cleaning up gives a service of another identifier or session', got=got)
        ctx.state('direct', before, m.kind(url), suffix, len(sessions))
        if isinstance(sessions[s], dict) and rng.random() < 0.3:
            sessions[s] = pickle.loads(pickle.dumps(sessions[s]))
            ctx.event('restored')


SCENARIOS = [('flows', flows, 6300, 60000), ('direct', direct, 6300, 60000)]
