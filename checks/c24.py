"""C24: all HTTP fetchers behave alike and only speak HTTP."""
import os
import shutil
import time
from urllib.parse import urljoin

from openid import fetchers

from lib import gen
from lib.core import Violation, require
from lib.httpd import Reply, Server
from lib.world import scratch
from checks.c21 import meaning

PROP = 'C24'
TECHNIQUE = ('runtime monitoring: the real fetchers and HTTP libraries run against a scripted loopback server that records every request on the wire; monitors compare requests and '
             'results with the script, and canary files and a canary listener watch other schemes')
LEVEL_NOTE = 'Random redirect graphs, statuses, headers, bodies, faults, hostile addresses and locations for every bundled fetcher; sampling. No TLS.'
RULE = 'a case is one script run by every fetcher; counted distinct: (fetcher, method, redirects, status, extras, outcome)'
NEED = {'fetches': 4000, 'posts': 600, 'redirects': 1500, 'error statuses': 600, 'hostile urls': 800, 'hostile locations': 800, 'faults': 800, 'wrapped errors': 800, 'misleading': 500, 'gzip': 200,
        'cached': 60, 'loops': 20, 'interim': 300, 'see other': 200, 'large': 100, 'again': 800, 'chosen': 800}
ASSUMPTIONS = ['redirects of posted requests, and the rarer redirect codes, are handled as the underlying library does', 'the fetchers by requests and httplib2 do not limit the size of a response',
               'loopback network; no TLS']
WORKERS = 8
CASE_LIMIT = 100

server = None
canary = None
CANARY = b'canary-52ab10-secret'
SECRET_URLS = []


class FastTime(object):
    """The time module for the fetchers: redirect loops do not have to be waited out."""
    offset = 0

    def __getattr__(self, name):
        return getattr(time, name)

    def time(self):
        return time.time() + self.offset

    def pass_by(self):
        self.offset += 2


fast = FastTime()


def worker_init(ctx):
    global server, canary
    if getattr(fetchers, 'time', None) is time:
        fetchers.time = fast
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    server = Server()
    canary = scratch()
    path = os.path.join(canary, 'secret')
    with open(path, 'wb') as f:
        f.write(CANARY)
    SECRET_URLS[:] = ['file://' + path, 'file:' + path, 'file://localhost' + path, 'FILE://' + path, path, 'local_file://' + path, 'url:file://' + path, ' file://' + path, '\tfile://' + path,
                      'file://127.0.0.1' + path, '<url:file://%s>' % path]


def worker_exit(ctx):
    server.close()
    shutil.rmtree(canary, ignore_errors=True)


def makers():
    out = [('urllib', fetchers.Urllib2Fetcher)]
    if fetchers.pycurl is not None:
        out.append(('curl', fetchers.CurlHTTPFetcher))
    if fetchers.httplib2 is not None:
        out.append(('httplib2', fetchers.HTTPLib2Fetcher))
    if fetchers.requests is not None:
        out.append(('requests', fetchers.RequestsFetcher))
    return out


def use(make, wrap=True):
    f = make()
    fetchers.setDefaultFetcher(f, wrap_exceptions=wrap)
    return f


def header(resp, name):
    for k, v in resp.headers.items():
        if k.lower() == name.lower():
            return v
    return None


def path(rng, n):
    p = '/%s%d' % (gen.word(rng, 1, 5), n)
    if rng.random() < 0.2:
        p += rng.choice(['/', '/x', '.html', '/a-b_c~d'])
    if rng.random() < 0.3:
        p += '?a=%s&b=%s' % (gen.word(rng), rng.choice(['1', '%26', 'x+y', '%C3%A9', '']))
    return p


MISLEADING = [('Content-Location', 'http://victim.example/'), ('Content-Location', '/other'), ('Location', 'http://victim.example/'), ('Refresh', '0; url=http://victim.example/'),
              ('X-Original-URL', 'http://victim.example/'), ('Link', '<http://victim.example/>; rel="canonical"'), ('URI', 'http://victim.example/'), ('-x-permanent-redirect-url', 'http://victim.example/'),
              ('-content-encoding', 'x'), ('status', '200'), ('Status', '404')]
STATUSES = [200, 200, 200, 200, 206, 201, 202, 400, 401, 403, 404, 405, 410, 418, 500, 502, 503]


def lay(rng, hops, status, headers, body, network_path=True):
    """Put a chain of redirects and the page on the server: list of (port, target) from the first to the last."""
    chain = []
    for i in range(hops + 1):
        chain.append((rng.choice((0, 0, 1)), path(rng, i)))
    for i in range(hops):
        port, target = chain[i]
        nport, ntarget = chain[i + 1]
        code = rng.choice([301, 302, 303, 307])
        loc = server.base(nport) + ntarget
        if port == nport:
            r = rng.random()
            if r < 0.3:
                loc = ntarget
            elif r < 0.4 and network_path:
                loc = '//127.0.0.1:%d%s' % (server.ports[nport], ntarget)
            elif r < 0.5 and target.partition('?')[0].count('/') == 1:
                loc = ntarget[1:]
        if rng.random() < 0.1:
            loc += '#frag'
        name = rng.choice(['Location', 'location', 'LOCATION'])
        server.script[port, target] = Reply(code, [(name, loc)] + ([('Content-Location', 'http://victim.example/r')] if rng.random() < 0.2 else []), b'moved')
    port, target = chain[-1]
    server.script[port, target] = Reply(status, headers, body, length=rng.random() < 0.8)
    return chain


def url_of(node):
    return server.base(node[0]) + node[1]


def where(req):
    """The URL of a request that arrived."""
    host = (req.get('host') or [''])[0]
    return 'http://%s%s' % (host, req.target)


def no_fragment(url):
    return dict(meaning(url), fragment=b'')


def check_response(ctx, label, resp, node, status, headers, body):
    require(resp.status == status, 'status differs', fetcher=label, got=resp.status, sent=status)
    require(isinstance(resp.body, bytes) and resp.body == (b'' if status in (204, 304) else body), 'body differs', fetcher=label, got=resp.body[:200], sent=body[:200])
    require(no_fragment(resp.final_url) == no_fragment(url_of(node)), 'final URL is not where the answer came from', fetcher=label, got=resp.final_url, really=url_of(node))
    for k, v in headers:
        require(header(resp, k) == v or k in ('status', 'Status', '-content-encoding', '-x-permanent-redirect-url', 'Content-Location'), 'response header differs', fetcher=label, name=k,
                got=header(resp, k), sent=v)


def get(rng, ctx):
    for label, make in makers():
        server.reset()
        hops = rng.choice((0, 0, 1, 1, 2, 3))
        status = rng.choice(STATUSES)
        body = gen.text(rng, 0, 20).encode('utf-8') + bytes(rng.randrange(256) for _ in range(rng.choice((0, 5, 3000))))
        headers = [('Content-Type', rng.choice(['text/html', 'application/xrds+xml; charset=UTF-8'])), (rng.choice(['X-XRDS-Location', 'x-xrds-location']), 'http://x.example/' + gen.word(rng))]
        if rng.random() < 0.4:
            extra = rng.choice(MISLEADING)
            if not (extra[0] == 'Location' and status == 201):
                headers.append(extra)
            ctx.event('misleading')
        if rng.random() < 0.3:
            body = b'<html><head><base href="http://victim.example/"><meta http-equiv="refresh" content="0;url=http://victim.example/"></head></html>' + body
        server.gzip = rng.random() < 0.3
        chain = lay(rng, hops, status, headers, body, label != 'httplib2')
        if rng.random() < 0.2:
            # interim responses come before the real one
            for node in rng.sample(chain, rng.randint(1, len(chain))):
                server.script[node].interim = ''.join('HTTP/1.1 100 %s\r\n%s\r\n' % (rng.choice(['Continue', 'continue', 'x']), rng.choice(['', '', 'X-Interim: y\r\n'])) for _ in range(rng.choice((1, 1, 2, 3)))).encode()
            ctx.event('interim')
        given = {}
        if rng.random() < 0.7:
            given['Accept'] = rng.choice(['text/html; q=0.3, application/xrds+xml', '*/*'])
        if rng.random() < 0.5:
            given['X-' + gen.word(rng, 2, 6)] = gen.word(rng, 1, 8)
        if rng.random() < 0.3:
            given['User-Agent'] = 'mine/1.0'
        sent = dict(given)
        wrap = rng.random() < 0.7
        use(make, wrap)
        url = url_of(chain[0]) + rng.choice(['', '', '', '#frag'])
        resp = fetchers.fetch(url, headers=given) if given or rng.random() < 0.5 else fetchers.fetch(url)
        ctx.event('fetches')
        log = list(server.log)
        require([(r.port, no_fragment(where(r))['path'], no_fragment(where(r))['query']) for r in log] ==
                [(c[0], meaning(url_of(c))['path'], meaning(url_of(c))['query']) for c in chain], 'requests are not those of the redirects', fetcher=label, seen=[where(r) for r in log],
                expected=[url_of(c) for c in chain])
        for r in log:
            require(r.method == 'GET' and r.body == b'', 'not a plain GET', fetcher=label, method=r.method)
        for k, v in sent.items():
            require(log[0].get(k) == [v], 'given header is not sent as given', fetcher=label, name=k, given=v, seen=log[0].get(k))
        require(len(log[0].get('User-Agent')) == 1, 'no user agent', fetcher=label)
        check_response(ctx, label, resp, chain[-1], status, headers, body)
        if hops:
            ctx.event('redirects')
        if server.gzip and log[-1].get('accept-encoding') and 'gzip' in log[-1].get('accept-encoding')[0]:
            ctx.event('gzip')
        if status >= 400:
            ctx.event('error statuses')
        ctx.state(label, 'get', hops, status, len(headers), bool(server.gzip))
        ctx.sample(label, '%s -> %s %s' % (url, resp.status, resp.final_url))


def post(rng, ctx):
    for label, make in makers():
        server.reset()
        status = rng.choice(STATUSES)
        body = b'mode:x\nis_valid:true\n' + gen.text(rng, 0, 5).encode('utf-8')
        chain = lay(rng, 0, status, [('Content-Type', 'text/plain')], body)
        if rng.random() < 0.2:
            server.script[chain[0]].interim = b'HTTP/1.1 100 Continue\r\n\r\n' * rng.choice((1, 1, 2))
            ctx.event('interim')
        data = rng.choice([b'', b'a=b&c=d', gen.text(rng, 0, 10).encode('utf-8'), bytes(rng.randrange(256) for _ in range(rng.choice((1, 50, 3000))))])
        given = {'Content-type': 'application/x-www-form-urlencoded'} if rng.random() < 0.7 else {}
        if rng.random() < 0.3:
            given['X-Test'] = gen.word(rng)
        sent = dict(given)
        use(make, rng.random() < 0.7)
        resp = fetchers.fetch(url_of(chain[0]), data, given)
        ctx.event('posts')
        ctx.event('fetches')
        log = list(server.log)
        require(len(log) == 1 and log[0].method == 'POST', 'not one POST', fetcher=label, seen=[(r.method, where(r)) for r in log])
        require(log[0].body == data, 'posted body differs', fetcher=label, given=data[:100], seen=log[0].body[:100])
        for k, v in sent.items():
            require(log[0].get(k) == [v], 'given header is not sent as given', fetcher=label, name=k, given=v, seen=log[0].get(k))
        check_response(ctx, label, resp, chain[0], status, [('Content-Type', 'text/plain')], body)
        if status >= 400:
            ctx.event('error statuses')
        ctx.state(label, 'post', status, len(data))


def see_other(rng, ctx):
    """The answer to a posted request is elsewhere: it is got there, without the posted data."""
    for label, make in makers():
        server.reset()
        body = gen.text(rng, 0, 5).encode('utf-8')
        chain = lay(rng, rng.choice((1, 1, 2)), rng.choice(STATUSES), [('Content-Type', 'text/plain')], body, label != 'httplib2')
        for node in chain[:-1]:
            server.script[node].status = 303
        use(make)
        data = rng.choice([b'a=b', b'secret=x&y=z'])
        resp = fetchers.fetch(url_of(chain[0]), data)
        log = list(server.log)
        ctx.event('see other')
        ctx.state(label, 'see other', len(chain))
        require([r.method for r in log] == ['POST'] + ['GET'] * (len(chain) - 1), 'redirected request is not a GET', fetcher=label, methods=[r.method for r in log])
        require(log[0].body == data and all(r.body == b'' for r in log[1:]), 'posted data go elsewhere', fetcher=label, bodies=[r.body for r in log])
        check_response(ctx, label, resp, chain[-1], server.script[chain[-1]].status, [('Content-Type', 'text/plain')], body)


def again(rng, ctx):
    """Fetches by the same fetcher know nothing of each other."""
    for label, make in makers():
        use(make, rng.random() < 0.7)
        before = set()
        baseline = None
        for n in range(rng.choice((2, 2, 3, 4))):
            server.reset()
            status = rng.choice([200, 200, 200, 404, 500])
            body = gen.text(rng, 0, 5).encode('utf-8')
            mark = 'X-Mark-%d' % n
            headers = [('Content-Type', 'text/html'), ('Set-Cookie', 'seen%d=1; Path=/' % n), (mark, 'v%d' % n)]
            chain = lay(rng, rng.choice((0, 0, 1)), status, headers, body, label != 'httplib2')
            given = rng.choice([None, {}, {'X-Own-%d' % n: gen.word(rng)}, {'Accept': 'x/y%d' % n}, {'User-Agent': 'mine/%d' % n}])
            data = rng.choice([None, None, b'a=%d' % n]) if len(chain) == 1 else None
            passed = None if given is None else dict(given)
            resp = fetchers.fetch(url_of(chain[0]), data, passed) if data is not None or passed is not None else fetchers.fetch(url_of(chain[0]))
            log = list(server.log)
            require(len(log) == len(chain) and all(r.method == ('GET' if data is None else 'POST') and r.body == (data or b'') for r in log), 'another request than asked for', fetcher=label,
                    seen=[(r.method, r.body) for r in log])
            own = {k.lower() for k in given or ()}
            for r in log:
                names = {k.lower() for k, _ in r.headers}
                extra = {k for k in names if k.startswith('x-own') or k in ('cookie', 'referer', 'authorization')}
                require(extra <= own, 'a request carries what belongs to an earlier one', fetcher=label, names=sorted(names), given=given)
                if 'accept' not in own:
                    require(not any(str(v).startswith('x/y') for v in r.get('Accept')), 'a request carries what belongs to an earlier one', fetcher=label, seen=r.get('Accept'), given=given)
                if 'user-agent' not in own:
                    require(not any(str(v).startswith('mine/') for v in r.get('User-Agent')), 'a request carries what belongs to an earlier one', fetcher=label, seen=r.get('User-Agent'))
            for k, v in (given or {}).items():
                require(log[0].get(k) == [v], 'given header is not sent as given', fetcher=label, name=k, given=v, seen=log[0].get(k))
            require(not any(k.lower() in before for k in resp.headers), 'a response has headers of an earlier one', fetcher=label, headers=dict(resp.headers))
            before.add(mark.lower())
            check_response(ctx, label, resp, chain[-1], status, headers[:1] + headers[2:], body)
            ctx.event('again')
            ctx.state(label, 'again', n, status, given is None, data is None, len(chain))


class Own(object):
    """A fetcher of the application."""

    def __init__(self, fail):
        self.fail = fail
        self.asked = []

    def fetch(self, *args, **kwargs):
        self.asked.append((args, kwargs))
        if self.fail is not None:
            raise self.fail
        self.result = fetchers.HTTPResponse('http://x/', 200, {}, b'')
        return self.result


class Stop(BaseException):
    """What is not an Exception goes through."""


def chosen(rng, ctx):
    """The fetcher an application chooses is used, wrapped unless it is told otherwise."""
    fetchers.setDefaultFetcher(None)
    mine, wrapped, best = None, None, None
    for _ in range(rng.randint(4, 15)):
        op = rng.choice(['set', 'set', 'plain', 'none', 'get', 'fetch', 'fetch', 'fetch'])
        if op == 'none':
            fetchers.setDefaultFetcher(None)
            mine, best = None, None
        elif op in ('set', 'plain'):
            mine = Own(rng.choice([None, None, ValueError('x'), fetchers.HTTPFetchingError(why='own'), KeyError(), OSError(5, 'x'), UnicodeError(), Stop()]))
            wrapped = op == 'set'
            if wrapped and rng.random() < .5:
                fetchers.setDefaultFetcher(mine)
            else:
                fetchers.setDefaultFetcher(mine, wrap_exceptions=wrapped)
        elif op == 'get' or mine is None:
            got = fetchers.getDefaultFetcher()
            if mine is None:
                require(best is None or got is best, 'the default fetcher changes by itself')
                best = got
                kind = got.fetcher if isinstance(got, fetchers.ExceptionWrappingFetcher) else got
                require(type(kind) is type(fetchers.createHTTPFetcher()) and type(kind) is dict(makers())[makers()[-1][0] if fetchers.requests is not None else 'curl' if fetchers.pycurl is not None else makers()[-1][0]],
                        'not the best fetcher available', got=type(kind).__name__)
                require(fetchers.usingCurl() == (type(kind) is fetchers.CurlHTTPFetcher), 'what it says about curl is wrong')
                before = len(server.log)
                try:
                    fetchers.fetch('http://127.0.0.1:1/')
                except fetchers.HTTPFetchingError:
                    pass
                require(len(server.log) == before, 'something else was fetched')
            else:
                require(got is mine if not wrapped else isinstance(got, fetchers.ExceptionWrappingFetcher) and got.fetcher is mine, 'another fetcher than the one set', got=repr(got))
                require(not fetchers.usingCurl(), 'what it says about curl is wrong')
        else:
            args = (rng.choice(['http://a/', 'https://b/?x=y', 'x']), rng.choice([None, b'', b'a=b']), rng.choice([None, {}, {'A': 'b'}]))
            n = len(mine.asked)
            given = args if rng.random() < .5 else args[:rng.choice((1, 2))]
            error = None
            try:
                got = fetchers.fetch(*given)
            except Exception as e:
                error = e
            except Stop as e:
                error = e
            require(len(mine.asked) == n + 1, 'not one fetch by the fetcher that was set', times=len(mine.asked) - n)
            a, k = mine.asked[-1]
            seen = dict(zip(('url', 'body', 'headers'), a), **k)
            want = dict(zip(('url', 'body', 'headers'), given))
            require({x: y for x, y in seen.items() if y is not None} == {x: y for x, y in want.items() if y is not None}, 'the fetcher was asked for something else', seen=repr(seen), given=repr(given))
            if mine.fail is None:
                require(error is None and got is mine.result, 'the result is another one', error=repr(error))
            elif wrapped and isinstance(mine.fail, Exception):
                require(isinstance(error, fetchers.HTTPFetchingError) and (error.why is mine.fail or error is mine.fail), 'an error is not wrapped', error=repr(error), raised=repr(mine.fail))
            else:
                require(error is mine.fail, 'an error is changed', error=repr(error), raised=repr(mine.fail))
            ctx.event('chosen')
        ctx.state('chosen', op, mine is None, wrapped, type(getattr(mine, 'fail', None)).__name__)


LIMIT = 1024 * 1024


def large(rng, ctx):
    """Bodies around the limit of one megabyte."""
    for label, make in makers():
        server.reset()
        use(make)
        n = rng.choice([LIMIT - rng.choice((1, 100, 5000, 30000, 400000)), LIMIT + rng.choice((100000, 300000)), 3 * LIMIT, 5 * LIMIT])
        body = (b'%08d' % rng.randrange(10 ** 8)) * (n // 8) + b'x' * (n % 8)
        server.script[0, '/large'] = Reply(200, [], body, length=rng.random() < 0.5)
        result = attempt(server.base() + '/large')
        ctx.event('large')
        ctx.state(label, 'large', n > LIMIT, type(result).__name__)
        failed = isinstance(result, fetchers.HTTPFetchingError)
        if n < LIMIT:
            require(not failed, 'a large body gives a failure', fetcher=label, size=n, error=failed and str(result))
            require(result.body == body, 'a large body is not whole', fetcher=label, size=n, got=len(result.body))
        elif label in ('urllib', 'curl') and not failed:
            require(len(result.body) <= LIMIT + 100000, 'a body over the limit is taken', fetcher=label, size=n, got=len(result.body))


def attempt(url, body=None):
    """Response or HTTPFetchingError; anything else is a violation."""
    try:
        return fetchers.fetch(url, body)
    except fetchers.HTTPFetchingError as e:
        return e
    except Exception as e:
        raise Violation('transport failure raised as %s' % type(e).__name__, error=str(e), url=url)


def harmless(label, result, what):
    if isinstance(result, fetchers.HTTPFetchingError):
        return
    require(CANARY not in result.body, 'content of a local file is returned', fetcher=label, what=what)
    require(result.final_url.lower().startswith(('http://', 'https://')), 'content of something that is not HTTP is returned', fetcher=label, what=what, final_url=result.final_url)


def odd_urls(rng):
    port = server.ports[0]
    dead = server.dead_port
    other = server.ports[-1]
    return rng.choice(SECRET_URLS + ['ftp://127.0.0.1:%d/x' % other, 'gopher://127.0.0.1:%d/x' % other, 'data:text/plain,' + CANARY.decode(), 'dict://127.0.0.1:%d/x' % other, 'javascript:1', '', ' ', '/', 'x',
                                     '127.0.0.1:%d/x' % port, '//127.0.0.1:%d/x' % port, 'http:', 'http://', 'http:///x', 'http://[', 'http://127.0.0.1:x/', 'http://127.0.0.1:99999/', 'http://127.0.0.1:%d/x' % dead,
                                     'httpfile://' + canary + '/secret', 'http:' + canary + '/secret', 'telnet://127.0.0.1:%d/' % other, 'ldap://127.0.0.1:%d/' % other, 'tftp://127.0.0.1/x',
                                     'imap://127.0.0.1:%d/' % other, 'smb://127.0.0.1/x', 'scp://127.0.0.1' + canary + '/secret', 'http+unix://x/', 'about:blank', '\u00e9', 'http://\u00e9\u00e9.invalid/', 'http://a b/',
                                     'http://127.0.0.1:%d/a b' % port, 'http://127.0.0.1:%d/a\r\nX-Injected: 1\r\n\r\n' % port, 'http://127.0.0.1:%d/a HTTP/1.1\r\nX-Injected: 1\r\nY:' % port,
                                     'http://127.0.0.1:%d/\u00e9' % port, 'http://127.0.0.1:%d\r\nX-Injected: 1/' % port, 'http://127.0.0.1:%d/%%0d%%0aX-Injected:%%201' % port, 'http://u:p@127.0.0.1:%d/' % port])


def check_wire(label, url):
    for r in server.log:
        require(not r.get('X-Injected'), 'a header is injected through the address', fetcher=label, url=url, headers=r.headers)
        require(r.method in ('GET', 'POST'), 'garbled request', fetcher=label, url=url, method=r.method)


def hostile_url(rng, ctx):
    for label, make in makers():
        server.reset()
        use(make)
        url = odd_urls(rng)
        body = rng.choice([None, None, b'x'])
        result = attempt(url, body)
        ctx.event('hostile urls')
        ctx.event('wrapped errors', int(isinstance(result, fetchers.HTTPFetchingError)))
        ctx.state(label, 'url', url[:12], type(result).__name__)
        harmless(label, result, url)
        check_wire(label, url)
        if not url.strip().lower().startswith(('http://', 'https://')):
            require(isinstance(result, fetchers.HTTPFetchingError), 'something is returned for an address that is not HTTP(S)', fetcher=label, url=url, result=result)


def hostile_location(rng, ctx):
    for label, make in makers():
        server.reset()
        use(make)
        loc = odd_urls(rng).replace('\r\n', ' ').replace('\u00e9', 'e')
        start = '/r%d' % rng.randint(0, 9)
        first = start
        if rng.random() < 0.3:
            first = '/first'
            server.script[0, first] = Reply(302, [('Location', server.base() + start)], hook=fast.pass_by)
        code = rng.choice([301, 302, 303, 307, 308, 300, 305])
        headers = [('Location', loc)] if rng.random() < 0.9 else []
        server.script[0, start] = Reply(code, headers, b'moved', hook=fast.pass_by)
        url = server.base() + first
        result = attempt(url)
        ctx.event('hostile locations')
        ctx.event('wrapped errors', int(isinstance(result, fetchers.HTTPFetchingError)))
        ctx.state(label, 'location', loc[:12], code, type(result).__name__)
        harmless(label, result, loc)
        check_wire(label, loc)
        if not isinstance(result, fetchers.HTTPFetchingError):
            last = server.log[-1]
            if result.status == code and (last.port, last.target) == (0, start):
                require(no_fragment(result.final_url) == no_fragment(server.base() + start), 'final URL is not where the answer came from', fetcher=label, got=result.final_url, location=loc)
            else:
                try:
                    target = no_fragment(urljoin(server.base() + start, loc.strip()))
                except ValueError:
                    continue
                if code in (301, 302, 303, 307):
                    require(no_fragment(result.final_url) in (target, no_fragment(where(last))), 'final URL is not where the answer came from', fetcher=label, got=result.final_url, location=loc,
                            really=where(last))


def faults(rng, ctx):
    for label, make in makers():
        server.reset()
        use(make)
        kind = rng.choice(['reset', 'close', 'garbage', 'garbage', 'refused', 'name', 'cut', 'headers', 'loop'] if rng.random() < 0.3 else ['reset', 'close', 'garbage', 'refused', 'cut', 'headers'])
        url = server.base() + '/f'
        ok = False
        if kind in ('reset', 'close'):
            server.script[0, '/f'] = Reply(fault=kind)
        elif kind == 'cut':
            server.script[0, '/f'] = Reply(200, [('X', 'y' * 50)], b'z', fault='cut', length=True)
            ok = True
        elif kind == 'garbage':
            server.script[0, '/f'] = Reply(raw=rng.choice([b'garbage\r\n\r\n', b'\x00' * 100, b'HTTP/9.9 abc\r\n\r\n', b'HTTP/1.1\r\n\r\n', b'SSH-2.0-x\r\n', b'HTTP/1.1 200', b'220 ftp ready\r\n', b'\r\n\r\n\r\n']))
            ok = True
        elif kind == 'headers':
            junk = rng.choice([b'NoColonHere', b': empty', b'X: \xff\xfe', b'X: a\r\n folded', b'X-\x00: y', b'Content-Length: abc', b'Content-Length: -5', b'Transfer-Encoding: chunked', b'Content-Encoding: gzip',
                               b'X: ' + b'y' * 70000, b'Location: \xff', b'Set-Cookie: a=b; c', b'X: y\r\nX: z', b'Content-Length: 3\r\nContent-Length: 4'])
            server.script[0, '/f'] = Reply(raw=b'HTTP/1.1 200 OK\r\n' + junk + b'\r\nConnection: close\r\n\r\nbody')
            ok = True
        elif kind == 'refused':
            url = 'http://127.0.0.1:%d/' % server.dead_port
        elif kind == 'name':
            url = 'http://name.invalid/'
        elif kind == 'loop':
            server.script[0, '/f'] = Reply(302, [('Location', rng.choice(['/f', '/g']))], hook=fast.pass_by)
            server.script[0, '/g'] = Reply(302, [('Location', server.base() + '/f')], hook=fast.pass_by)
        result = attempt(url, rng.choice([None, None, b'a=b']) if kind != 'loop' else None)
        ctx.event('faults')
        ctx.state(label, 'fault', kind, type(result).__name__)
        failed = isinstance(result, fetchers.HTTPFetchingError)
        ctx.event('wrapped errors', int(failed))
        if kind == 'loop':
            ctx.event('loops')
            require(failed or result.status == 302, 'a redirect loop gives a result', fetcher=label, result=result)
        elif not ok:
            require(failed, 'a transport failure gives a result', fetcher=label, kind=kind, result=result)
        if failed:
            require(result.why is not None or isinstance(result, fetchers.HTTPError), 'fetching error without its reason', fetcher=label, kind=kind)
        else:
            require(no_fragment(result.final_url) == no_fragment(url) or kind == 'loop', 'final URL is not where the answer came from', fetcher=label, got=result.final_url)


def cached(rng, ctx):
    """The caching fetcher reports the same as without the cache."""
    if fetchers.httplib2 is None:
        return
    d = os.path.join(canary, 'cache-%d' % rng.randrange(10 ** 9))
    fetcher = fetchers.HTTPLib2Fetcher(d)
    fetchers.setDefaultFetcher(fetcher)
    server.reset()
    hops = rng.choice((0, 1, 1, 2, 3))
    body = gen.text(rng, 1, 10).encode('utf-8')
    chain = lay(rng, hops, 200, [('Cache-Control', rng.choice(['max-age=1000', 'no-store', 'public'])), ('ETag', '"x"'), ('Content-Type', 'text/html')], body, False)
    for (port, target) in chain[:-1]:
        if rng.random() < 0.5:
            server.script[port, target].headers.append(('Cache-Control', 'max-age=1000'))
    start = rng.choice(chain)
    for n in range(3):
        u = rng.choice([chain[0], chain[0], start])
        resp = fetchers.fetch(url_of(u))
        require(resp.status == 200 and resp.body == body, 'cached answer differs', status=resp.status, body=resp.body)
        require(no_fragment(resp.final_url) == no_fragment(url_of(chain[-1])), 'final URL is not where the answer came from', got=resp.final_url, really=url_of(chain[-1]), round=n, hops=hops)
        ctx.event('cached')
    ctx.state('cached', hops, len(server.log))
    shutil.rmtree(d, ignore_errors=True)


SCENARIOS = [('get', get, 3500, 24000), ('post', post, 1400, 10000), ('hostile-url', hostile_url, 2000, 12000), ('hostile-location', hostile_location, 2000, 12000), ('faults', faults, 2000, 12000),
             ('cached', cached, 590, 4000), ('see-other', see_other, 390, 3000), ('large', large, 120, 800), ('again', again, 300, 2500), ('chosen', chosen, 600, 5000)]
