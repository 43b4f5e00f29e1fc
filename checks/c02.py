"""C02: a positive assertion is accepted at most once and only while fresh."""
import os
import re
import sqlite3

from openid.consumer.consumer import SUCCESS
from openid.store import nonce as nonce_mod
from openid.store.filestore import FileOpenIDStore
from openid.store.sqlstore import SQLiteStore

from lib import gen
from lib.core import require
from lib.vclock import EPOCH, clock
from lib.world import (OPENID2, RP, T_10, T_11, T_20, Keyed, Net, SimOP, Stores, assertion, html_page, nonce_at, xrds)

PROP = 'C02'
TECHNIQUE = 'runtime monitoring: at-most-once counters and a freshness-window oracle over completion histories with a virtual clock'
LEVEL_NOTE = ('Every completion in random histories (replays, new consumers and store instances, clean-ups, time) is counted per '
              'assertion; nonce times are swept around the limits. Random exploration; the clock is a stand-in.')
RULE = ('a case is a history of deliveries, clean-ups and clock moves over one store; counted distinct: (protocol, store, how the '
        'signature is checked, time offset class, replay variation, outcome)')
NEED = {'first_success': 300, 'replay_refused': 300, 'stale_refused': 200, 'fresh_accepted': 200, 'malformed_refused': 100, 'neighbours': 200}
ASSUMPTIONS = ['five hours of allowed skew, as documented in openid.store.nonce']
SKEW = 5 * 3600

RT = 'http://rp.example.com/cb'


class W(object):
    def __init__(self, rng):
        self.rng = rng
        self.stores = Stores()
        self.net = Net()
        self.kind = rng.choice(['memory', 'file', 'sqlite'])
        self.store = self.stores.make(self.kind)
        self.yes = Keyed(self.net, 'http://yes.example.com/op', lambda q: True)
        self.user = 'http://joe.example.com/'
        types = [T_20, T_11] if rng.random() < .7 else [T_20, T_10]
        self.net.page(self.user, xrds([dict(types=types, uris=[(self.yes.endpoint, None)], local_id=None)]),
                      {'content-type': 'application/xrds+xml'})
        self.rp = RP(self.store, 'http://rp.example.com/', RT)
        self.n = 0
        self.ops = [self.yes]

    def more(self):
        """Further version 2 providers of the same user, at addresses much like the first's."""
        rng = self.rng
        for url in rng.sample(['http://yes.example.com/OP', 'http://yes.example.com/op/', 'http://yes.example.com/op?a', 'http://yes.example.com/op?A',
                               'https://yes.example.com/op', 'http://yes.example.com:81/op', 'http://yes.example.com/o', 'http://es.example.com/op',
                               'http://yes.example.com.example.org/op', 'http://yes.example.com/op#x', 'http://yes.example.com/%6Fp'],
                              rng.randint(1, 4)):
            self.ops.append(Keyed(self.net, url.split('#')[0], lambda q: True))
            self.ops[-1].endpoint = url
        self.net.page(self.user, xrds([dict(types=[T_20], uris=[(op.endpoint, None)], local_id=None) for op in self.ops]),
                      {'content-type': 'application/xrds+xml'})

    def reopen(self):
        """Another instance over the same data (a new process, say)."""
        if self.kind == 'file':
            self.store = FileOpenIDStore(self.stores.path())
        elif self.kind == 'sqlite':
            self.store = SQLiteStore(self.stores.conns[-1])
        self.rp = RP(self.store, self.rp.realm, self.rp.return_to)

    def cleanup(self):
        which = self.rng.choice(['cleanupNonces', 'cleanupAssociations', 'cleanup'])
        f = getattr(self.store, which, None)
        if f is not None:
            f()

    def make(self, v2, nonce, shared, extra=(), signed_extra=(), op=None):
        op = op or self.yes
        handle = op.share(self.store, self.rng) if shared else 'unknown-handle'
        args = assertion(v2, op, handle, self.user, self.user, RT, nonce, extra, signed_extra)
        if shared:
            return op.sign(args)
        args['openid.sig'] = 'c2lnbmF0dXJl'
        return args

    def complete(self, args, session='s'):
        rng = self.rng
        if rng.random() < .5:
            if self.rp.keep:
                self.rp.session(session).clear()
            else:
                self.rp.sessions = {}
        if rng.random() < .3:
            self.reopen()
        return self.rp.complete(session, args, RT)


def salt(rng):
    return rng.choice([gen.word(rng, 0, 6), gen.word(rng, 6, 6), gen.text(rng, 0, 4), ''])


def vary(rng, args):
    """Re-send the same assertion in another guise, leaving what is signed alone."""
    args = dict(args)
    what = rng.choice(['same', 'same', 'extra', 'reorder', 'ns', 'mode'])
    if what == 'extra':
        args['openid.' + gen.word(rng, 3, 5)] = gen.text(rng, 0, 3)
    elif what == 'reorder':
        items = list(args.items())
        rng.shuffle(items)
        args = dict(items)
    elif what == 'ns' and 'openid.ns' not in args:
        args['openid.ns'] = 'http://openid.net/signon/1.%d' % rng.randrange(2)
    return what, args


def replay(rng, ctx):
    w = W(rng)
    try:
        live, again = [], None
        for _ in range(rng.randint(6, 16)):
            r = rng.random()
            if again is None and r < .02:
                # many other nonces are in the store
                for i in range(rng.choice([60, 300])):
                    w.store.useNonce('http://other.example.com/%d' % (i % 7), int(clock.now) - i, 'o%d' % i)
            if r < .3 or not live:
                v2 = rng.random() < .6
                when = int(clock.now) + rng.choice([0, 0, 0, -5, 5, -3600, 3600, -SKEW + 10, SKEW - 10, rng.randint(-SKEW, SKEW)])
                shared = rng.random() < .5
                tail = salt(rng) + '%d' % w.n
                if rng.random() < .15 and not any(a['when'] == when for a in live):
                    tail = ''           # a time alone is a nonce too
                live.append(dict(args=w.make(v2, nonce_at(when, tail), shared), when=when, used=0, v2=v2,
                                 shared=shared))
                w.n += 1
            elif r < .75:
                if not (r < .6 and again):
                    again = rng.choice(live)
                a = again              # often the same one several times in a row
                what, args = vary(rng, a['args'])
                resp = w.complete(args)
                fresh = abs(a['when'] - clock.now) <= SKEW
                ctx.state('replay', w.kind, a['v2'], a['shared'], what, min(a['used'], 2), fresh, resp.status)
                if resp.status == SUCCESS:
                    require(a['used'] == 0, 'assertion accepted more than once', args=args, times=a['used'] + 1, store=w.kind,
                            now=clock.now)
                    require(fresh, 'assertion outside of the time window accepted', when=a['when'], now=clock.now, store=w.kind)
                    a['used'] += 1
                    ctx.event('first_success')
                else:
                    if a['used']:
                        ctx.event('replay_refused')
                    else:
                        require(not fresh, 'fresh unused assertion refused: %s' % getattr(resp, 'message', None), args=args,
                                variation=what, store=w.kind, when=a['when'], now=clock.now)
                        ctx.event('stale_refused')
            elif r < .88:
                clock.advance(rng.choice([1, 60, 3600, SKEW - 60, SKEW, SKEW + 60, 2 * SKEW, rng.randint(0, 2 * SKEW)]))
            else:
                w.cleanup()
                ctx.event('cleanups')
    finally:
        w.stores.close()


def neighbours(rng, ctx):
    """Providers with addresses much alike use the same nonce: each of their assertions succeeds, once."""
    w = W(rng)
    try:
        w.more()
        for _ in range(2):
            nonce = nonce_at(clock.now + rng.randint(-100, 100), salt(rng) + '%d' % w.n)
            w.n += 1
            todo = [dict(op=op.endpoint, args=w.make(True, nonce, rng.random() < .5, op=op), used=0) for op in w.ops]
            order = todo * 2
            rng.shuffle(order)
            for a in order:
                resp = w.complete(a['args'])
                if resp.status == SUCCESS:
                    require(a['used'] == 0, 'assertion accepted more than once', args=a['args'], store=w.kind)
                    a['used'] += 1
                    ctx.event('first_success')
                else:
                    require(a['used'], 'nonce of another provider counts: %s' % getattr(resp, 'message', None), op=a['op'], store=w.kind,
                            ops=[op.endpoint for op in w.ops])
                    ctx.event('replay_refused')
                    ctx.event('neighbours')
                ctx.state('neighbours', w.kind, a['op'], resp.status)
    finally:
        w.stores.close()


REF_NONCE = re.compile(r'([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})Z')

LENIENT = re.compile(r'\s*[0-9]{4}-[ 0-9]{1,2}-[ 0-9]{1,2}T[ 0-9]{1,2}:[ 0-9]{1,2}:[ 0-9]{1,2}Z', re.I)


def window(rng, ctx):
    """Sweep of nonce times around the limits on both sides."""
    w = W(rng)
    try:
        for _ in range(10):
            clock.set(EPOCH + rng.randint(0, 10 ** 8))
            off = rng.choice([0, 1, -1, SKEW - 1, SKEW, SKEW + 1, SKEW + 2, -SKEW + 1, -SKEW, -SKEW - 1, -SKEW - 2, 2 * SKEW, -2 * SKEW,
                              86400, -86400, 86400 * 365, -86400 * 365, -int(clock.now) + 1, rng.randint(-3 * SKEW, 3 * SKEW),
                              gen.lit_int(rng, 0, 10 ** 6), -gen.lit_int(rng, 0, 10 ** 6), SKEW + 3600, -SKEW - 3600])
            v2 = rng.random() < .5
            w.n += 1
            args = w.make(v2, nonce_at(clock.now + off, salt(rng) + str(w.n)), rng.random() < .5)
            resp = w.complete(args)
            fresh = abs(off) <= SKEW
            ctx.state('window', w.kind, v2, off if abs(off) < 3 or abs(abs(off) - SKEW) < 3 else (off > 0, fresh), resp.status)
            require((resp.status == SUCCESS) == fresh, 'freshness window is wrong', offset=off, status=resp.status, store=w.kind, v2=v2,
                    message=repr(getattr(resp, 'message', None)))
            ctx.event('fresh_accepted' if fresh else 'stale_refused')
    finally:
        w.stores.close()


def malformed(rng, ctx):
    w = W(rng)
    try:
        for _ in range(10):
            good = nonce_at(clock.now, 'ab%d' % w.n)
            w.n += 1
            i = rng.randrange(20)
            bad = rng.choice([None, '', good[:i], good[:i] + good[i + 1:], good[:i] + rng.choice('xZ:T- 9') + good[i + 1:],
                              good.replace('T', ' '), good.replace('Z', ''), good.lower(), good[1:], ' ' + good, 'x', 'Z', good[20:] + good[:20],
                              good[:5] + '13' + good[7:], good[:8] + '32' + good[10:], good[:11] + '24' + good[13:],
                              good[:14] + '60' + good[16:], '-' + good, '0000' + good[4:], '1969' + good[4:],
                              str(int(clock.now)), gen.text(rng, 0, 8), gen.lit(rng)])
            ok = False
            if bad is not None:
                if not REF_NONCE.match(bad) and LENIENT.match(bad):
                    continue              # lower case letters, missing leading zeros: not claimed either way
                m = REF_NONCE.match(bad)
                if m:
                    import datetime
                    y, mo, d, h, mi, s = (int(x) for x in m.groups())
                    try:
                        t = (datetime.datetime(y, mo, d, h, mi, s) - datetime.datetime(1970, 1, 1)).total_seconds()
                        ok = abs(t - clock.now) <= SKEW
                    except ValueError:
                        if s in (60, 61):
                            continue      # leap seconds: either reading is fine
            v2 = rng.random() < .5
            extra = {}
            args = w.make(v2, bad, rng.random() < .5, extra)
            if v2 and bad is None and rng.random() < .5:
                args['openid.signed'] += ',response_nonce'
                if args['openid.assoc_handle'] in w.yes.keys:
                    args = w.yes.sign(args)
            resp = w.complete(args)
            ctx.state('malformed', v2, bad is None, ok, resp.status, (bad or '')[:4] == good[:4], len(bad or ''))
            if ok:
                require(resp.status == SUCCESS, 'well-formed nonce refused', nonce=bad, message=repr(getattr(resp, 'message', None)))
            else:
                require(resp.status != SUCCESS, 'assertion with a missing, malformed or stale nonce accepted', nonce=bad, v2=v2)
                ctx.event('malformed_refused')
    finally:
        w.stores.close()


def honest_flow(rng, ctx):
    """The same at-most-once monitor on assertions made by the real server, with both parties' stores aging."""
    stores = Stores()
    try:
        net = Net()
        kinds = ['memory', 'file', 'sqlite']
        op = SimOP(net, 'http://op.example.com/', stores.make(rng.choice(kinds)))
        user = 'http://joe.example.com/'
        types = rng.choice([[T_20], [T_11], [T_20, T_11]])
        net.page(user, xrds([dict(types=types, uris=[(op.endpoint, None)], local_id=None)]), {'content-type': 'application/xrds+xml'})
        kind = rng.choice(kinds)
        store = stores.make(kind)
        rp = RP(store, 'http://rp.example.com/', RT)
        if rng.random() < .3:
            rp.types = [('HMAC-SHA1', 'no-encryption')]
        seen = []
        for _ in range(rng.randint(3, 8)):
            if not seen or rng.random() < .4:
                _, args, _ = rp.begin('s', user)
                if rng.random() < .4:
                    args.pop('openid.assoc_handle', None)         # stateless
                d = op.authenticate(args, {user})
                seen.append([dict(d[1]), 0, clock.now])
            a = rng.choice(seen)
            resp = rp.complete(rng.choice(['s', 't']), a[0], RT)
            if resp.status == SUCCESS:
                require(a[1] == 0, 'assertion accepted more than once', args=a[0], store=kind)
                require(clock.now - a[2] <= SKEW + 1, 'stale assertion accepted', issued=a[2], now=clock.now)
                a[1] += 1
                ctx.event('first_success')
            elif a[1]:
                ctx.event('replay_refused')
            else:
                require(clock.now - a[2] > 60, 'fresh unused assertion refused: %s' % resp.message, args=a[0])
                ctx.event('stale_refused')
            ctx.state('flow', types, kind, resp.status, a[1])
            if rng.random() < .3:
                clock.advance(rng.choice([1, 30, SKEW - 100, SKEW + 100, 14 * 86400 + 5]))
            if rng.random() < .2 and hasattr(store, 'cleanup'):
                store.cleanup()
    finally:
        stores.close()


def library_nonces(rng, ctx):
    """Nonces the library makes are well-formed, current and unique."""
    seen = set()
    for _ in range(20):
        clock.set(EPOCH + rng.randint(0, 10 ** 9))
        when = rng.choice([None, rng.randint(0, 2 ** 31), rng.randint(2 ** 31, 2 ** 33)])
        n = nonce_mod.mkNonce(when)
        require(n not in seen, 'nonce made twice', nonce=n)
        seen.add(n)
        m = REF_NONCE.match(n)
        require(m and n[:20] == nonce_at(clock.now if when is None else when, ''), 'nonce with a wrong time', nonce=n, when=when,
                now=clock.now)
        stamp, s = nonce_mod.split(n)
        require(stamp == int(clock.now if when is None else when) and s == n[20:], 'nonce does not split', nonce=n)
        off = rng.choice([0, 1, -1, 99, 100, 101, -99, -100, -101, 5000])
        require(nonce_mod.checkTimestamp(n, allowed_skew=100, now=stamp + off) == (abs(off) <= 100), 'checkTimestamp is wrong',
                offset=off)
        off = rng.choice([0, SKEW, -SKEW, SKEW + 1, -SKEW - 1])
        clock.set(stamp + off)
        require(nonce_mod.checkTimestamp(n) == (abs(off) <= SKEW), 'checkTimestamp is wrong', offset=off)
        ctx.event('library_nonces')
    ctx.state('nonces', len(seen))


SCENARIOS = [
    ('replay', replay, 6400, 32000),
    ('neighbours', neighbours, 800, 4000),
    ('window', window, 1300, 6500),
    ('malformed', malformed, 1300, 6500),
    ('honest_flow', honest_flow, 1700, 8500),
    ('library_nonces', library_nonces, 340, 1700),
]
