"""C15: every store behaves like the one documented association/nonce store."""
import sqlite3

from openid.association import Association
from openid.store.filestore import FileOpenIDStore
from openid.store.memstore import MemoryStore
from openid.store.sqlstore import MySQLStore, PostgreSQLStore, SQLiteStore

from lib import gen, sqlshim
from lib.core import require
from lib.vclock import clock
from lib.world import Stores, scratch

PROP = 'C15'
TECHNIQUE = 'runtime monitoring: online reference model (association map, used nonces, virtual clock) checking every answer of real stores over random histories'
LEVEL_NOTE = ('All bundled stores; MySQL and PostgreSQL stores run their own statements on a translating stand-in connection because the servers are not here. '
              'Histories are random, biased to boundary times, related addresses and repeated handles.')
RULE = 'a case is a history of store operations; counted distinct: (store, operation, model answer, situation of the entry)'
NEED = {'get_hit': 2000, 'get_miss': 1000, 'get_newest': 500, 'expired': 300, 'nonce_new': 1000, 'nonce_used': 500, 'nonce_stale': 300, 'cleaned': 100,
        'reopened': 100, 'boundary': 100, 'near_nonce': 200, 'crowds': 40}
ASSUMPTIONS = ['handles are non-empty text without line breaks or surrounding white space; times are integers', 'time does not run backwards',
               'whether removing an expired entry reports true is left open', 'SQLite stands in for the MySQL and PostgreSQL servers']

SKEW = 5 * 3600
KINDS = ['memory', 'file', 'file', 'sqlite', 'sqlite', 'mysql', 'postgresql']


class Backend(object):
    def __init__(self, kind, tables=()):
        self.kind = kind
        self.tables = tables
        self.stores = Stores()
        if kind == 'memory':
            self.mem = MemoryStore()
        else:
            self.dir = scratch()
            self.stores.dirs.append(self.dir)
            if kind != 'file':
                self.open().createTables()

    def open(self):
        if self.kind == 'memory':
            return self.mem
        if self.kind == 'file':
            return FileOpenIDStore(self.dir + '/store')
        conn = sqlite3.connect(self.dir + '/db', timeout=30, check_same_thread=False)
        conn.execute('PRAGMA synchronous=OFF')
        self.stores.conns.append(conn)
        if self.kind == 'sqlite':
            return SQLiteStore(conn, *self.tables)
        sqlshim.install()
        return {'mysql': MySQLStore, 'postgresql': PostgreSQLStore}[self.kind](sqlshim.Connection(conn), *self.tables)

    def close(self):
        self.stores.close()


def equality(rng, got, f):
    """Associations are equal exactly if all their parts are."""
    same = Association(*f)
    require(got == same and not got != same, 'an association differs from its equal', got=fields(got), stored=f)
    f = list(f)
    i = rng.randrange(5)
    f[i] = [f[0] + 'x', f[1][:-1] + bytes([f[1][-1] ^ 1]) if f[1] else b'x', f[2] + 1, f[3] + 1, 'HMAC-SHA1' if f[4] != 'HMAC-SHA1' else 'HMAC-SHA256'][i]
    other = Association(*f)
    require(got != other and not got == other, 'different associations are equal', got=fields(got), other=f)


def server_url(rng):
    r = rng.random()
    if r < .5:
        return gen.url(rng)
    base = gen.url(rng)
    return rng.choice([
        '', 'x', '/', '..', '../../x', 'http://localhost/|normal', 'http://localhost/|dumb', base + '/', base.upper(), base + '\u00e9', 'http:///', '://', 'http://' + 'a' * 300 + '/',
        'http://' + 'a' * 299 + 'b/', gen.text(rng, 1, 8, newline=True), base + '-', base + '?' + 'q' * rng.choice([50, 300, 2000]), 'https://a/b:c d', '%', 'a\tb', ' ' + base,
        "x' OR '1'='1", '-', base + ' '])


def handle(rng):
    return rng.choice([gen.word(rng), '{HMAC-SHA1}{%s}{%s}' % (gen.word(rng), gen.word(rng)), gen.text(rng, 1, 6).replace(':', '').strip() or 'h', 'h', 'H', '-', '..',
                       '/', 'a:b', '%s', '?', "'", 'x' * 300, '\u00e9', 'e\u0301'])


def secret(rng, atype):
    n = 20 if atype == 'HMAC-SHA1' else 32
    k = rng.random()
    if k < .7:
        return bytes(rng.randrange(256) for _ in range(n))
    return rng.choice([bytes(n), b'\xff' * n, bytes(n - 1) + b'x', b'x' + bytes(n - 1), b'\n' * n, b'%' * n, b"'" * n])


def fields(a):
    return (a.handle, a.secret, a.issued, a.lifetime, a.assoc_type)


def near(rng, s):
    return rng.choice([s.lower(), s.upper(), s.swapcase(), s + '/', s.rstrip('/'), s + 'x', s[:-1], s[1:], s + ' ', ' ' + s, s + '-', s[::-1]])


def history(rng, ctx):
    kind = rng.choice(KINDS)
    back = Backend(kind, rng.choice([(), (), ('a1', 'n1'), ('a1', None), (None, 'n1')]))
    clock.set(1700000000 + rng.randrange(100000) + (rng.random() if rng.random() < .15 else 0))
    try:
        store = back.open()
        others = [back.open() for _ in range(rng.choice([0, 0, 1]))]
        urls = [server_url(rng) for _ in range(rng.randint(1, 4))]
        for u in list(urls):
            if rng.random() < .5:
                urls.append(rng.choice([u + 'x', u + '/', u.lower(), u[:-1], u + '\u0301', u.upper()]))
        handles = [handle(rng) for _ in range(rng.randint(2, 5))]
        salts = [gen.word(rng, 6, 6), gen.text(rng, 0, 5), rng.choice(['', '/', '..', 'x' * 500, 'A', 'a', ' ', 'a-b'])]
        assocs = {}            # (url, handle) -> [fields, touched since expiry]
        nonces = {}            # (url, ts, salt) -> whether it is certainly stored, while it may be
        used = set()

        def expired(f):
            return f[2] + f[3] <= int(clock.now)

        def swept():
            # at a fraction of a second a store may keep a nonce that expired within that second
            for k in [k for k in nonces if abs(k[1] - clock.now) > SKEW]:
                if clock.now == int(clock.now):
                    del nonces[k]
                else:
                    nonces[k] = False

        for _ in range(rng.randint(10, 60)):
            if rng.random() < .08:
                store = back.open()
                ctx.event('reopened')
            s = rng.choice([store] + others)
            now = int(clock.now)
            op = rng.choice(['store'] * 4 + ['get'] * 5 + ['newest'] * 3 + ['remove'] * 2 + ['nonce'] * 7 + ['time'] * 3 + ['cleanA', 'cleanN', 'clean'])
            u = rng.choice(urls)
            if op == 'time':
                targets = [f[0][2] + f[0][3] for f in assocs.values()] + [k[1] + SKEW for k in used] + [k[1] + SKEW + 1 for k in used]
                targets = [t + d for t in targets for d in (-1, 0, 1) if t + d > clock.now]
                if targets and rng.random() < .6:
                    clock.set(rng.choice(sorted(targets)))
                    ctx.event('boundary')
                else:
                    clock.advance(rng.choice([0, 1, 60, 3600, SKEW, SKEW + 1, 86400]))
            elif op == 'store':
                atype = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                issued = now + rng.choice([0, 0, 0, -1, 1, -60, -3600, 60, rng.randint(-5000, 5000)])
                life = rng.choice([1, 2, 60, 3600, 86400, 1209600, rng.randint(1, 10000), 2 ** 31 - 1, 2 ** 32, 10 ** 10, 2 ** 40, 0])
                a = Association(rng.choice(handles), secret(rng, atype), issued, life, atype)
                f = fields(a)
                s.storeAssociation(u, a)
                assocs[u, a.handle] = [f, False]
                if rng.random() < .3:
                    a.secret, a.lifetime = b'changed', 10 ** 6
                ctx.state(kind, 'store', expired(f), len(f[1]))
            elif op == 'get':
                h = rng.choice(handles)
                if assocs and rng.random() < .5:
                    u, h = rng.choice(sorted(assocs))
                got = s.getAssociation(u, h)
                e = assocs.get((u, h))
                if e is None:
                    require(got is None, 'an association that is not there was returned', kind=kind, url=u, handle=h, got=got and fields(got))
                    ctx.event('get_miss')
                elif expired(e[0]):
                    e[1] = True
                    if got is not None and kind == 'memory' and fields(got) == e[0]:
                        ctx.known_finding('memstore-expired-by-handle')
                    else:
                        require(got is None, 'an expired association was returned', kind=kind, url=u, handle=h, got=got and fields(got), now=clock.now)
                    ctx.event('expired')
                else:
                    require(got is not None, 'an association is lost', kind=kind, url=u, handle=h, stored=e[0], now=clock.now)
                    require(fields(got) == e[0] and isinstance(got.handle, str) and isinstance(got.secret, bytes), 'the association returned differs', kind=kind, url=u,
                            got=fields(got), stored=e[0])
                    equality(rng, got, e[0])
                    require(got.getExpiresIn() == e[0][2] + e[0][3] - int(clock.now), 'remaining time differs', got=got.getExpiresIn(), stored=e[0], now=clock.now)
                    ctx.event('get_hit')
                ctx.state(kind, 'get', e is not None, e and expired(e[0]))
            elif op == 'newest':
                got = s.getAssociation(u) if rng.random() < .5 else s.getAssociation(u, None)
                mine = [e for (x, _), e in assocs.items() if x == u]
                valid = [e[0] for e in mine if not expired(e[0])]
                if not valid:
                    require(got is None, 'an association was returned where none is valid', kind=kind, url=u, got=got and fields(got), now=clock.now,
                            all=[(k, e[0]) for k, e in assocs.items()])
                else:
                    best = max(f[2] for f in valid)
                    require(got is not None, 'no association was returned where one is valid', kind=kind, url=u, valid=valid, now=clock.now)
                    require(fields(got) in [f for f in valid if f[2] == best], 'not the newest valid association of the server', kind=kind, url=u, got=fields(got), valid=valid)
                    ctx.event('get_newest')
                for e in mine:
                    if expired(e[0]):
                        e[1] = True
                ctx.state(kind, 'newest', len(valid), len(mine) > len(valid), len(assocs) > len(mine))
            elif op == 'remove':
                h = rng.choice(handles)
                if assocs and rng.random() < .4:
                    u, h = rng.choice(sorted(assocs))
                e = assocs.pop((u, h), None)
                got = s.removeAssociation(u, h)
                if e is None:
                    require(not got, 'removing nothing reported something', kind=kind, url=u, handle=h)
                elif not expired(e[0]):
                    require(got, 'removing an association reported nothing', kind=kind, url=u, handle=h)
                ctx.state(kind, 'remove', e is not None, e and expired(e[0]))
            elif op == 'nonce':
                if used and rng.random() < .4:
                    key = rng.choice(sorted(used, key=repr))
                    key = (key[0], key[1] + rng.choice([0, 0, 0, 1]), key[2] if rng.random() < .8 else rng.choice(salts))
                    if rng.random() < .2:
                        key = (rng.choice(urls), key[1], key[2])
                    if rng.random() < .35:
                        # another nonce, one letter away
                        key = (near(rng, key[0]), key[1], key[2]) if rng.random() < .5 else (key[0], key[1], near(rng, key[2]))
                        ctx.event('near_nonce')
                else:
                    key = (u, now + rng.choice([0, 0, 0, 0, 1, -1, SKEW, -SKEW, SKEW + 1, -SKEW - 1, -3600, rng.randint(-20000, 20000), -now]), rng.choice(salts))
                fresh = abs(key[1] - clock.now) <= SKEW
                want = fresh and key not in used
                got = s.useNonce(*key)
                require(bool(got) == want, 'a nonce was %s' % ('accepted' if got else 'refused'), kind=kind, nonce=key, now=clock.now, used=key in used, fresh=fresh)
                ctx.event('nonce_new' if want else 'nonce_used' if fresh else 'nonce_stale')
                ctx.state(kind, 'nonce', want, fresh, key in used)
                if want:
                    used.add(key)
                    nonces[key] = True
            else:
                total = 0
                if op != 'cleanN':
                    gone = [(k, e) for k, e in assocs.items() if expired(e[0])]
                    low = len([1 for _, e in gone if not e[1]])
                if op == 'clean' and hasattr(s, 'cleanup'):
                    s.cleanup()
                elif op == 'cleanA':
                    n = s.cleanupAssociations()
                    require(low <= n <= len(gone), 'clean-up counted other associations', kind=kind, got=n, low=low, high=len(gone), now=clock.now)
                    require(s.cleanupAssociations() == 0, 'clean-up of associations left something')
                elif op == 'cleanN':
                    stale = [k for k in nonces if abs(k[1] - clock.now) > SKEW]
                    n = s.cleanupNonces()
                    whole = clock.now == int(clock.now)
                    low = len([k for k in stale if nonces[k] and whole])
                    require(low <= n <= len(stale), 'clean-up counted other nonces', kind=kind, got=n, low=low, high=len(stale), now=clock.now)
                    require(s.cleanupNonces() == 0, 'clean-up of nonces left something')
                    swept()
                else:
                    continue
                if op == 'cleanA' or op == 'clean':
                    for k, _ in gone:
                        del assocs[k]
                    total += len(gone)
                if op == 'clean':
                    swept()
                ctx.event('cleaned')
                ctx.state(kind, op, bool(total), len(assocs) > 0)
        for (u, h), e in sorted(assocs.items(), key=repr):
            if not expired(e[0]):
                got = store.getAssociation(u, h)
                require(got is not None and fields(got) == e[0], 'an association is lost or changed at the end', kind=kind, url=u, handle=h, stored=e[0])
    finally:
        back.close()


def crowd(rng, ctx):
    """Many associations and nonces at once: nothing gets lost because there are others."""
    kind = rng.choice(KINDS)
    back = Backend(kind, ())
    clock.set(1700000000 + rng.randrange(100000))
    try:
        store = back.open()
        now = int(clock.now)
        urls = ['http://p%d.example.com/' % i for i in range(rng.choice([1, 2, 40, 300]))]
        many = rng.choice([20, 150, 400])
        live = {}
        for i in range(many):
            u = rng.choice(urls)
            h = 'h%d' % (i if rng.random() < .7 else rng.randrange(many))
            a = Association(h, secret(rng, 'HMAC-SHA1'), now - rng.randrange(1000), rng.choice([2000, 10 ** 6]), 'HMAC-SHA1')
            store.storeAssociation(u, a)
            live[u, h] = fields(a)
        used = []
        for i in range(rng.choice([100, 300, 1200])):
            key = (rng.choice(urls) if rng.random() < .8 else '', now + rng.choice([0, 0, 0, 1, -5, rng.randrange(-1000, 1000)]), 's%d' % i)
            require(store.useNonce(*key), 'a nonce was refused', kind=kind, nonce=key, before=len(used))
            used.append(key)
            if rng.random() < .05:
                old = rng.choice(used)
                require(not store.useNonce(*old), 'a nonce was accepted again among many', kind=kind, nonce=old, used=len(used))
        if rng.random() < .5:
            clock.advance(rng.randrange(900))
            store.cleanup() if hasattr(store, 'cleanup') and rng.random() < .5 else (store.cleanupAssociations(), store.cleanupNonces())
        if rng.random() < .5:
            store = back.open()
        for key in rng.sample(used, min(len(used), 150)) + used[:50]:
            require(not store.useNonce(*key), 'a nonce was accepted again among many', kind=kind, nonce=key, used=len(used))
        for (u, h), f in rng.sample(sorted(live.items()), min(len(live), 100)):
            got = store.getAssociation(u, h)
            require(got is not None and fields(got) == f, 'an association among many is lost or changed', kind=kind, url=u, handle=h, stored=f, count=len(live))
        for u in rng.sample(urls, min(len(urls), 5)):
            mine = [f for (x, _), f in live.items() if x == u]
            got = store.getAssociation(u)
            if mine:
                best = max(f[2] for f in mine)
                require(got is not None and fields(got) in [f for f in mine if f[2] == best], 'not the newest of many associations', kind=kind, url=u, count=len(mine))
            else:
                require(got is None, 'an association was returned where none is', kind=kind, url=u)
        ctx.event('crowds')
        ctx.state('crowd', kind, len(urls), many, len(used))
    finally:
        back.close()


SCENARIOS = [('history', history, 28000, 140000), ('crowd', crowd, 80, 800)]
