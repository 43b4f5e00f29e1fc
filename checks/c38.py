"""C38: operations of an SQL store are transactions."""
import os
import shutil
import sqlite3

from openid.association import Association
from openid.store.sqlstore import MySQLStore, PostgreSQLStore, SQLiteStore

from lib import gen, sqlshim
from lib.core import require
from lib.vclock import clock
from lib.world import scratch
from checks.c15 import fields, secret

PROP = 'C38'
TECHNIQUE = ('runtime monitoring with fault injection: the database connection handed to the store fails at, or the database file is cut off at, a chosen step of an operation; every image of '
             'the file is opened with a fresh store and compared with the states a model allows')
LEVEL_NOTE = ('Real SQLite files; the MySQL and PostgreSQL stores run their own statements on them through the translating connection. One fault or one cut per operation, at every step reached at '
              'random; histories are sampled.')
RULE = 'a case is one history of one store; counted distinct: (store, operation, kind of fault, step, outcome)'
NEED = {'operations': 10000, 'faults': 4000, 'errors reported': 3000, 'images': 8000, 'cuts': 1500, 'undone': 2000, 'commit unclear': 200, 'resumed': 2000, 'not locked': 1500, 'nonce faults': 1000, 'older wrappers': 300}
ASSUMPTIONS = ['SQLite keeps its own promises: what was not committed is not in the file', 'a second failure while the first is being undone is not injected',
               'what expired associations still occupy is open']
CASE_LIMIT = 120


class Interrupted(BaseException):
    """Like KeyboardInterrupt."""


class Plan(object):
    """What is to happen at which step of the current operation."""

    def __init__(self, old):
        self.old, self.duplicates = old, 0
        self.arm(None, None)

    def arm(self, at, kind, error=None, cut=None):
        self.at, self.kind, self.error, self.cut = at, kind, error, cut
        self.step, self.fired, self.committed, self.where = 0, False, 0, None

    def hit(self, where):
        """(fail before, fail after)"""
        if where == 'rollback' and self.fired:
            return False, False
        here = self.step == self.at and not self.fired
        self.step += 1
        if not here:
            return False, False
        self.fired, self.where = True, where
        if self.cut:
            self.cut()
            return False, False
        return self.kind == 'before', self.kind == 'after'

    def around(self, where, func, *args):
        before, after = self.hit(where)
        if before:
            raise self.error
        out = func(*args)
        if where == 'commit':
            self.committed += 1
        if after:
            raise self.error
        return out


class Cursor(object):
    def __init__(self, plan, cur):
        self._plan, self._cur = plan, cur

    def execute(self, sql, args=()):
        try:
            return self._plan.around('execute', self._cur.execute, sql, args)
        except sqlite3.IntegrityError:
            if not self._plan.old:
                raise
            # what older wrappers of SQLite report
            self._plan.duplicates += 1
            raise sqlite3.OperationalError('columns server_url, timestamp, salt are not unique')

    def executemany(self, sql, rows):
        return self._plan.around('execute', self._cur.executemany, sql, rows)

    def fetchall(self):
        return self._plan.around('fetch', self._cur.fetchall)

    def fetchone(self):
        return self._plan.around('fetch', self._cur.fetchone)

    def fetchmany(self, *args):
        return self._plan.around('fetch', self._cur.fetchmany, *args)

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        return self._plan.around('close', self._cur.close)

    def __getattr__(self, name):
        return getattr(self._cur, name)


class Connection(object):
    def __init__(self, plan, conn):
        self._plan, self._conn = plan, conn

    def cursor(self):
        return Cursor(self._plan, self._plan.around('cursor', self._conn.cursor))

    def execute(self, sql, args=()):
        cur = self.cursor()
        cur.execute(sql, args)
        return cur

    def commit(self):
        return self._plan.around('commit', self._conn.commit)

    def rollback(self):
        return self._plan.around('rollback', self._conn.rollback)

    def __enter__(self):
        return self

    def __exit__(self, kind, value, trace):
        if kind is None:
            self.commit()
        else:
            self.rollback()

    def __getattr__(self, name):
        return getattr(self._conn, name)


def wrap(kind, conn, tables):
    if kind == 'sqlite':
        return SQLiteStore(conn, *tables)
    return {'mysql': MySQLStore, 'postgresql': PostgreSQLStore}[kind](conn, *tables)


def connect(kind, path, timeout=0):
    conn = sqlite3.connect(path, timeout=timeout)
    conn.execute('PRAGMA synchronous=OFF')
    return conn, conn if kind == 'sqlite' else sqlshim.Connection(conn)


class State(object):
    def __init__(self, assocs=None, nonces=()):
        self.assocs, self.nonces = dict(assocs or {}), frozenset(nonces)

    def live(self, key):
        f = self.assocs.get(key)
        return f if f is not None and f[2] + f[3] > clock.now else None


def view(kind, path, tables, keys, nonces):
    """What a store opened on a file hands out: associations, newest of each server, used nonces."""
    conn, shown = connect(kind, path, 5)
    try:
        store = wrap(kind, shown, tables)
        got = {}
        for key in keys:
            a = store.getAssociation(*key)
            got[key] = a and fields(a)
        best = {}
        for u in sorted(set(k[0] for k in keys)):
            a = store.getAssociation(u)
            best[u] = a and fields(a)
        used = frozenset(n for n in nonces if not store.useNonce(*n))
        return got, best, used
    finally:
        conn.close()


def matches(seen, state, keys):
    got, best, used = seen
    if used != state.nonces or any(got[k] != state.live(k) for k in keys):
        return False
    for u, b in best.items():
        mine = [f for f in (state.live(k) for k in keys if k[0] == u) if f]
        if (b is None) != (not mine) or mine and (b not in mine or b[2] != max(f[2] for f in mine)):
            return False
    return True


def history(rng, ctx):
    kind = rng.choice(['sqlite', 'sqlite', 'mysql', 'postgresql'])
    sqlshim.install()
    tables = rng.choice([(), (), ('a_' + gen.word(rng, chars='abc'), 'n_' + gen.word(rng, chars='abc'))])
    clock.set(1700000000 + rng.randrange(100000))
    where = scratch()
    conns = []
    try:
        db = where + '/db'
        plan = Plan(kind == 'sqlite' and rng.random() < .3)
        real, shown = connect(kind, db)
        conns.append(real)
        store = wrap(kind, Connection(plan, shown), tables)
        store.createTables()
        urls = [gen.url(rng) for _ in range(rng.choice([1, 2]))]
        keys = [(u, h) for u in urls for h in ('h1', 'h2', gen.word(rng))]
        keys = sorted(set(keys))
        now = int(clock.now)
        nonces = [(rng.choice(urls), now + rng.randrange(-1000, 1000), 's%d' % i) for i in range(4)]
        images = []

        def image():
            """What a crash at this moment would leave."""
            target = '%s/image%d' % (where, len(images))
            for ext in ('', '-journal', '-wal'):
                if os.path.exists(db + ext):
                    shutil.copyfile(db + ext, target + ext)
            images.append(target)
            return target

        def judge(target, allowed, what, **data):
            seen = view(kind, target, tables, keys, nonces)
            ctx.event('images')
            require(any(matches(seen, s, keys) for s in allowed), what, kind=kind, seen=seen, allowed=[(s.assocs, sorted(s.nonces)) for s in allowed], **data)
            return seen

        state = State()
        log = []
        after_fault = None
        for step in range(rng.randrange(6, 14)):
            if rng.random() < .2:
                clock.advance(rng.choice([0, 1, 50, 300]))
            op = rng.choice(['store', 'store', 'store', 'get', 'best', 'remove', 'nonce', 'nonce', 'nonce', 'clean', 'clean nonces', 'clean assocs'])
            key = rng.choice(keys)
            done = State(state.assocs, state.nonces)
            want = None
            if op == 'store':
                atype = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                a = Association(key[1], secret(rng, atype), int(clock.now) - rng.randrange(100), rng.choice([20, 200, 5000, 5000]), atype)
                call = lambda: store.storeAssociation(key[0], a)
                done.assocs[key] = fields(a)
            elif op == 'get':
                call = lambda: fields_or_none(store.getAssociation(*key))
                want = [state.live(key)]
            elif op == 'best':
                call = lambda: fields_or_none(store.getAssociation(key[0]))
                mine = [f for f in (state.live(k) for k in keys if k[0] == key[0]) if f]
                want = [f for f in mine if f[2] == max(g[2] for g in mine)] or [None]
            elif op == 'remove':
                call = lambda: bool(store.removeAssociation(*key))
                want = [True] if state.live(key) else [False, True] if key in state.assocs else [False]
                done.assocs.pop(key, None)
            elif op == 'nonce':
                n = rng.choice(nonces)
                call = lambda: store.useNonce(*n)
                want = [n not in state.nonces]
                done.nonces = state.nonces | {n}
            else:
                call = {'clean': store.cleanup, 'clean nonces': store.cleanupNonces, 'clean assocs': store.cleanupAssociations}[op]
            mode = rng.choice(['none', 'none', 'fault', 'fault', 'fault', 'cut', 'cut'])
            target = []
            if mode == 'fault':
                error = rng.choice([sqlite3.OperationalError, sqlite3.OperationalError, sqlite3.DatabaseError, sqlite3.InterfaceError, MemoryError, OSError, Interrupted])
                text = rng.choice(['database is locked', 'disk I/O error', 'server closed the connection unexpectedly', 'database or disk is full'])
                plan.arm(rng.randrange(8), rng.choice(['before', 'after']), error(text))
            elif mode == 'cut':
                plan.arm(rng.randrange(8), None, cut=lambda: target.append((image(), plan.committed)))
            else:
                plan.arm(None, None)
            got = failed = None
            try:
                got = call()
            except (Exception, Interrupted) as e:
                failed = e
            fired, at, side = plan.fired and mode == 'fault', plan.where, plan.kind
            committed = plan.committed
            plan.arm(None, None)
            log.append((op, key[1] if op != 'nonce' else n, mode, at, side, repr(failed)[:60] if failed else got))
            data = dict(log=log[-4:])
            ctx.event('operations')
            if failed is not None:
                require(fired, 'an operation failed although the database did not', kind=kind, error=repr(failed), **data)
            if fired:
                ctx.event('faults')
                if op == 'nonce':
                    ctx.event('nonce faults')
            if failed is None:
                require(want is None or got in want, 'the outcome of an operation is wrong' + (' after a failure of the database' if fired else ''), kind=kind, got=got, want=want, **data)
                allowed = [done]
            else:
                ctx.event('errors reported')
                allowed = [state]
                if at == 'commit' and side == 'after' or committed:
                    # the database did it, but could not say so
                    allowed = [state, done]
                    ctx.event('commit unclear')
            for image_path, commits in target:
                ctx.event('cuts')
                judge(image_path, [state, done], 'a crash in the middle of an operation leaves what is neither before nor after it', **data)
            if failed is None and rng.random() < .4 or isinstance(failed, Exception) and at != 'rollback':
                # an operation which is over keeps nobody else from working
                other, _ = connect(kind, db)
                try:
                    other.execute('BEGIN IMMEDIATE')
                    other.execute('ROLLBACK')
                    ctx.event('not locked')
                except sqlite3.OperationalError as e:
                    require(False, 'an operation which is over left the database locked', kind=kind, error=repr(e), **data)
                finally:
                    other.close()
            if failed is not None or rng.random() < .5:
                seen = judge(image(), allowed, 'a failed operation left a trace' if failed is not None else 'the database does not have what an operation reported', **data)
                if len(allowed) == 2:
                    allowed = [s for s in allowed if matches(seen, s, keys)]
                elif failed is not None and (done.assocs != state.assocs or done.nonces != state.nonces):
                    ctx.event('undone')
            if after_fault is not None and failed is None:
                ctx.event('resumed')
            after_fault = failed
            state = allowed[-1]
            ctx.state(kind, op, mode, at, side, type(failed).__name__, got if isinstance(got, bool) else got is None)
        # everything at the end, by another store and by the same one
        plan.arm(None, None)
        judge(image(), [state], 'the state at the end is not the outcome of what happened', log=log)
        for key in keys:
            got = fields_or_none(store.getAssociation(*key))
            require(got == state.live(key), 'an association differs after failures', kind=kind, got=got, want=state.live(key), log=log)
        ctx.event('older wrappers', plan.duplicates)
        for n in nonces:
            require(store.useNonce(*n) == (n not in state.nonces), 'a nonce is judged wrongly after failures', kind=kind, nonce=n, log=log)
    finally:
        for c in conns:
            c.close()
        shutil.rmtree(where)


def fields_or_none(a):
    return a and fields(a)


SCENARIOS = [('history', history, 9000, 200000)]
