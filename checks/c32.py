"""C32: associations in a store are linearizable under concurrent use."""
import multiprocessing
import os
import random
import sys
import threading
import time

from openid.association import Association

from lib import gen, sched
from lib.core import require
from lib.vclock import clock
from checks.c15 import Backend, fields
from checks.c16 import _delay_tracer

PROP = 'C32'
TECHNIQUE = ('runtime monitoring: offline linearizability checking (per association, against a register with remove) of recorded invocation/response histories of concurrent store calls, under '
             'seeded controlled thread interleavings and real processes with injected delays')
LEVEL_NOTE = 'Threads on one or several instances under line- or instruction-level interleaving and racing processes on the stores processes can share. Schedules are sampled.'
RULE = 'a case is one concurrent history; counted distinct: (store, sharing, threads, hand-over sequence) or, for processes, (store, processes, results in order)'
NEED = {'histories': 500, 'operations': 8000, 'keys checked': 2000, 'overlapping': 800, 'switches': 5000, 'found': 1500, 'newest': 500, 'removed': 300, 'cleanups': 300, 'expired removed': 300,
        'process histories': 12, 'emptied': 300}
ASSUMPTIONS = ['an SQL connection is used by one thread at a time', 'associations neither expire during the history nor share a handle with an expired one', 'the in-memory store is shared by threads only']
CASE_LIMIT = 200


class Log(object):
    """Invocations and responses with increasing time stamps."""

    def __init__(self, tick):
        self.tick = tick
        self.rows = []

    def call(self, op, func):
        start = self.tick()
        value = func()
        self.rows.append((start, self.tick(), op, value))


def run_ops(store, ops, log):
    for op in ops:
        if op[0] == 'store':
            log.call(op, lambda: store.storeAssociation(op[1], op[2]))
        elif op[0] == 'get':
            log.call(op, lambda: fields_or_none(store.getAssociation(op[1], op[2])))
        elif op[0] == 'best':
            log.call(op, lambda: fields_or_none(store.getAssociation(op[1])))
        elif op[0] == 'remove':
            log.call(op, lambda: bool(store.removeAssociation(op[1], op[2])))
        else:
            log.call(op, getattr(store, op[0]))


def fields_or_none(a):
    return a and fields(a)


def plan(rng, n, length, most):
    base = gen.url(rng)
    urls = [base, base + '/', gen.url(rng)][:min(most, rng.choice([1, 1, 1, 2, 3]))]
    handles = ['h%d' % i for i in range(min(most, rng.choice([1, 1, 2, 3])))]
    serial = [0]

    def assoc(h, life=10 ** 6):
        serial[0] += 1
        return Association(h, serial[0].to_bytes(20, 'big'), int(clock.now) + rng.randint(-50, 0) if life else int(clock.now) - 100, life, 'HMAC-SHA1')
    before = []
    for u in urls:
        for h in handles:
            if rng.random() < (.5 if most > 1 else .8):
                before.append(('store', u, assoc(h)))
        # expired ones, so that clean-up has something to do
        for i in range(rng.choice([0, 1, 2])):
            before.append(('store', u, assoc('old%d' % i, 0)))
    parties = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randint(1, length)):
            u, h = rng.choice(urls), rng.choice(handles)
            ops.append(rng.choice([('store', u, assoc(h)), ('store', u, assoc(h)), ('get', u, h), ('get', u, h), ('best', u), ('remove', u, h), ('remove', u, h), ('cleanupAssociations',),
                                   ('cleanupAssociations',), ('cleanup',) if rng.random() < .3 else ('cleanupNonces',)]))
        parties.append(ops)
    return urls, handles, before, parties


def linearizable(ops):
    """ops: [(start, end, kind, argument, result)] on one association; is there an order that explains it?"""
    ops = sorted(ops)
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, None)]
    while stack:
        done, value = stack.pop()
        if done == full:
            return True
        if (done, value) in seen:
            continue
        seen.add((done, value))
        first_end = min(ops[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or ops[i][0] > first_end:
                continue
            _, _, kind, arg, res = ops[i]
            if kind == 'store':
                stack.append((done | 1 << i, arg))
            elif kind == 'get':
                if res == value:
                    stack.append((done | 1 << i, value))
            elif res == (value is not None):
                stack.append((done | 1 << i, None))
    return False


def judge(ctx, kind, urls, handles, rows, detail):
    """rows: all invocations and responses, those before and after the concurrent part included."""
    per = {(u, h): [] for u in urls for h in handles}
    made = {}
    for start, end, op, value in rows:
        if op[0] == 'store':
            made[fields(op[2])] = (op[1], op[2].handle)
            if (op[1], op[2].handle) in per:
                per[op[1], op[2].handle].append((start, end, 'store', fields(op[2]), None))
        elif op[0] in ('get', 'remove'):
            per[op[1], op[2]].append((start, end, op[0], None, value))
            if value:
                ctx.event('found' if op[0] == 'get' else 'removed')
        ctx.event('operations')
    for start, end, op, value in rows:
        if op[0] in ('get', 'best') and value is not None:
            require(value in made and made[value][0] == op[1], 'an association nobody stored there was returned', got=value, url=op[1], kind=kind)
    for key, ops in per.items():
        spans = sorted((o[0], o[1]) for o in ops)
        for a, b in zip(spans, spans[1:]):
            if b[0] < a[1]:
                ctx.event('overlapping')
        require(linearizable(ops), 'no order of the operations explains their results', kind=kind, association=key, operations=[repr(o) for o in sorted(ops)], **detail)
        ctx.event('keys checked')
    # the most recent one: it has to be there some time during the call, and not older than one there all the time
    for start, end, op, value in rows:
        if op[0] != 'best':
            continue
        ctx.event('newest')
        if value is not None:
            u, h = made[value]
            require(not h.startswith('old'), 'an expired association was returned as the newest', got=value)
            ops = per[u, h]
            mine = [o for o in ops if o[2] == 'store' and o[3] == value][0]
            require(mine[0] < end, 'an association was returned before it was stored', got=value)
            for o in ops:
                gone = o[2] == 'remove' and o[4] or o[2] == 'store' and o[3] != value
                require(not (gone and o[0] > mine[1] and o[1] < start), 'an association was returned after it had been removed or replaced', got=value, by=repr(o), kind=kind, **detail)
        for (u, h), ops in per.items():
            if u != op[1]:
                continue
            stable = [o for o in ops if o[2] == 'store' and o[1] < start]
            others = [o for o in ops if (o[2] == 'store' or o[2] == 'remove') and o[1] > start and o[0] < end]
            if not stable or others:
                continue
            last = max(stable)
            if any(o[1] > last[0] for o in stable if o is not last) or any(o[2] == 'remove' and o[1] > last[0] and o[0] < start for o in ops):
                continue
            require(value is not None, 'no association was returned although one was there all the time', there=last[3], url=u, kind=kind, **detail)
            require(value[2] >= last[3][2], 'an older association was returned as the newest', got=value, there=last[3], kind=kind, **detail)


def history(rng, ctx, kind, n, length, runner, most=3):
    back = Backend(kind)
    try:
        first = back.open()
        urls, handles, before, parties = plan(rng, n, length, most)
        clk = runner.clock()
        rows = []
        log = Log(clk)
        run_ops(first, before, log)
        rows += log.rows
        logs, detail = runner.run(rng, ctx, back, kind, first, parties, clk)
        for rs in logs:
            rows += rs
        log = Log(clk)
        again = back.open()
        after = [('get', u, h) for u in urls for h in handles] + [('best', u) for u in urls]
        run_ops(again, after, log)
        if rng.random() < .5:
            run_ops(again, [('cleanupAssociations',)] + after, log)
        # emptied by one party; nothing comes back
        for u in urls:
            for h in handles:
                run_ops(again, [('remove', u, h), ('get', u, h), ('remove', u, h)], log)
                ctx.event('emptied')
        run_ops(again, [('best', u) for u in urls], log)
        rows += log.rows
        for u in urls:
            for i in range(2):
                if kind != 'memory':
                    require(again.getAssociation(u, 'old%d' % i) is None, 'an expired association is returned', kind=kind)
                ctx.event('expired removed')
        judge(ctx, kind, urls, handles, rows, detail)
        ctx.event('cleanups', len([1 for ops in parties for op in ops if op[0].startswith('cleanup')]))
        ctx.event('histories')
        return rows
    finally:
        back.close()


class Threads(object):
    def clock(self):
        self.now = 0
        lock = threading.Lock()

        def tick():
            with lock:
                self.now += 1
                return self.now
        return tick

    def run(self, rng, ctx, back, kind, first, parties, clk):
        same = kind == 'memory' or (kind == 'file' and rng.random() < .5)
        logs = [Log(clk) for _ in parties]
        jobs = []
        for i in range(len(parties)):
            s = first if same else back.open()
            jobs.append(lambda s=s, i=i: run_ops(s, fit(s, parties[i]), logs[i]))
        control = sched.Scheduler(rng, prob=rng.choice([.05, .2, .5, 'quanta', 'quanta', 'quanta']), opcodes=rng.random() < .3, stall=0.005)
        for i, r in enumerate(control.run(jobs)):
            require(r[0] == 'ok', 'a concurrent operation raised %r' % (r[1],), kind=kind, party=i, operations=[str(op) for op in parties[i]], schedule=control.trace[:60])
        ctx.event('switches', control.switches)
        ctx.state('threads', kind, same, len(parties), tuple(control.trace[:40]))
        return [log.rows for log in logs], {'schedule': control.trace[:60]}


def fit(store, ops):
    return [op if op[0] != 'cleanup' or hasattr(store, 'cleanup') else ('cleanupAssociations',) for op in ops]


def _process(back, ops, barrier, queue, seed, prob):
    try:
        r = random.Random(seed)
        back.stores.conns, back.stores.dirs = [], []
        store = back.open()
        log = Log(_mono)
        barrier.wait(60)
        if prob:
            sys.settrace(_delay_tracer(r, prob))
        try:
            run_ops(store, fit(store, ops), log)
        finally:
            sys.settrace(None)
        queue.put(('ok', log.rows))
    except BaseException as e:   # noqa: B902
        queue.put(('raised', repr(e)))
    finally:
        queue.close()
        queue.join_thread()
        os._exit(0)


_mono = time.monotonic_ns


class Processes(object):
    def clock(self):
        return _mono

    def run(self, rng, ctx, back, kind, first, parties, clk):
        mp = multiprocessing.get_context('fork')
        barrier = mp.Barrier(len(parties))
        queues = [mp.Queue() for _ in parties]
        prob = rng.choice([0, .05, .3])
        procs = [mp.Process(target=_process, args=(back, parties[i], barrier, queues[i], rng.randrange(10 ** 9), prob)) for i in range(len(parties))]
        for p in procs:
            p.start()
        results = [q.get(timeout=150) for q in queues]
        for p in procs:
            p.join()
        for i, r in enumerate(results):
            require(r[0] == 'ok', 'an operation in a concurrent process raised: %s' % (r[1],), kind=kind, party=i)
        ctx.event('process histories')
        rows = sorted(row for r in results for row in [(x[0], x[1], x[2][0], repr(x[3])) for x in r[1]])
        ctx.state('processes', kind, len(parties), tuple(x[2:] for x in rows))
        return [r[1] for r in results], {}


def threads(rng, ctx):
    history(rng, ctx, rng.choice(['memory', 'memory', 'memory', 'file', 'file', 'sqlite']), rng.choice([2, 2, 3, 4]), rng.choice([1, 2, 3, 4]), Threads())


def processes(rng, ctx):
    history(rng, ctx, rng.choice(['file', 'file', 'sqlite']), rng.choice([2, 3, 4]), rng.choice([5, 12, 25, 50]), Processes())


def focused(rng, ctx):
    """Two threads and one association, each thread with one or two operations."""
    history(rng, ctx, rng.choice(['memory', 'file', 'file', 'file']), 2, rng.choice([1, 1, 2]), Threads(), 1)


SCENARIOS = [('threads', threads, 2400, 60000), ('focused', focused, 6000, 120000), ('processes', processes, 120, 3000)]
