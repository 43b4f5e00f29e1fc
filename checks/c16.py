"""C16: a nonce is accepted exactly once under concurrency."""
import multiprocessing
import os
import random
import sys
import time

from openid.association import Association
from openid.consumer.consumer import SUCCESS

from lib import gen, sched
from lib.core import require
from lib.vclock import clock
from lib.world import RP, Keyed, Net, Stores, assertion, html_page, nonce_at
from checks.c15 import Backend, fields

PROP = 'C16'
TECHNIQUE = ('runtime monitoring: exactly-once and no-failure checker over recorded results of concurrent store calls; thread interleavings chosen by a seeded '
             'scheduler that preempts inside the code, and real processes with injected delays inside the code')
LEVEL_NOTE = ('Threads on one or several store instances under controlled line- or instruction-level interleaving, plus racing processes on the stores that '
              'processes can share. Schedules are sampled, not enumerated.')
RULE = ('a case is one concurrent run; counted distinct: (store, sharing, threads, hand-over sequence) for controlled runs and (store, processes, who won each '
        'nonce) for process runs')
NEED = {'thread_runs': 300, 'process_runs': 8, 'switches': 5000, 'contended': 600, 'cleanups': 300, 'accepted_again_refused': 600, 'logins': 60}
ASSUMPTIONS = ['an SQL connection is used by one thread at a time', 'time does not pass the limit of a nonce during a call',
               'the in-memory store is shared by threads only']
CASE_LIMIT = 200

SKEW = 5 * 3600


def new_assoc(rng, handle, life=3600):
    return Association(handle, bytes(rng.randrange(256) for _ in range(20)), int(clock.now), life, 'HMAC-SHA1')


def run_ops(store, ops, out):
    for op in ops:
        if op[0] == 'nonce':
            out.append((op, bool(store.useNonce(*op[1]))))
        elif op[0] == 'store':
            store.storeAssociation(op[1], op[2])
        elif op[0] == 'get':
            a = store.getAssociation(op[1], op[2])
            out.append((op, a and fields(a)))
        elif op[0] == 'remove':
            store.removeAssociation(op[1], op[2])
        elif op[0] == 'cleanN':
            store.cleanupNonces()
        elif op[0] == 'cleanA':
            store.cleanupAssociations()
        elif op[0] == 'clean':
            getattr(store, 'cleanup', store.cleanupNonces)()
    return out


def plan(rng, n, contended, length, kind):
    """Operations of each party; every contended nonce is presented by at least two."""
    now = int(clock.now)
    url = gen.url(rng)
    urls = [url, url + '/', gen.url(rng), '']
    keys = []
    for _ in range(contended):
        keys.append((rng.choice(urls), now + rng.choice([0, 0, -1, 1, SKEW, -SKEW, -3600]), rng.choice([gen.word(rng, 6, 6), gen.text(rng, 0, 3)]) + str(len(keys))))
    parties = [[] for _ in range(n)]
    for k in keys:
        for i in rng.sample(range(n), rng.randint(2, n)):
            parties[i].append(('nonce', k))
    if rng.random() < .4:
        parties[rng.randrange(n)].append(('nonce', rng.choice(keys)))
    uid = 0
    stored = {}
    shared = {}
    for i in range(n):
        for _ in range(rng.randint(0, length)):
            r = rng.random()
            if r < .25:
                parties[i].append(('nonce', (rng.choice(urls), now, 'own%d' % uid)))
            elif r < .45:
                parties[i].append((rng.choice(['cleanN', 'cleanN', 'clean', 'cleanA']),))
            elif r < .65:
                u, h = rng.choice(urls), 'h%d' % uid
                a = new_assoc(rng, h)
                stored[u, h] = fields(a)
                parties[i].append(('store', u, a))
            elif r < .75:
                u = rng.choice(urls)
                a = new_assoc(rng, 'both')
                shared.setdefault(u, []).append(fields(a))
                parties[i].append(('store', u, a))
            elif r < .8:
                parties[i].append(('store', rng.choice(urls), new_assoc(rng, 'old%d' % uid, 0)))
            elif r < .9:
                parties[i].append(('get', rng.choice(urls), rng.choice([None, 'both'])))
            else:
                parties[i].append(('remove', rng.choice(urls), 'old%d' % rng.randint(0, uid)))
            uid += 1
        rng.shuffle(parties[i])
    return urls, keys, parties, stored, shared


def judge(ctx, kind, back, keys, results, stored, shared, detail):
    wins = {}
    asked = {}
    for party, out in enumerate(results):
        for op, value in out:
            if op[0] == 'nonce':
                asked.setdefault(op[1], []).append(party)
                if value:
                    wins.setdefault(op[1], []).append(party)
            elif op[2] is None:
                ok = [f for (u, _), f in stored.items() if u == op[1]] + shared.get(op[1], [])
                require(value is None or value in ok, 'an association nobody stored was returned', kind=kind, got=value)
            else:
                require(value is None or value in shared.get(op[1], []), 'an association nobody stored was returned', kind=kind, got=value)
    for k, who in asked.items():
        require(len(wins.get(k, [])) == 1, 'a nonce presented %d times was accepted %d times' % (len(who), len(wins.get(k, []))), kind=kind, nonce=k,
                presented_by=who, accepted_by=wins.get(k), **detail)
        if len(who) > 1:
            ctx.event('contended')
    again = back.open()
    for step in range(2):
        for k in asked:
            require(not again.useNonce(*k), 'a used nonce was accepted again afterwards', kind=kind, nonce=k, step=step, **detail)
            ctx.event('accepted_again_refused')
        again.cleanupNonces()
    if kind != 'memory':
        for (u, h), f in stored.items():
            a = again.getAssociation(u, h)
            require(a is not None and fields(a) == f, 'an association was lost or changed', kind=kind, url=u, handle=h, got=a and fields(a), **detail)
        for u, fs in shared.items():
            a = again.getAssociation(u, 'both')
            require(a is not None and fields(a) in fs, 'an association was lost or mixed', kind=kind, url=u, got=a and fields(a), **detail)
    return wins


def threads(rng, ctx):
    kind = rng.choice(['memory', 'memory', 'memory', 'file', 'file', 'sqlite'])
    back = Backend(kind)
    try:
        n = rng.choice([2, 2, 3, 4])
        first = back.open()
        # what was there before
        now = int(clock.now)
        for i in range(rng.choice([0, 3])):
            first.useNonce('http://before.example.com/', now - SKEW + i, 'stale%d' % i)
            first.storeAssociation('http://before.example.com/', new_assoc(rng, 'gone%d' % i, i))
        clock.advance(rng.choice([0, 2]))
        urls, keys, parties, stored, shared = plan(rng, n, rng.choice([1, 1, 2, 4]), rng.choice([0, 0, 3, 6]), kind)
        same = kind == 'memory' or (kind == 'file' and rng.random() < .5)
        outs = [[] for _ in range(n)]
        jobs = []
        for i in range(n):
            s = first if same else back.open()
            jobs.append(lambda s=s, i=i: run_ops(s, parties[i], outs[i]))
        for ops in parties:
            ctx.event('cleanups', len([1 for op in ops if op[0].startswith('clean')]))
        control = sched.Scheduler(rng, prob=rng.choice([.05, .2, .5, 'quanta', 'quanta', 'quanta']), opcodes=rng.random() < .3)
        for i, r in enumerate(control.run(jobs)):
            require(r[0] == 'ok', 'a concurrent operation raised %r' % (r[1],), kind=kind, party=i, operations=[str(op) for op in parties[i]], done=len(outs[i]),
                    schedule=control.trace[:60])
        judge(ctx, kind, back, keys, outs, stored, shared, {'schedule': control.trace[:60]})
        ctx.event('thread_runs')
        ctx.event('switches', control.switches)
        ctx.state('threads', kind, same, n, tuple(control.trace[:40]))
    finally:
        back.close()


def _delay_tracer(rng, prob):
    def local(frame, event, arg):
        if event == 'line' and rng.random() < prob:
            time.sleep(rng.choice([0, 0, .0001, .001]))
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(sched.ROOT) else None
    return glob


def _process(back, ops, barrier, queue, seed, prob):
    try:
        r = random.Random(seed)
        back.stores.conns, back.stores.dirs = [], []
        store = back.open()
        out = []
        barrier.wait(60)
        if prob:
            sys.settrace(_delay_tracer(r, prob))
        try:
            run_ops(store, ops, out)
        finally:
            sys.settrace(None)
        queue.put(('ok', out))
    except BaseException as e:   # noqa: B902
        queue.put(('raised', repr(e)))
    finally:
        queue.close()
        queue.join_thread()
        os._exit(0)


def processes(rng, ctx):
    kind = rng.choice(['file', 'file', 'sqlite'])
    back = Backend(kind)
    try:
        n = rng.choice([3, 4, 6])
        urls, keys, parties, stored, shared = plan(rng, n, 25, 12, kind)
        # everyone presents the nonces in the same order, so that they collide
        for i in range(n):
            order = {k: j for j, k in enumerate(keys)}
            mine = sorted([op for op in parties[i] if op[0] == 'nonce' and op[1] in order], key=lambda op: order[op[1]])
            rest = [op for op in parties[i] if not (op[0] == 'nonce' and op[1] in order)]
            for op in rest:
                mine.insert(rng.randint(0, len(mine)), op)
            parties[i] = mine
            ctx.event('cleanups', len([1 for op in mine if op[0].startswith('clean')]))
        mp = multiprocessing.get_context('fork')
        barrier = mp.Barrier(n)
        queues = [mp.Queue() for _ in range(n)]
        prob = rng.choice([0, .05, .3])
        procs = [mp.Process(target=_process, args=(back, parties[i], barrier, queues[i], rng.randrange(10 ** 9), prob)) for i in range(n)]
        for p in procs:
            p.start()
        results = [q.get(timeout=150) for q in queues]
        for p in procs:
            p.join()
        for i, r in enumerate(results):
            require(r[0] == 'ok', 'an operation in a concurrent process raised: %s' % (r[1],), kind=kind, party=i)
        outs = [r[1] for r in results]
        wins = judge(ctx, kind, back, keys, outs, stored, shared, {'processes': n})
        ctx.event('process_runs')
        ctx.state('processes', kind, n, tuple(wins[k][0] for k in keys if k in wins))
    finally:
        back.close()


def logins(rng, ctx):
    """The same assertion delivered concurrently to one relying party is accepted once."""
    kind = rng.choice(['memory', 'file'])
    back = Backend(kind)
    stores = Stores()
    try:
        net = Net()
        yes = Keyed(net, 'http://op.example.com/ep', confirm=lambda q: True)
        user = 'http://user.example.com/'
        net.page(user, html_page([('openid2.provider', yes.endpoint), ('openid.server', yes.endpoint)]))
        rt = 'http://rp.example.com/cb'
        store = back.open()
        v2 = rng.random() < .6
        shared = rng.random() < .6
        handle = yes.share(store, rng) if shared else 'unknown'
        args = assertion(v2, yes, handle, user, user, rt, nonce_at(int(clock.now), gen.word(rng, 6, 6)))
        args = yes.sign(args) if shared else dict(args, **{'openid.sig': 'c2lnbmF0dXJl'})
        n = rng.choice([2, 2, 3])
        rps = [RP(store if kind == 'memory' or rng.random() < .5 else back.open(), 'http://rp.example.com/', rt) for _ in range(n)]
        jobs = [lambda r=r: r.complete('s', args, rt) for r in rps]
        if rng.random() < .5:
            jobs.append(lambda: store.cleanupNonces() and None)
        control = sched.Scheduler(rng, prob=rng.choice([.02, .1, .3, 'quanta', 'quanta', 'quanta']))
        res = control.run(jobs)
        for r in res:
            require(r[0] == 'ok', 'a concurrent completion raised %r' % (r[1],), kind=kind)
        good = [r[1].status for r in res[:n]].count(SUCCESS)
        require(good == 1, 'an assertion was accepted %d times by %d concurrent completions' % (good, n), kind=kind, args=args,
                schedule=control.trace[:60], messages=[getattr(r[1], 'message', None) for r in res[:n]])
        ctx.event('logins')
        ctx.event('switches', control.switches)
        ctx.state('logins', kind, v2, shared, tuple(control.trace[:40]))
    finally:
        back.close()
        stores.close()


SCENARIOS = [('threads', threads, 2600, 40000), ('processes', processes, 52, 600), ('logins', logins, 410, 6000)]
