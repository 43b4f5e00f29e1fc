"""C09: direct verification confirms only own private assertions, once."""
import sqlite3
import threading

from openid.server.server import EncodingError, ProtocolError, Server
from openid.store.filestore import FileOpenIDStore
from openid.store.sqlstore import SQLiteStore

from lib import gen
from lib.core import Violation, require
from lib.sched import Scheduler
from lib.vclock import clock
from lib.world import OPENID2, Stores, deliver, ref_sig, scratch
from checks.c08 import alterations, associate

PROP = 'C09'
TECHNIQUE = ('runtime monitoring: online model of issued private responses over histories of verification requests; exactly-one-true checker over '
             'controlled thread interleavings of concurrent requests')
LEVEL_NOTE = ('Random histories (issue, verify, alter, expire, restart, invalidate) on all stores against a model, and concurrent verifications under a '
              'seeded scheduler preempting inside the code at line or instruction level. Random exploration of histories and schedules.')
RULE = ('a case is a history or a concurrent run; counted distinct: (operation, expected answer, state of the handle, protocol, store) and for the '
        'concurrent part (store, threads, hand-over sequence)')
NEED = {'true': 300, 'false': 800, 'concurrent_runs': 150, 'echoed': 50, 'not_echoed': 20, 'switches': 2000}
ASSUMPTIONS = ['after a verification request with the handle of a private association, further answers for that handle may be false']


def issue(rng, server, v2, handle=None):
    args = {'openid.mode': 'checkid_setup', 'openid.identity': 'http://id.example.com/' + gen.word(rng), 'openid.return_to': 'http://rp.example.com/cb'}
    if v2:
        args['openid.ns'] = OPENID2
        args['openid.claimed_id'] = args['openid.identity']
    if handle:
        args['openid.assoc_handle'] = handle
    request = server.decodeRequest(args)
    response = request.answer(True)
    if rng.random() < .3:
        response.fields.setArg('http://ext.example.com/', 'k', gen.word(rng))
    return dict((k, v) for k, v in deliver(server.encodeResponse(response), args['openid.return_to'])[1] if k.startswith('openid.'))


def check(server, wire, invalidate=None):
    """(is_valid, confirmed invalidate_handle) or None if the request was refused as a whole."""
    q = dict(wire)
    q['openid.mode'] = 'check_authentication'
    if invalidate is not None:
        q['openid.invalidate_handle'] = invalidate
    try:
        request = server.decodeRequest(q)
        web = server.encodeResponse(server.handleRequest(request))
    except (ProtocolError, EncodingError):
        return None
    answer = dict(line.split(':', 1) for line in web.body.split('\n') if line)
    require(web.code == 200 and answer.get('is_valid') in ('true', 'false'), 'not an answer', query=q, body=web.body)
    require(set(answer) <= {'is_valid', 'invalidate_handle', 'ns'}, 'the answer says more', query=q, body=web.body)
    return answer['is_valid'] == 'true', answer.get('invalidate_handle')


class Reopenable(object):
    """A store that can be opened again, as by another process."""

    def __init__(self, kind):
        self.kind = kind
        self.stores = Stores()
        self.dir = None
        if kind == 'memory':
            self.mem = self.stores.make('memory')
        else:
            self.dir = scratch()
            self.stores.dirs.append(self.dir)
            if kind == 'sqlite':
                self.open().createTables()

    def open(self):
        if self.kind == 'memory':
            return self.mem
        if self.kind == 'file':
            return FileOpenIDStore(self.dir + '/store')
        conn = sqlite3.connect(self.dir + '/db', check_same_thread=False, timeout=30)
        conn.execute('PRAGMA synchronous=OFF')
        self.stores.conns.append(conn)
        return SQLiteStore(conn)

    def close(self):
        self.stores.close()


def history(rng, ctx):
    kind = rng.choice(['memory', 'file', 'sqlite'])
    back = Reopenable(kind)
    other_stores = Stores()
    try:
        endpoint = 'http://op.example.com/server'
        server = Server(back.open(), endpoint)
        foreign = Server(other_stores.make('memory'), endpoint)
        twin = None
        issued = []              # dict(wire, handle, expires, touched, confirmed)
        shared = {}              # handle -> (type, secret, expires)
        for _ in range(rng.randint(6, 25)):
            op = rng.choice(['issue', 'issue', 'check', 'check', 'check', 'again', 'altered', 'mix', 'shared', 'forged', 'foreign', 'time', 'restart',
                             'invalidate', 'drop'])
            if rng.random() < .2:
                # two processes serve one provider
                server, twin = twin or Server(back.open(), endpoint), server
            if op == 'restart':
                server = Server(back.open(), endpoint)
            elif op == 'drop':
                # another process gives an association up
                other = Server(back.open(), endpoint)
                if shared and rng.random() < .6:
                    h = rng.choice(sorted(shared))
                    other.signatory.invalidate(h, dumb=False)
                    del shared[h]
                elif issued:
                    i = rng.choice(issued)
                    other.signatory.invalidate(i['handle'], dumb=True)
                    i['expires'] = 0
                ctx.event('dropped')
            elif op == 'time':
                clock.advance(rng.choice([1, 60, 3600, 86400 * 3, 86400 * 14 - 1, 86400 * 14]))
            elif op == 'issue':
                v2 = rng.random() < .6
                # also as the answer to a request that names a handle not valid: the private one replaces it
                dead = rng.choice([None, None, 'unknown', gen.word(rng, 1, 9)] + [x for x in shared if clock.now >= shared[x][2]] + [x['handle'] for x in issued])
                wire = issue(rng, server, v2, dead)
                require(wire.get('openid.invalidate_handle') == dead, 'not told to drop the handle', handle=dead, wire=wire)
                h = wire['openid.assoc_handle']
                a = server.signatory.getAssociation(h, dumb=True)
                require(a is not None, 'private association is not held', handle=h)
                require(h not in shared and h not in [i['handle'] for i in issued], 'handle used twice', handle=h)
                issued.append(dict(wire=wire, handle=h, expires=int(clock.now) + a.expiresIn, touched=False, confirmed=False))
            elif op in ('check', 'again', 'altered', 'mix') and issued:
                i = rng.choice(issued)
                wire = i['wire']
                alive = clock.now < i['expires']
                if op in ('check', 'again'):
                    if rng.random() < .1:
                        # fields outside the signature do not matter
                        wire = dict(wire, **{'openid.unsigned': 'x'})
                        ans = check(server, wire)
                        want = None if not i['confirmed'] and alive else False
                    elif rng.random() < .25 and 'openid.invalidate_handle' not in wire:
                        # asking about some handle at the same time makes no difference, even about the same one
                        name = rng.choice([i['handle'], i['handle'], rng.choice(issued)['handle'], rng.choice(sorted(shared) or ['x']), 'nonexistent'])
                        ans = check(server, wire, name)
                        want = alive and not i['touched']
                        if i['touched'] and not i['confirmed'] and alive:
                            want = None
                        held = name in shared and clock.now < shared[name][2]
                        require(ans is not None and ans[1] == (None if held else name), 'confirmed invalidation of %r as %r' % (name, ans and ans[1]), held=held)
                        ctx.event('asked with')
                    else:
                        ans = check(server, wire)
                        want = alive and not i['touched']
                        if i['touched'] and not i['confirmed'] and alive:
                            want = None
                    require(ans is not None, 'verification request refused', wire=wire)
                    ok = ans[0]
                    if want is not None:
                        require(ok == want, 'answered %s for a private response' % ok, wire=wire, alive=alive, touched=i['touched'], confirmed=i['confirmed'])
                    i['touched'] = True
                    i['confirmed'] = i['confirmed'] or ok
                    ctx.event('true' if ok else 'false')
                    ctx.state(op, want, alive, i['touched'], 'openid.ns' in wire, kind)
                else:
                    if op == 'altered':
                        alts = [a for k, a in alterations(rng, wire) if a.get('openid.mode') == 'id_res']
                        if not alts:
                            continue
                        altered = rng.choice(alts)
                    else:
                        j = rng.choice(issued)
                        if j is i:
                            continue
                        altered = dict(wire)
                        for k in rng.choice([['openid.assoc_handle'], ['openid.assoc_handle', 'openid.sig'], ['openid.sig'], ['openid.identity', 'openid.claimed_id'],
                                             ['openid.identity', 'openid.sig'], ['openid.response_nonce']]):
                            if k in j['wire']:
                                altered[k] = j['wire'][k]
                        if altered == wire or altered == j['wire']:
                            continue
                    ans = check(server, altered)
                    require(ans is None or ans[0] is False, 'confirmed an altered response', wire=wire, altered=altered)
                    for x in issued:
                        if x['handle'] == altered.get('openid.assoc_handle'):
                            x['touched'] = True
                    ctx.event('false')
                    ctx.state(op, alive, i['touched'], 'openid.ns' in wire, kind)
            elif op in ('shared', 'forged'):
                v2 = rng.random() < .6
                live = [h for h in shared if clock.now < shared[h][2]]
                if not live or rng.random() < .3:
                    h, t, s = associate(server, rng, v2)
                    shared[h] = (t, s, int(clock.now) + server.signatory.getAssociation(h, dumb=False).expiresIn)
                    live.append(h)
                h = rng.choice(live)
                wire = issue(rng, server, v2, h)
                require(wire['openid.assoc_handle'] == h, 'a valid shared handle is not used', wire=wire)
                if op == 'forged':
                    # whoever shares the key can sign; the provider must not vouch for it
                    wire['openid.identity'] = 'http://victim.example.com/'
                    wire['openid.sig'] = ref_sig(shared[h][0], shared[h][1], wire)
                if rng.random() < .3:
                    ans = check(server, wire, h)
                    require(ans is not None and ans[1] is None, 'confirmed the invalidation of the very handle the response is signed with', wire=wire)
                else:
                    ans = check(server, wire)
                require(ans is not None and ans[0] is False, 'confirmed a response signed with a shared handle', wire=wire)
                ctx.event('false')
                ctx.state(op, v2, kind)
            elif op == 'foreign':
                wire = issue(rng, foreign, rng.random() < .6)
                ans = check(server, wire)
                require(ans is not None and ans[0] is False, 'confirmed the response of another provider', wire=wire)
                if issued and rng.random() < .5:
                    i = rng.choice(issued)
                    wire['openid.assoc_handle'] = i['handle']
                    ans = check(server, wire)
                    require(ans is not None and ans[0] is False, 'confirmed the response of another provider', wire=wire)
                    i['touched'] = True
                ctx.event('false')
                ctx.state(op, kind)
            elif op == 'invalidate':
                names = ['nonexistent', gen.word(rng, 1, 20)] + list(shared) * 3 + [i['handle'] for i in issued]
                name = rng.choice(names)
                # the handle the question is about is independent of what is verified
                base = issue(rng, foreign, rng.random() < .6)
                if rng.random() < .3:
                    base['openid.assoc_handle'] = name
                    for x in issued:
                        if x['handle'] == name:
                            x['touched'] = True
                ans = check(server, base, name)
                require(ans is not None, 'verification request refused', wire=base)
                held = name in shared and clock.now < shared[name][2]
                require(ans[1] == (None if held else name), 'confirmed invalidation of %r as %r' % (name, ans[1]), held=held)
                ctx.event('not_echoed' if held else 'echoed')
                ctx.state(op, held, name in shared, name in [i['handle'] for i in issued], kind)
        # nothing was confirmed that could be confirmed again
        for i in issued:
            first = check(server, i['wire'])
            second = check(server, i['wire'])
            require(not (i['confirmed'] and first[0]), 'confirmed twice', wire=i['wire'])
            if not i['touched']:
                require(first[0] == (clock.now < i['expires']), 'answered %s for a private response' % first[0], wire=i['wire'])
            require(second[0] is False, 'confirmed twice', wire=i['wire'])
            ctx.event('true' if first[0] else 'false')
        for h, (t, s, exp) in shared.items():
            if clock.now < exp:
                w = issue(rng, server, True, h)
                require(w['openid.assoc_handle'] == h, 'verification requests took a shared association away', handle=h)
    finally:
        back.close()
        other_stores.close()


def concurrent(rng, ctx):
    kind = rng.choice(['memory', 'memory', 'file', 'file', 'sqlite'])
    back = Reopenable(kind)
    try:
        server = Server(back.open(), 'http://op.example.com/server')
        wire = issue(rng, server, rng.random() < .6)
        second = issue(rng, server, rng.random() < .6)
        n = rng.choice([2, 2, 3, 4])
        jobs = []
        for i in range(n):
            s = server if kind == 'memory' and rng.random() < .5 else Server(back.open(), 'http://op.example.com/server')
            jobs.append(lambda s=s: check(s, wire))
        extra = rng.random() < .5
        if extra:
            s2 = Server(back.open(), 'http://op.example.com/server')
            jobs.append(lambda: check(s2, second))
        sched = Scheduler(rng, prob=rng.choice([.05, .2, .5, 'quanta', 'quanta', 'quanta']), opcodes=rng.random() < .2)
        results = sched.run(jobs)
        for r in results:
            require(r[0] == 'ok', 'a concurrent verification raised %r' % (r[1],), kind=kind)
        trues = [r[1][0] for r in results[:n]].count(True)
        require(trues == 1, '%d of %d concurrent verifications were confirmed' % (trues, n), kind=kind, schedule=sched.trace)
        if extra:
            require(results[n][1][0], 'an independent verification was disturbed', kind=kind, schedule=sched.trace)
        require(check(server, wire)[0] is False, 'confirmed again')
        ctx.event('concurrent_runs')
        ctx.event('switches', sched.switches)
        ctx.state('conc', kind, n, tuple(sched.trace[:40]))
    finally:
        back.close()


def free(rng, ctx):
    """The same without a scheduler: the interpreter's own preemption, many threads."""
    import sys
    kind = rng.choice(['memory', 'file', 'sqlite'])
    back = Reopenable(kind)
    old = sys.getswitchinterval()
    try:
        server = Server(back.open(), 'http://op.example.com/server')
        wires = [issue(rng, server, rng.random() < .6) for _ in range(5)]
        out = []
        start = threading.Barrier(8)

        def body(s):
            start.wait(30)
            for w in wires:
                try:
                    out.append((w['openid.assoc_handle'], check(s, w)[0]))
                except Exception as e:
                    out.append((w['openid.assoc_handle'], e))
        threads = [threading.Thread(target=body, args=(server if kind == 'memory' else Server(back.open(), 'http://op.example.com/server'),)) for _ in range(8)]
        sys.setswitchinterval(1e-6)
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for w in wires:
            answers = [ok for h, ok in out if h == w['openid.assoc_handle']]
            require(all(a in (True, False) for a in answers), 'a concurrent verification raised', answers=answers, kind=kind)
            require(answers.count(True) == 1, '%d concurrent verifications were confirmed' % answers.count(True), kind=kind)
        ctx.event('free_runs')
    finally:
        sys.setswitchinterval(old)
        back.close()


SCENARIOS = [('history', history, 2800, 25000), ('concurrent', concurrent, 990, 6000), ('free', free, 74, 370)]
