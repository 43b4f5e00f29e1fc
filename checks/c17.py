"""C17: the file store survives crashes and never serves damaged associations."""
import base64
import builtins
import errno
import os
import pickle
import re
import shutil
import sys

_fsync, _fdatasync, _rename, _replace = os.fsync, os.fdatasync, os.rename, os.replace
_synced = {}              # inode -> content when it was last synced
_watch = []               # directory being watched
_faults = []              # names of calls that are to fail


def _sync(real):
    def sync(fd):
        if _faults and 'fsync' in _faults:
            raise OSError(errno.EIO, 'injected')
        if _watch:
            n = fd if isinstance(fd, int) else fd.fileno()
            st = os.fstat(n)
            with open('/proc/self/fd/%d' % n, 'rb') as f:
                _synced[st.st_ino] = f.read()
        return real(fd)
    return sync


_bad = []
_renames = [0]


def _move(real):
    def move(src, dst, *a, **k):
        if _faults and 'rename' in _faults:
            raise OSError(errno.EACCES, 'injected')
        if _watch and str(dst).startswith(_watch[0] + os.sep):
            with open(src, 'rb') as f:
                now = f.read()
            _renames[0] += 1
            if _synced.get(os.stat(src).st_ino) != now:
                _bad.append((src, dst))
        return real(src, dst, *a, **k)
    return move


_nth = [0]                # the how-manieth call of the operating system from now on fails, 0 for none
_failed = []


def _failing(name, real):
    def call(*a, **k):
        if _nth[0]:
            _nth[0] -= 1
            if not _nth[0]:
                _failed.append(name)
                raise OSError(_errno[0], 'injected in ' + name)
        return real(*a, **k)
    return call


_errno = [errno.EIO]

# before the code under test is imported
os.fsync, os.fdatasync, os.rename, os.replace = _sync(_fsync), _sync(_fdatasync), _move(_rename), _move(_replace)
for _name in ('open', 'unlink', 'remove', 'rename', 'replace', 'link', 'listdir', 'scandir', 'fsync', 'fdatasync', 'fdopen', 'write', 'mkdir'):
    setattr(os, _name, _failing(_name, getattr(os, _name)))
builtins.open = _failing('builtin open', builtins.open)

from openid.association import Association  # noqa: E402
from openid.store.filestore import FileOpenIDStore  # noqa: E402

from lib import gen, sched  # noqa: E402
from lib.core import require  # noqa: E402
from lib.vclock import clock  # noqa: E402
from lib.world import scratch  # noqa: E402
from checks.c15 import fields, handle, secret, server_url  # noqa: E402

PROP = 'C17'
TECHNIQUE = ('runtime monitoring: crash injection at every traced line or instruction of the code under test in forked processes, followed by a checker of the '
             'recovered store against the history; file damage, injected I/O errors, an interleaved reader, and a monitor of sync-before-rename')
LEVEL_NOTE = ('Crash points of each sampled operation sequence are enumerated (thorough) or sampled (quick) at line or instruction granularity; only process '
              'death is simulated, loss of power only through the rule that data are synced before they are renamed into place.')
RULE = 'a case is a history with crash points, a damaged directory or an interleaving; counted distinct: (operation, crash point, outcome), (damage, outcome), hand-over sequence'
NEED = {'crashes': 1500, 'recovered_old': 200, 'recovered_new': 30, 'damaged': 600, 'reads': 1000, 'faults': 100, 'synced_renames': 100, 'outages': 1000}
ASSUMPTIONS = ['rename is atomic', 'files whose content is still a complete association may be returned as such']

SKEW = 5 * 3600


def build(rng, d, urls, handles):
    """A store directory with a history; returns model (associations, used nonces)."""
    store = FileOpenIDStore(d)
    assocs, used = {}, set()
    for _ in range(rng.randint(1, 5)):
        a = make(rng, rng.choice(handles))
        u = rng.choice(urls)
        store.storeAssociation(u, a)
        assocs[u, a.handle] = fields(a)
    for i in range(rng.randint(0, 4)):
        k = (rng.choice(urls), int(clock.now) - i, gen.word(rng))
        require(store.useNonce(*k), 'a new nonce was refused', nonce=k)
        used.add(k)
    return assocs, used


def make(rng, h, life=None):
    t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
    return Association(h, secret(rng, t), int(clock.now) + rng.randint(-100, 100), life or rng.choice([rng.randint(1000, 10 ** 6)] * 4 + [2 ** 31, 2 ** 32, 10 ** 10, 2 ** 40]), t)


def plan(rng, urls, handles, used):
    ops = []
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(['store', 'store', 'store', 'remove', 'nonce', 'nonce', 'get', 'clean', 'open'])
        if op == 'store':
            ops.append(('store', rng.choice(urls), make(rng, rng.choice(handles))))
        elif op == 'remove':
            ops.append(('remove', rng.choice(urls), rng.choice(handles)))
        elif op == 'nonce':
            ops.append(('nonce', (rng.choice(urls), int(clock.now), gen.word(rng))))
        elif op == 'get':
            ops.append(('get', rng.choice(urls), rng.choice(handles + [None])))
        else:
            ops.append((op,))
    return ops


def perform(store, op, d):
    if op[0] == 'store':
        return store.storeAssociation(op[1], op[2])
    if op[0] == 'remove':
        return store.removeAssociation(op[1], op[2])
    if op[0] == 'nonce':
        return store.useNonce(*op[1])
    if op[0] == 'get':
        a = store.getAssociation(op[1], op[2])
        return a and fields(a)
    if op[0] == 'clean':
        return store.cleanup()
    FileOpenIDStore(d)


def child(d, ops, crash_at, opcodes):
    """Run in a forked process; returns (number of traced points, results of completed operations) or what was done before the crash."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            store = None if ops[0][0] == 'open' else FileOpenIDStore(d)
            count = [0]

            def point():
                count[0] += 1
                if count[0] == crash_at:
                    os._exit(0)

            def local(frame, event, arg):
                if event == 'line' or event == 'opcode':
                    point()
                return local

            def glob(frame, event, arg):
                if not frame.f_code.co_filename.startswith(sched.ROOT):
                    return None
                if opcodes:
                    frame.f_trace_opcodes = True
                return local

            for op in ops:
                sys.settrace(glob)
                try:
                    result = perform(store, op, d)
                finally:
                    sys.settrace(None)
                if store is None:
                    store = FileOpenIDStore(d)
                os.write(w, pickle.dumps(('done', result)))
            os.write(w, pickle.dumps(('points', count[0])))
        except BaseException as e:   # noqa: B902
            sys.settrace(None)
            os.write(w, pickle.dumps(('raised', repr(e))))
        finally:
            os._exit(0)
    os.close(w)
    out = []
    with os.fdopen(r, 'rb') as f:
        while True:
            try:
                out.append(pickle.load(f))
            except EOFError:
                break
    os.waitpid(pid, 0)
    require(not any(k == 'raised' for k, _ in out), 'an operation raised', operations=[str(o) for o in ops], got=str(out))
    points = [v for k, v in out if k == 'points']
    return (points[0] if points else None), [v for k, v in out if k == 'done']


def after(d, ops, done, assocs, used):
    """Possible contents: {(url, handle): set of allowed values}, nonces that must be refused, nonces that may go either way."""
    allowed = {k: {v} for k, v in assocs.items()}
    must = set(used)
    open_nonces = set()
    for i, op in enumerate(ops):
        if i > len(done):
            break
        complete = i < len(done)
        if op[0] == 'store':
            k = (op[1], op[2].handle)
            v = {fields(op[2])}
            allowed[k] = v if complete else allowed.get(k, {None}) | v
        elif op[0] == 'remove':
            k = (op[1], op[2])
            allowed[k] = {None} if complete else allowed.get(k, {None}) | {None}
            if complete:
                allowed[k] = {None}
        elif op[0] == 'nonce':
            if complete:
                require(done[i] is True, 'a new nonce was refused', nonce=op[1])
                must.add(op[1])
            else:
                open_nonces.add(op[1])
    return allowed, must, open_nonces


def works(store, rng, urls, tag):
    """The store is fully usable."""
    a = make(rng, 'fresh-' + tag)
    u = rng.choice(urls)
    store.storeAssociation(u, a)
    got = store.getAssociation(u, a.handle)
    require(got is not None and fields(got) == fields(a), 'the store lost an association stored after recovery')
    require(store.removeAssociation(u, a.handle), 'the store can not remove after recovery')
    k = (u, int(clock.now), 'fresh-' + tag)
    require(store.useNonce(*k) and not store.useNonce(*k), 'nonces do not work after recovery')
    store.cleanup()
    require(not store.useNonce(*k), 'a nonce was accepted twice')


def crash(rng, ctx):
    base = scratch()
    try:
        urls = [server_url(rng) for _ in range(2)]
        handles = [handle(rng) for _ in range(2)]
        d = os.path.join(base, 'store')
        assocs, used = build(rng, d, urls, handles)
        ops = plan(rng, urls, handles, used)
        opcodes = rng.random() < .3
        work = os.path.join(base, 'work')
        shutil.copytree(d, work)
        points, done = child(work, ops, -1, opcodes)
        shutil.rmtree(work)
        require(points is not None and len(done) == len(ops), 'the operations did not finish', operations=[str(o) for o in ops])
        wanted = range(1, points + 1)
        most = 12 if ctx.tier == 'quick' else 80
        if len(wanted) > most:
            wanted = sorted(set(rng.sample(wanted, most - most // 3) + rng.sample(list(wanted)[-max(most, points // 6):], most // 3)))
        for k in wanted:
            shutil.copytree(d, work)
            _, done = child(work, ops, k, opcodes)
            ctx.event('crashes')
            allowed, must, either = after(work, ops, done, assocs, used)
            data = dict(operations=[str(o) for o in ops], completed=len(done), crash_point=k)
            store = FileOpenIDStore(work)
            if rng.random() < .2:
                store.cleanup()
            outcome = []
            for (u, h), values in allowed.items():
                got = store.getAssociation(u, h)
                got = got and fields(got)
                require(got in values, 'after a crash an association is %s' % ('lost' if got is None else 'changed'), url=u, handle=h, got=got, allowed=list(values), **data)
                if len(values) > 1:
                    old = assocs.get((u, h))
                    ctx.event('recovered_old' if got == old else 'recovered_new')
                    outcome.append(got == old)
            for u in urls:
                values = [v for (x, _), vs in allowed.items() if x == u for v in vs if v is not None]
                got = store.getAssociation(u)
                require(got is None or fields(got) in values, 'after a crash an unknown association is served', url=u, got=got and fields(got), **data)
                if got is None:
                    require(all(None in vs for (x, _), vs in allowed.items() if x == u), 'after a crash no association is found', url=u, **data)
            for n in must:
                require(not store.useNonce(*n), 'after a crash a used nonce is accepted again', nonce=n, **data)
            for n in either:
                store.useNonce(*n)
                require(not store.useNonce(*n), 'a nonce is accepted twice after a crash', nonce=n, **data)
            works(store, rng, urls, str(k))
            shutil.rmtree(work)
            ctx.state('crash', ops[min(len(done), len(ops) - 1)][0], len(done), k, opcodes, tuple(outcome))
    finally:
        shutil.rmtree(base, ignore_errors=True)


FORMAT = re.compile(r'\Aversion:2\nhandle:([^\n]*)\nsecret:([A-Za-z0-9+/]*=*)\nissued:(-?[0-9]+)\nlifetime:(-?[0-9]+)\nassoc_type:(HMAC-SHA1|HMAC-SHA256)\n\Z')


def reference(content):
    """The association a file content is, if it is a complete one."""
    try:
        m = FORMAT.match(content.decode('utf-8'))
        if m:
            return (m.group(1), base64.b64decode(m.group(2), validate=True), int(m.group(3)), int(m.group(4)), m.group(5))
    except ValueError:
        pass
    return None


def damage(rng, ctx):
    base = scratch()
    try:
        urls = [server_url(rng) for _ in range(2)]
        handles = [handle(rng) for _ in range(3)]
        d = os.path.join(base, 'store')
        assocs, used = build(rng, d, urls, handles)
        store = FileOpenIDStore(d)
        adir = os.path.join(d, 'associations')
        # which file holds which association
        where = {}
        for name in os.listdir(adir):
            with open(os.path.join(adir, name), 'rb') as f:
                where.setdefault(f.read(), []).append(name)
        own = {}
        for k in assocs:
            before = set(os.listdir(adir))
            store.removeAssociation(*k)
            gone = before - set(os.listdir(adir))
            require(len(gone) == 1, 'removing one association removed %d files' % len(gone))
            own[k] = gone.pop()
            store.storeAssociation(k[0], Association(*assocs[k]))
        hit = {}
        for k in assocs:
            if rng.random() < .6:
                path = os.path.join(adir, own[k])
                with open(path, 'rb') as f:
                    data = f.read()
                kind = rng.choice(['cut', 'cut', 'cut', 'empty', 'garbage', 'binary', 'append', 'double', 'version', 'flip', 'lines', 'nul', 'crlf', 'type', 'number'])
                new = {'cut': lambda: data[:rng.randrange(len(data))], 'empty': lambda: b'', 'garbage': lambda: gen.text(rng, 0, 20, newline=True).encode(),
                       'binary': lambda: bytes(rng.randrange(256) for _ in range(rng.randint(1, 200))), 'append': lambda: data + rng.choice([b'x', b'\n', b'x:y\n', data[:9]]),
                       'double': lambda: data + data, 'version': lambda: data.replace(b'version:2', rng.choice([b'version:1', b'version:', b'version:22'])),
                       'flip': lambda: flip(rng, data), 'lines': lambda: shuffled(rng, data), 'nul': lambda: b'\0' * len(data), 'crlf': lambda: data.replace(b'\n', b'\r\n'),
                       'type': lambda: data.replace(b'HMAC-SHA', b'HMAC-MD'),
                       'number': lambda: re.sub(b'issued:[^\n]*', b'issued:' + rng.choice([b'', b'x', b'1.5', b'9' * 5000, b'0x1', b'1 2']), data)}[kind]()
                with open(path, 'wb') as f:
                    f.write(new)
                hit[k] = (kind, new, data)
        for sub in ('associations', 'nonces', 'temp', ''):
            for _ in range(rng.randint(0, 2)):
                name = rng.choice(['README', '.hidden', 'x', 'http-example', gen.word(rng), '00000000-x', 'zzz-' + gen.word(rng), '-', 'core.1234', 'lock',
                                   rng.choice(sorted(own.values())) + rng.choice(['~', '.bak', 'x'])])
                if not os.path.exists(os.path.join(d, sub, name)):
                    with open(os.path.join(d, sub, name), 'wb') as f:
                        f.write(rng.choice([b'', b'hello', bytes(range(256)), b'version:2\n']))
        store = FileOpenIDStore(d)
        steps = ['handle', 'newest', 'clean']
        rng.shuffle(steps)
        for step in steps:
            if step == 'clean':
                store.cleanup()
                store.cleanupAssociations()
                store.cleanupNonces()
            for k, stored in assocs.items():
                if step == 'handle':
                    got = store.getAssociation(*k)
                elif step == 'newest':
                    got = store.getAssociation(k[0])
                else:
                    continue
                got = got and fields(got)
                whole = [v for j, v in assocs.items() if j[0] == k[0] and j not in hit]
                if step == 'handle' and k not in hit:
                    require(got == stored, 'damage of another file changed the answer', url=k[0], handle=k[1], got=got, stored=stored)
                elif step == 'handle':
                    kind, new, data = hit[k]
                    ref = reference(new)
                    require(got is None or got == ref or got == stored, 'a damaged file was returned as association', damage=kind, content=new, got=got)
                    if kind == 'cut':
                        require(got is None, 'a truncated file was returned as association', content=new, got=got)
                    ctx.event('damaged')
                    ctx.state('damage', kind, got is None)
                else:
                    maybe = [v for j, h in hit.items() if j[0] == k[0] and h[0] != 'cut' for v in (reference(h[1]), assocs[j]) if v]
                    require(got in whole or (got is not None and got in maybe) or (got is None and not whole), 'not an association of the server, or none though one is whole',
                            url=k[0], got=got, whole=whole)
                    if whole and not any(maybe):
                        require(got[2] == max(v[2] for v in whole), 'not the newest whole association', got=got, whole=whole)
        for n in used:
            require(not store.useNonce(*n), 'a used nonce is accepted again', nonce=n)
        for k in hit:
            a = make(rng, k[1])
            store.storeAssociation(k[0], a)
            got = store.getAssociation(*k)
            require(got is not None and fields(got) == fields(a), 'a damaged entry can not be replaced', url=k[0], handle=k[1])
        works(store, rng, urls, 'd')
    finally:
        shutil.rmtree(base, ignore_errors=True)


def flip(rng, data):
    i = rng.randrange(len(data))
    return data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]


def shuffled(rng, data):
    lines = data.split(b'\n')[:-1]
    k = rng.randrange(3)
    if k == 0:
        lines = lines[1:] + lines[:1]
    elif k == 1:
        del lines[rng.randrange(len(lines))]
    else:
        lines.insert(rng.randrange(len(lines)), lines[rng.randrange(len(lines))])
    return b'\n'.join(lines) + b'\n'


def reader(rng, ctx):
    """A reader interleaved with writers sees complete associations only, and always one."""
    base = scratch()
    try:
        d = os.path.join(base, 'store')
        u, h = server_url(rng), handle(rng)
        first = make(rng, h)
        FileOpenIDStore(d).storeAssociation(u, first)
        versions = [first] + [make(rng, h) for _ in range(rng.randint(1, 4))]
        ok = [fields(v) for v in versions]
        seen = []
        n = rng.choice([1, 1, 2])
        stores = [FileOpenIDStore(d) for _ in range(n + 1)]

        def write(s, vs):
            for v in vs:
                s.storeAssociation(u, v)

        def read():
            for _ in range(rng.choice([3, 6])):
                a = stores[-1].getAssociation(*rng.choice([(u, h), (u,)]))
                seen.append(a and fields(a))

        parts = [versions[1 + i::n] for i in range(n)]
        jobs = [lambda s=s, vs=vs: write(s, vs) for s, vs in zip(stores, parts)] + [read, read]
        if rng.random() < .3:
            jobs.append(lambda: FileOpenIDStore(d).cleanup())
        control = sched.Scheduler(rng, prob=rng.choice([.1, .3, .6, 'quanta', 'quanta', 'quanta']), opcodes=rng.random() < .4)
        for r in control.run(jobs):
            require(r[0] == 'ok', 'a concurrent operation raised %r' % (r[1],), schedule=control.trace[:60])
        for s in seen:
            require(s in ok, 'a concurrent reader saw %s' % ('no association' if s is None else 'a mixed association'), got=s, schedule=control.trace[:60])
        ctx.event('reads', len(seen))
        ctx.state('reader', n, tuple(control.trace[:40]))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def faults(rng, ctx):
    """Operations failing with I/O errors leave the store in order; data are synced before they are renamed into place."""
    base = scratch()
    try:
        d = os.path.join(base, 'store')
        urls = [server_url(rng) for _ in range(2)]
        handles = [handle(rng) for _ in range(2)]
        assocs, used = build(rng, d, urls, handles)
        store = FileOpenIDStore(d)
        del _bad[:]
        _synced.clear()
        _renames[0] = 0
        _watch.append(d)
        try:
            for _ in range(6):
                u, h = rng.choice(urls), rng.choice(handles)
                a = make(rng, h)
                what = rng.choice(['none', 'fsync', 'rename'])
                if what != 'none':
                    _faults.append(what)
                try:
                    store.storeAssociation(u, a)
                    failed = False
                except OSError:
                    failed = True
                    require(what != 'none', 'storing an association failed')
                finally:
                    del _faults[:]
                got = store.getAssociation(u, h)
                got = got and fields(got)
                if failed:
                    require(got in (assocs.get((u, h)), fields(a)), 'after a failed operation an association is %s' % ('lost' if got is None else 'mixed'), got=got, fault=what)
                    ctx.event('faults')
                else:
                    require(got == fields(a), 'a stored association is not returned', got=got)
                assocs[u, h] = got
                ctx.state('fault', what, failed, got == fields(a))
        finally:
            del _watch[:]
        require(not _bad, 'an association file was renamed into place before its content was synced', files=_bad[:2])
        ctx.event('synced_renames', _renames[0])
        for (u, h), f in assocs.items():
            got = store.getAssociation(u, h)
            require((got and fields(got)) == f, 'an association changed', url=u, handle=h)
        works(FileOpenIDStore(d), rng, urls, 'f')
    finally:
        shutil.rmtree(base, ignore_errors=True)


def files(d):
    return sorted(os.path.join(p, n) for p, _, ns in os.walk(d) for n in ns)


def outage(rng, ctx):
    """Any single call of the operating system fails: the error is reported, nothing else changes, nothing is left over."""
    base = scratch()
    try:
        d = os.path.join(base, 'store')
        urls = [server_url(rng) for _ in range(2)]
        handles = [handle(rng) for _ in range(2)]
        assocs, used = build(rng, d, urls, handles)
        store = FileOpenIDStore(d)
        possible = {k: {v} for k, v in assocs.items()}
        for _ in range(rng.choice([2, 4, 8])):
            op = rng.choice(plan(rng, urls, handles, used))
            if op[0] == 'nonce' and used and rng.random() < .3:
                op = ('nonce', rng.choice(sorted(used)))
            k = (op[1], op[2].handle if op[0] == 'store' else op[2]) if op[0] in ('store', 'remove', 'get') else None
            left = set(files(os.path.join(d, 'temp')))
            _errno[0] = rng.choice([errno.EIO, errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS])
            _nth[0] = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])
            del _failed[:]
            try:
                result, error = perform(store, op, d), None
            except OSError as e:
                result, error = None, e
            finally:
                _nth[0] = 0
            where = _failed[0] if _failed else None
            data = dict(operation=str(op), failed_call=where, error=repr(error))
            require(error is None or where, 'an operation failed by itself', **data)
            old = possible.get(k, {None})
            if op[0] == 'store':
                possible[k] = {fields(op[2])} if error is None else old | {fields(op[2])}
            elif op[0] == 'remove':
                if error is None:
                    require(bool(result) in {v is not None for v in old}, 'wrong answer of remove', possible=list(old), **data)
                possible[k] = {None} if error is None else old | {None}
            elif op[0] == 'nonce':
                require(error is not None or result is (op[1] not in used), 'wrong answer about a nonce', nonce=op[1], got=result, **data)
                if error is None:
                    used.add(op[1])
                else:
                    # it may be spent, but it is never accepted twice
                    store.useNonce(*op[1])
                    used.add(op[1])
            elif op[0] == 'get' and error is None:
                if op[2] is not None:
                    require(result in old, 'wrong answer', got=result, possible=list(old), **data)
                else:
                    whole = [vs for (x, _), vs in possible.items() if x == op[1]]
                    require(result in {v for vs in whole for v in vs} if result is not None else all(None in vs for vs in whole), 'wrong answer', got=result, **data)
            if error is not None and 'unlink' != where != 'remove':
                extra = set(files(os.path.join(d, 'temp'))) - left
                require(not extra, 'a failed operation left a temporary file', files=sorted(extra), **data)
            for (u, h), values in sorted(possible.items(), key=repr):
                got = store.getAssociation(u, h)
                got = got and fields(got)
                require(got in values, 'after a failed operation an association is %s' % ('lost' if got is None else 'changed'), url=u, handle=h, got=got, possible=list(values), **data)
                possible[u, h] = {got}
            for n in sorted(used):
                require(not store.useNonce(*n), 'a used nonce is accepted again', nonce=n, **data)
            ctx.event('outages', int(error is not None))
            ctx.state('outage', op[0], where, error is None, _errno[0])
        works(FileOpenIDStore(d), rng, urls, 'o')
    finally:
        _nth[0] = 0
        shutil.rmtree(base, ignore_errors=True)


SCENARIOS = [('crash', crash, 420, 2500), ('damage', damage, 1100, 20000), ('reader', reader, 560, 8000), ('faults', faults, 110, 2000), ('outage', outage, 2100, 30000)]
