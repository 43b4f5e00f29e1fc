"""C18: the file store stays inside its directory and keeps entries apart."""
import os
import shutil
import stat
import sys

from openid.association import Association
from openid.store.filestore import FileOpenIDStore

from lib import gen
from lib.core import require
from lib.vclock import clock
from lib.world import scratch
from checks.c15 import fields, handle, secret, server_url

PROP = 'C18'
TECHNIQUE = ('runtime monitoring: interpreter audit hook watching (and blocking outside of the scratch directory) every file operation of the store, plus a '
             'one-to-one checker over hostile and near-colliding addresses, handles and nonces')
LEVEL_NOTE = 'Random hostile and related values; every file operation of the interpreter during store calls is seen by the hook, independent of how it is made.'
RULE = 'a case is a batch of operations on one store directory; counted distinct: (kind of value, operation, file event) and (relation of the two entries, operation)'
NEED = {'file_events': 20000, 'entries': 3000, 'nonces': 3000, 'pairs': 1500, 'relative': 50}
ASSUMPTIONS = ['no lone surrogates in values', 'case-sensitive POSIX file system']

_root = []
_events = []
_ok = []


def _hook(event, args):
    if not _root:
        return
    if event == 'open':
        paths, write = [args[0]], bool(args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) if isinstance(args[2], int) else True
    elif event in ('os.rename', 'os.link'):
        paths, write = [args[0], args[1]], True
    elif event == 'os.symlink':
        paths, write = [args[1]], True
    elif event in ('os.remove', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'os.setxattr', 'shutil.rmtree', 'os.listdir', 'os.scandir',
                   'tempfile.mkdtemp'):
        paths, write = [args[0]], True
    elif event.startswith('shutil.') or event in ('os.system', 'os.exec', 'os.posix_spawn', 'subprocess.Popen'):
        _events.append((event, 'other', False))
        raise PermissionError('blocked: %s' % event)
    else:
        return
    for p in paths:
        if isinstance(p, int):
            continue
        q = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(p)))
        inside = q == _root[0] or q.startswith(_root[0] + os.sep)
        if not inside and not write and any(q.startswith(x) for x in _ok):
            continue            # the interpreter loading its own modules
        _events.append((event, q, inside))
        if not inside:
            raise PermissionError('blocked: %s %s' % (event, q))


_installed = []


def worker_init(ctx):
    if not _installed:
        _installed.append(1)
        _ok.extend(os.path.realpath(p) + os.sep for p in sys.path + [sys.prefix, sys.base_prefix] if p and os.path.isdir(p))
        _ok.append('/usr/lib/python3')
        sys.addaudithook(_hook)


class Watched(object):
    """Calls of a store whose file events are recorded; outside its directory they are blocked and reported."""

    def __init__(self, ctx, d, arg=None):
        self.ctx = ctx
        self.d = os.path.realpath(os.path.dirname(d)) + os.sep + os.path.basename(d)
        self.base = os.path.realpath(os.path.dirname(d))
        self.store = self.run(FileOpenIDStore, arg or d)

    def run(self, func, *args):
        del _events[:]
        _root.append(self.d)
        error = None
        try:
            return func(*args)
        except (OSError, ValueError) as e:
            error = e
        finally:
            del _root[:]
            bad = [e for e in _events if not e[2]]
            require(not bad, 'a file outside of the store directory was touched', event=bad[:3], arguments=[str(a)[:300] for a in args])
            require(error is None, 'the store failed: %r' % (error,), arguments=[str(a)[:600] for a in args])
            for e in _events:
                require(len(os.path.basename(e[1]).encode()) <= 255, 'file name too long')
            self.ctx.event('file_events', len(_events))
            for e in _events[:6]:
                self.ctx.state('event', e[0], os.path.relpath(e[1], self.d).split(os.sep)[0])

    def __getattr__(self, name):
        func = getattr(self.store, name)
        return lambda *a: self.run(func, *a)


def hostile(rng):
    return rng.choice([
        '../../../../tmp/x', '/etc/passwd', '..', '.', '', '/', '//', '\\..\\x', '%2e%2e/x', 'a/../../b', '\x00', 'a\x00/../b', '\n', 'a\nb', 'con', 'a' * 5000, '\u00e9' * 400,
        '\U0001f600' * 100, '../' * 50, '~root', '$HOME', '`id`', '|', '*', '?', ' ', '\t', '-', '--', '-rf', '_2F..', '..\x00', '\u2215..\u2215', '\uff0e\uff0e/', 'x/', '/x'])


def url_value(rng):
    r = rng.random()
    if r < .3:
        return server_url(rng)
    h = hostile(rng)
    return rng.choice([h, 'http://' + h, 'http://' + h + '/', h + '://x/', 'http://example.com/' + h, 'http://example.com' + h, h + '://' + h, '../../../x://y/', '/tmp/x://a/',
                       'file://' + h, 'a/b://c/d', '../../x-y-z://', 'http://../../../../tmp/x', '/' * 300 + '://' + h, gen.text(rng, 0, 10, newline=True, nul=True)])


def handle_value(rng):
    return rng.choice([handle(rng), (hostile(rng).replace('\n', '').strip() or 'h'), (gen.text(rng, 1, 8).strip() or 'h')])


def related(rng, u, h):
    """An entry that a careless encoding would confuse with (u, h)."""
    kind = rng.choice(['case', 'delimiter', 'escape', 'suffix', 'space', 'tail', 'swap', 'nul', 'unicode', 'path', 'empty', 'handle', 'long'])
    if kind == 'case':
        return kind, rng.choice([u.swapcase(), u]), h.swapcase()
    if kind == 'delimiter':
        return kind, u + '-' + h, rng.choice([h, 'x'])
    if kind == 'escape':
        return kind, u.replace('/', '_2F').replace(':', '_3A'), h
    if kind == 'suffix':
        return kind, u + rng.choice(['/', '?', '#', 'x', '.']), h
    if kind == 'space':
        return kind, u + ' ', h
    if kind == 'tail':
        return kind, u[:-1] + 'q', h
    if kind == 'swap':
        return kind, h, u.replace('\n', '').strip() or 'h'
    if kind == 'nul':
        return kind, u + '\x00', h
    if kind == 'unicode':
        return kind, u + '\u00e9', h
    if kind == 'path':
        return kind, u.replace('://', '://x/../', 1), h
    if kind == 'empty':
        return kind, '', h
    if kind == 'handle':
        return kind, u, rng.choice([h + 'x', h[:-1] or 'z', h + '-', h + '\u00e9', '_' + h])
    return kind, u + 'y' * rng.choice([100, 300]), h


def assoc(rng, h):
    t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
    return Association(h, secret(rng, t), int(clock.now) - rng.randrange(100), 10 ** 6, t)


def entries(rng, ctx):
    base = scratch()
    try:
        d = os.path.join(base, rng.choice(['store', 'a b', 'x.y', '\u00e9']))
        outside = os.path.join(base, 'victim')
        with open(outside, 'w') as f:
            f.write('untouched')
        store = Watched(ctx, d)
        model = {}
        pairs = []
        for _ in range(rng.randint(3, 8)):
            u, h = url_value(rng), handle_value(rng)
            pairs.append((u, h))
            for _ in range(rng.randint(0, 3)):
                kind, u2, h2 = related(rng, u, h)
                h2 = h2.strip().replace('\n', '') or 'h'
                if rng.random() < .5:
                    # the other one is not there yet
                    before = store.getAssociation(u2, h2)
                    require((before and fields(before)) == model.get((u2, h2)), 'an entry is visible under another name', stored=list(map(repr, model)), asked=(u2, h2))
                pairs.append((u2, h2))
                ctx.event('pairs')
                ctx.state('pair', kind)
            for k in pairs[-3:]:
                a = assoc(rng, k[1])
                store.storeAssociation(k[0], a)
                model[k] = fields(a)
                ctx.event('entries')
                names = [os.path.join(x[0], y) for x in os.walk(d) for y in x[2]]
                for name in names:
                    mode = os.stat(name).st_mode
                    require(stat.S_IMODE(mode) & 0o077 == 0, 'a file is accessible to others', file=name, mode=oct(mode))
        for k, f in model.items():
            got = store.getAssociation(*k)
            require(got is not None and fields(got) == f, 'an entry was %s by another' % ('removed' if got is None else 'overwritten'), entry=k, got=got and fields(got), stored=f)
        for u in sorted(set(k[0] for k in model) | {url_value(rng)}):
            got = store.getAssociation(u)
            mine = [f for k, f in model.items() if k[0] == u]
            require((got and fields(got)) in (mine or [None]), 'an entry of another server was returned', url=u, got=got and fields(got), mine=mine)
        for k in rng.sample(sorted(model), min(3, len(model))):
            require(store.removeAssociation(*k), 'an entry could not be removed', entry=k)
            del model[k]
            for j, f in model.items():
                got = store.getAssociation(*j)
                require(got is not None and fields(got) == f, 'removing an entry removed another', removed=k, other=j)
        for _ in range(3):
            u, h = url_value(rng), handle_value(rng)
            if (u, h) not in model:
                require(not store.removeAssociation(u, h), 'removing nothing reported something', entry=(u, h))
        store.cleanup()
        for j, f in model.items():
            got = store.getAssociation(*j)
            require(got is not None and fields(got) == f, 'clean-up removed an entry', other=j)
        with open(outside) as f:
            require(f.read() == 'untouched' and sorted(os.listdir(base)) == sorted([os.path.basename(d), 'victim']), 'something appeared outside', found=os.listdir(base))
    finally:
        del _root[:]
        shutil.rmtree(base, ignore_errors=True)


def nonces(rng, ctx):
    base = scratch()
    try:
        d = os.path.join(base, 'store')
        store = Watched(ctx, d)
        now = int(clock.now)
        used = set()
        for _ in range(rng.randint(5, 15)):
            u = url_value(rng)
            salt = rng.choice([hostile(rng), gen.word(rng, 6, 6), gen.text(rng, 0, 8, newline=True, nul=True), 'x' * 300])
            ts = now + rng.choice([0, 0, 1, -1, 16, 256, 4096, -18000, 18000])
            group = [(u, ts, salt)]
            for _ in range(rng.randint(0, 4)):
                _, u2, s2 = related(rng, u, salt or 'x')
                group.append(rng.choice([(u2, ts, salt), (u, ts, s2), (u, ts + 1, salt), (u + '-' + salt, ts, ''), ('', ts, u + salt), (u, ts, salt + ' '), (u, ts, salt.swapcase()),
                                         (u.swapcase(), ts, salt), (u + salt, ts, ''), (u2, ts, s2)]))
            for k in group:
                if abs(k[1] - now) > 18000:
                    continue
                got = store.useNonce(*k)
                require(bool(got) == (k not in used), 'a nonce was %s' % ('accepted twice' if got else 'confused with another'), nonce=k, used=[list(x) for x in used][-8:])
                used.add(k)
                ctx.event('nonces')
        store.cleanupNonces()
        for k in sorted(used):
            require(not store.useNonce(*k), 'a nonce was accepted twice', nonce=k)
        require(os.listdir(base) == ['store'], 'something appeared outside', found=os.listdir(base))
    finally:
        del _root[:]
        shutil.rmtree(base, ignore_errors=True)


def directory(rng, ctx):
    """The directory given is the one used, whatever the current directory becomes."""
    base = os.path.realpath(scratch())
    cwd = os.getcwd()
    try:
        os.mkdir(base + '/work')
        os.mkdir(base + '/work/sub')
        os.mkdir(base + '/else')
        os.chdir(base + '/work')
        arg, real = rng.choice([('store', 'work/store'), ('./store', 'work/store'), ('../store', 'store'), ('sub/../store', 'work/store'), ('store/', 'work/store'),
                                ('sub//store', 'work/sub/store'), (base + '/x', 'x'), (base + '/work/../y', 'y'), ('.', 'work'), ('deep/er/store', 'work/deep/er/store')])
        d = base + '/' + real
        if 'deep' in arg:
            os.makedirs(d)
        store = Watched(ctx, d, arg)
        os.chdir(base + '/else')
        a = assoc(rng, 'h')
        store.storeAssociation('http://a/', a)
        require(store.useNonce('http://a/', int(clock.now), 's'), 'nonce refused')
        other = Watched(ctx, d)
        got = other.getAssociation('http://a/', 'h')
        require(got is not None and fields(got) == fields(a), 'not in the directory given', given=arg)
        require(not other.useNonce('http://a/', int(clock.now), 's'), 'nonce not in the directory given', given=arg)
        require(os.listdir(base + '/else') == [], 'files in the current directory', found=os.listdir(base + '/else'))
        ctx.event('relative')
        ctx.state('directory', arg.replace(base, ''))
    finally:
        os.chdir(cwd)
        del _root[:]
        shutil.rmtree(base, ignore_errors=True)


SCENARIOS = [('entries', entries, 4300, 21500), ('nonces', nonces, 2900, 15000), ('directory', directory, 290, 1450)]
