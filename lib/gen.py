"""Input generators.

Besides fixed pools of awkward material, the generators draw on the literals found in the source of the
code under test at run time, so that values the code treats specially are tried whatever they are.
"""
import ast
import os

from lib.core import REPO

_cache = {}


def _harvest():
    if _cache:
        return _cache
    strings, ints = set(), set()
    root = os.path.join(REPO, 'openid')
    for base, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if d not in ('test', 'tests')]
        for name in files:
            if not name.endswith('.py') or name.startswith('test_'):
                continue
            try:
                with open(os.path.join(base, name), encoding='utf-8') as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError, OSError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, bytes):
                        try:
                            v = v.decode('utf-8')
                        except UnicodeDecodeError:
                            continue
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 60 and '\n' not in v and '\r' not in v:
                        strings.add(v)
                elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Mult, ast.Pow, ast.LShift)):
                    try:
                        v = eval(compile(ast.Expression(node), '?', 'eval'), {'__builtins__': {}})
                    except Exception:
                        continue
                    if isinstance(v, int) and abs(v) < 10 ** 12:
                        ints.add(v)
    _cache['strings'] = sorted(strings)
    _cache['ints'] = sorted(ints)
    return _cache


def lit(rng):
    """A text literal of the code under test."""
    return rng.choice(_harvest()['strings'])


def short_lit(rng):
    for _ in range(20):
        s = lit(rng)
        if len(s) <= 16 and ' ' not in s:
            return s
    return 'x'


def lit_int(rng, lo=0, hi=10 ** 7):
    """An integer literal of the code under test, or a neighbour."""
    pool = [i for i in _harvest()['ints'] if lo <= i <= hi] or [lo]
    return min(hi, max(lo, rng.choice(pool) + rng.choice((-1, 0, 0, 1))))


ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
AWKWARD = [' ', '  ', '"', "'", '<', '>', '&', '&amp;', ';', '%', '%41', '%2F', '%', '+', '=', '?', '#', '/', '\\', ',',
           '.', '..', '-', '_', '~', '!', '*', '(', ')', '[', ']', '{', '}', '|', '^', '`', '$', '@', ':', '\t',
           '\u00e9', '\u010d', '\u4e2d\u6587', '\U0001f600', '\u0130', '\u00df', '\u2028', '\u00a0', '\u0085', '\x0b',
           '\x0c', '\x1c', '\x7f', '\x01', 'A', 'a', '0', 'openid.', 'ns.', '<script>', '"/><x y="', '\u202e', '\ufeff']


def word(rng, lo=1, hi=8, chars=ALNUM):
    return ''.join(rng.choice(chars) for _ in range(rng.randint(lo, hi)))


def text(rng, lo=0, hi=12, newline=False, nul=False, strip=False):
    """Awkward text."""
    n = rng.randint(lo, hi)
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            out.append(word(rng, 1, 3))
        elif r < 0.9:
            out.append(rng.choice(AWKWARD))
        elif r < 0.95:
            out.append(short_lit(rng))
        elif newline and r < 0.98:
            out.append(rng.choice(['\n', '\r\n', '\r']))
        else:
            out.append(chr(rng.choice([rng.randint(0x20, 0x7e), rng.randint(0xa1, 0x2fff), rng.randint(0x10000, 0x1ffff)])))
    s = ''.join(out)
    if not nul:
        s = s.replace('\x00', '')
    if not newline:
        s = s.replace('\n', '').replace('\r', '')
    if strip:
        s = s.strip()
    s = ''.join(c for c in s if not 0xd800 <= ord(c) < 0xe000)
    if lo and not s:
        s = 'x'
    return s


def bulk(rng, p=.01, hi=600):
    """Usually 0; sometimes the size of an unusually large input (just beyond round numbers and numbers in the code)."""
    if rng.random() >= p:
        return 0
    if rng.random() < .5:
        return min(hi, rng.choice([12, 17, 22, 33, 52, 65, 101, 130, 202, 257, 513, 1030, 2050, 4100, 9000, 17000, 66000]))
    return max(8, lit_int(rng, 8, hi))


def long_text(rng, hi=66000):
    n = max(300, bulk(rng, 1, hi))
    return (word(rng, 1, 3) + rng.choice(['', ' ', '\u00e9', '&', '/'])) * (n // 3) + word(rng, 3, 6)


LABELS = ['example', 'rp', 'op', 'www', 'evil', 'good', 'a', 'b', 'x1', 'foo-bar', 'xn--e1afmkfd', 'id', 'login', 'blog']
TLDS = ['com', 'org', 'net', 'cz', 'uk', 'info', 'test', 'invalid']


def host(rng):
    n = rng.choice((1, 2, 2, 3))
    return '.'.join([rng.choice(LABELS) if rng.random() < 0.8 else word(rng, 1, 6).lower() for _ in range(n)]
                    + [rng.choice(TLDS)])


PATHS = ['', '/', '/a', '/a/', '/a/b', '/cb', '/openid/return', '/~user', '/a.b', '/user/joe', '/x-y_z', '/%C3%A9', '/a%20b', '/A']


def path(rng):
    r = rng.random()
    if r < 0.7:
        return rng.choice(PATHS)
    return '/' + '/'.join(word(rng, 1, 5) for _ in range(rng.randint(1, 3)))


def query_pairs(rng, hi=3):
    return [(word(rng, 1, 4), text(rng, 0, 4)) for _ in range(rng.randint(0, hi))]


def port(rng):
    return rng.choice(['', '', '', ':8080', ':8443', ':81', ':1'])


def url(rng, query=True, scheme=None):
    from urllib.parse import urlencode
    u = '%s://%s%s%s' % (scheme or rng.choice(['http', 'https']), host(rng), port(rng), path(rng))
    if query and rng.random() < 0.4:
        q = urlencode(query_pairs(rng))
        if q:
            if u.count('/') < 3:
                u += '/'
            u += '?' + q
    return u


def sublist(rng, items):
    return [x for x in items if rng.random() < 0.5]
