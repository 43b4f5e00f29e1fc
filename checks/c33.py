"""C33: nonces are well-formed, current, unpredictable and read back exactly."""
import copy
import os
import random
import re
import threading
import time

from openid.store import nonce as nonce_mod

from lib import gen
from lib.core import require
from lib.vclock import EPOCH, clock
from lib.world import RP, T_10, T_11, T_20, Net, SimOP, Stores, url_args, xrds

PROP = 'C33'
TECHNIQUE = ('runtime monitoring: every nonce made under frozen clocks, odd time zones, reseeded generators, threads and forked processes is parsed with an own reader and entered into an '
             'occurrence table with frequency bounds; verdicts on generated nonce strings are compared with a calendar computed independently')
LEVEL_NOTE = 'Samples of nonces and strings; evenness is watched with bounds that chance exceeds less than once in 10^9 runs. Sampling.'
RULE = 'a case is a batch of nonces or 60 strings; counted distinct: (part, kind of string or source, verdict, time zone)'
NEED = {'made': 60000, 'forked': 2000, 'threads': 2000, 'reseeded': 4000, 'well-formed': 8000, 'malformed': 8000, 'window': 8000, 'at the limit': 2000, 'provider': 500, 'relying party': 400, 'zones': 200}
ASSUMPTIONS = ['five hours of allowed skew', 'loose spellings of times (single digits, lower case, blanks, leap seconds) are open']

SKEW = 5 * 3600
LAST = 253402300799
ALPHABET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
FORM = re.compile(r'([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})Z([a-zA-Z0-9]{6})\Z')
LOOSE = re.compile(r'\s*\d{4}-\s*\d{1,2}-\s*\d{1,2}[tT]\s*\d{1,2}:\s*\d{1,2}:\s*\d{1,2}[zZ]\s*\Z')
ZONES = ['UTC', 'UTC0', 'EST5EDT', 'XXX-14', 'YYY12', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NST3:30NDT', 'Asia/Kolkata']
RT = 'http://rp.example.com/return'


def days(y, m, d):
    """Days since 1970 by the rules of the calendar."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def month_days(y, m):
    return [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def stamp_of(text):
    """Seconds of a strictly well-formed time, None if impossible."""
    if len(text) != 20 or not re.match(r'[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}Z\Z', text):
        return None
    y, mo, d, h, mi, s = (int(text[a:b]) for a, b in ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19)))
    if not (1 <= mo <= 12 and y >= 1 and 1 <= d <= month_days(y, mo) and h < 24 and mi < 60 and s < 60):
        return None
    out = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s
    return out if out >= 0 else None


def text_of(stamp):
    day, sec = divmod(stamp, 86400)
    y = 1970 + day // 366
    while days(y + 1, 1, 1) <= day:
        y += 1
    m = 1
    while m < 12 and days(y, m + 1, 1) <= day:
        m += 1
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (y, m, day - days(y, m, 1) + 1, sec // 3600, sec // 60 % 60, sec % 60)


def moment(rng):
    r = rng.random()
    if r < .1:
        return rng.choice([0, 1, 59, 60, 3599, 86399, 86400, 951782400, 951868799, 951868800, 4107542399, 4107542400, 2 ** 31 - 1, 2 ** 31, 2 ** 32, LAST, LAST - 1, 10 ** 9])
    if r < .4:
        y = rng.randint(1970, 9999) if rng.random() < .5 else rng.randint(1970, 2100)
        m = rng.choice([1, 2, 2, 3, 6, 12, rng.randint(1, 12)])
        d = rng.choice([1, month_days(y, m)])
        return days(y, m, d) * 86400 + rng.choice([0, 86399, 43200, rng.randrange(86400)])
    if r < .8:
        return rng.randint(0, 2 ** 32)
    return rng.randint(0, LAST)


class Zone(object):
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.name
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.old
        time.tzset()


def look(nonce, low, high, seen, **about):
    """One nonce: its form, its time, and that it is new."""
    require(isinstance(nonce, str), 'a nonce that is no text', nonce=nonce, **about)
    m = FORM.match(nonce)
    require(m, 'a nonce of another form', nonce=nonce, **about)
    when = stamp_of(nonce[:20])
    require(when is not None and low <= when <= high, 'a nonce with another time', nonce=nonce, expected=text_of(int(low)), **about)
    seen.append(nonce)


def even(salts, ctx):
    """Bounds on frequencies that an even choice stays within but for one run in billions."""
    n = len(salts)
    assert n >= 2500
    mean = n / 62.0
    low, high = max(5, mean - 8 * mean ** .5), mean + 10 * mean ** .5 + 10
    for i in range(6):
        counts = dict.fromkeys(ALPHABET, 0)
        for s in salts:
            counts[s[i]] += 1
        bad = {c: k for c, k in counts.items() if not low <= k <= high}
        require(not bad, 'characters of nonces are not drawn evenly', position=i, of=n, odd=bad)
        for j in range(i):
            same = sum(s[i] == s[j] for s in salts)
            require(low <= same <= high, 'characters of nonces depend on each other', positions=[j, i], of=n, same=same)
        following = sum(a[i] == b[i] for a, b in zip(salts, salts[1:]))
        require(low <= following <= high, 'nonces depend on the one before', position=i, of=n, same=following)
    ctx.event('even batches')


def fresh(seen):
    twice = len(seen) - len(set(seen))
    require(twice <= 1, 'nonces occur again', of=len(seen), repeated=twice, example=sorted(n for n in seen if seen.count(n) > 1)[:3] if twice else None)


def times(rng, ctx):
    """The time in a nonce is the time asked for, in any zone."""
    with Zone(rng.choice(ZONES)) as _:
        zone = os.environ['TZ']
        ctx.event('zones')
        for _ in range(60):
            now = moment(rng)
            clock.set(now + rng.choice([0, 0, .25, .999]))
            when = rng.choice([None, moment(rng), moment(rng), 0])
            n = nonce_mod.mkNonce(when) if rng.random() < .7 else nonce_mod.mkNonce(when=when)
            want = now if when is None else when
            look(n, want, want, [], when=when, zone=zone)
            require(n[:20] == text_of(want), 'another time in the nonce', nonce=n, when=want)
            got = nonce_mod.split(n)
            require(tuple(got) == (want, n[20:]), 'a nonce does not come apart as it was made', nonce=n, got=got, zone=zone)
            ctx.event('made')
            ctx.state('times', zone, when is None, want < 2 ** 31, want < 2 ** 32)


def spoil(rng, text):
    """A string near a nonce."""
    k = rng.randrange(12)
    if k == 0:
        i = rng.randrange(20)
        return 'character', text[:i] + rng.choice(['x', ' ', '0', '9', '-', ':', 'T', 'Z', '\n', '\x00', '\u0660', '\u00e9', '+', '.', '/']) + text[i + 1:]
    if k == 1:
        i = rng.randrange(20)
        return 'missing', text[:i] + text[i + 1:]
    if k == 2:
        i = rng.randrange(20)
        return 'added', text[:i] + rng.choice('0 9-:TZ\n\t') + text[i:]
    if k == 3:
        return 'short', text[:rng.randrange(20)]
    if k == 4:
        f, v = rng.choice([((5, 7), ['00', '13', '99']), ((8, 10), ['00', '30', '31', '32', '29']), ((11, 13), ['24', '25', '99']), ((14, 16), ['60', '61', '99']),
                           ((17, 19), ['62', '99', '59']), ((0, 4), ['0000', '0001', '1969', '1970', '9999', '1968'])])
        return 'field', text[:f[0]] + rng.choice(v) + text[f[1]:]
    if k == 5:
        return 'sign', rng.choice(['-', '+', ' ', '\ufeff', '%20']) + text
    if k == 6:
        return 'leap day', '%04d-02-29T%s' % (rng.choice([1900, 2000, 2001, 2004, 2100, 1972, 2400, 2023]), text[11:])
    if k == 7:
        return 'other zone', text[:19] + rng.choice(['+', '-', '+00:00', ' ', 'z', 'Y', ''])
    if k == 8:
        return 'salt', text + rng.choice(['', '!', ' ', '\n', '\u00e9\u4e2d', 'Z', '2005-01-01T00:00:00Z', 'x' * 300, '\x00', ',', '&a=b'])
    if k == 9:
        return 'word', rng.choice(['', 'Z', 'now', 'None', '0', '1700000000', text[::-1], gen.text(rng, 0, 30), gen.short_lit(rng)])
    if k == 10:
        return 'fraction', text[:19] + '.5Z'
    return 'plain', text


def strings(rng, ctx):
    with Zone(rng.choice(ZONES)):
        for _ in range(60):
            base = text_of(moment(rng))
            tail = ''.join(rng.choice(ALPHABET) for _ in range(rng.choice([0, 1, 6, 6, 20])))
            kind, text = spoil(rng, base + tail if rng.random() < .8 else base)
            head = text[:20]
            want = stamp_of(head)
            if want is None and LOOSE.match(head):
                pre = re.match(r'[0-9]{4}-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})Z\Z', head)
                if not pre or int(pre.group(5)) in (60, 61):
                    ctx.event('open')
                    continue
            try:
                got = nonce_mod.split(text)
            except ValueError:
                got = None
            now = rng.choice([0, int(want or 0), moment(rng)])
            skew = rng.choice([0, 1, 60, SKEW, SKEW, 10 ** 9, 10 ** 12])
            if want is not None and rng.random() < .7:
                now = max(0, want + rng.choice([0, 1, -1, skew, -skew, skew + 1, -skew - 1, rng.randint(-2 * skew - 1, 2 * skew + 1)]))
            if want is None:
                require(got is None, 'a malformed time is read', nonce=text, got=got, kind=kind)
                require(nonce_mod.checkTimestamp(text, skew, now) is False, 'a malformed time is held for current', nonce=text, kind=kind, now=now, skew=skew)
                ctx.event('malformed')
            else:
                require(got is not None and tuple(got) == (want, text[20:]) and isinstance(got[0], int), 'a well-formed nonce is read differently', nonce=text, got=got, expected=want, kind=kind)
                ctx.event('well-formed')
                verdict = abs(now - want) <= skew
                got = nonce_mod.checkTimestamp(text, allowed_skew=skew, now=now)
                require(got is verdict, 'the window is not what was asked for', nonce=text, now=now, stamp=want, skew=skew, got=got)
                clock.set(now)
                got = nonce_mod.checkTimestamp(text, allowed_skew=skew)
                require(got is (abs(clock.now - want) <= skew), 'the window does not lie around the present', nonce=text, now=clock.now, stamp=want, skew=skew, got=got)
                off = rng.choice([0, SKEW, SKEW + 1, -SKEW, -SKEW - 1, 1])
                if want + off >= 0:
                    clock.set(want + off)
                    got = nonce_mod.checkTimestamp(text)
                    require(got is (abs(off) <= SKEW), 'the usual window is not five hours', nonce=text, now=clock.now, stamp=want, got=got)
                    ctx.event('at the limit', abs(off) >= SKEW)
                ctx.event('window')
                ctx.state('strings', kind, verdict, skew, want < 2 ** 31)


def batch(rng, ctx):
    """Many nonces at one instant, from sources that could share a state."""
    clock.set(EPOCH + rng.randrange(10 ** 8))
    now = int(clock.now)
    seen = []
    state = random.getstate()
    try:
        for source in rng.sample(['plain', 'reseeded', 'restored', 'threads', 'fork', 'fork'], 4) + ['plain']:
            if source == 'plain':
                for _ in range(600):
                    look(nonce_mod.mkNonce(), now, now, seen)
            elif source == 'reseeded':
                for _ in range(300):
                    random.seed(7)
                    look(nonce_mod.mkNonce(), now, now, seen, after='random.seed')
                    ctx.event('reseeded')
            elif source == 'restored':
                here = random.getstate()
                for _ in range(300):
                    random.setstate(here)
                    look(nonce_mod.mkNonce(now), now, now, seen, after='random.setstate')
                    ctx.event('reseeded')
            elif source == 'threads':
                outs = [[] for _ in range(4)]

                def work(out):
                    for _ in range(150):
                        out.append(nonce_mod.mkNonce())
                ts = [threading.Thread(target=work, args=(o,)) for o in outs]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                for o in outs:
                    for n in o:
                        look(n, now, now, seen, source='threads')
                        ctx.event('threads')
            else:
                readers = []
                for _ in range(3):
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            os.close(r)
                            data = ' '.join(nonce_mod.mkNonce() for _ in range(100)).encode()
                            while data:
                                data = data[os.write(w, data):]
                        finally:
                            os._exit(0)
                    os.close(w)
                    readers.append((r, pid))
                for r, pid in readers:
                    data = b''
                    while True:
                        got = os.read(r, 65536)
                        if not got:
                            break
                        data += got
                    os.close(r)
                    os.waitpid(pid, 0)
                    made = data.decode().split(' ')
                    require(len(made) == 100, 'a forked process could not make nonces')
                    for n in made:
                        look(n, now, now, seen, source='fork')
                        ctx.event('forked')
            ctx.state('batch', source)
    finally:
        random.setstate(state)
    while len(seen) < 3000:
        look(nonce_mod.mkNonce(), now, now, seen)
    ctx.event('made', len(seen))
    fresh(seen)
    even([n[20:] for n in seen], ctx)


def parties(rng, ctx):
    """Nonces that leave the library: in assertions and in return addresses of OpenID 1."""
    stores = Stores()
    state = random.getstate()
    try:
        clock.set(EPOCH + rng.randrange(10 ** 8))
        net = Net()
        op = SimOP(net, 'http://op.example.com/', stores.make('memory'))
        users = {}
        for i, types in enumerate([[T_20], [T_11], [T_10]]):
            user = 'http://u%d.example.com/' % i
            users[user] = types[0] == T_20
            net.page(user, xrds([dict(types=types, uris=[(op.endpoint, None)], local_id=None)]), {'content-type': 'application/xrds+xml'})
        rp = RP(stores.make('memory'), 'http://rp.example.com/', RT)
        made, issued = [], []
        for i in range(rng.randint(4, 8)):
            user = rng.choice(sorted(users))
            if rng.random() < .5:
                random.seed(3)
            if rng.random() < .4:
                clock.advance(rng.choice([1, 2, 1000, .5]))
            asked = clock.now
            _, args, req = rp.begin(rng.choice('ab'), user)
            own = dict(url_args(args['openid.return_to'])).get('janrain_nonce')
            require(own is not None or users[user], 'a request of version 1 without an own nonce', args=args)
            if own is not None:
                look(own, int(asked), int(asked), made, where='return_to')
                again = dict(url_args(req.redirectURL('http://rp.example.com/', RT)))
                require(dict(url_args(again['openid.return_to'])).get('janrain_nonce') == own, 'one request with two nonces', args=args, again=again)
                ctx.event('relying party')
            clock.advance(rng.choice([0, 1, 30]))
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < .3:
                    random.seed(3)
                if rng.random() < .2:
                    args = {k: v for k, v in args.items() if k != 'openid.assoc_handle'}
                request = op.server.decodeRequest(dict(args))
                how = rng.choice(['now', 'now', 'copied', 'later'])
                first = clock.now
                answer = request.answer(True)
                if how == 'copied':
                    answer = copy.deepcopy(answer)
                elif how == 'later':
                    clock.advance(rng.choice([1, 20]))
                out = dict(op.encode(request, answer, True)[1])
                n = out.get('openid.response_nonce')
                if users[user]:
                    require(n is not None, 'an assertion without nonce', out=out)
                if n is not None:
                    look(n, int(first), int(clock.now), issued, where='response_nonce')
                    ctx.event('provider')
                ctx.state('parties', users[user], how, 'openid.assoc_handle' in args)
        for part in (made, issued):
            require(len(set(part)) == len(part), 'two messages with one nonce', nonces=part)
    finally:
        random.setstate(state)
        stores.close()


SCENARIOS = [('times', times, 2100, 10500), ('strings', strings, 4100, 20500), ('batch', batch, 310, 1550), ('parties', parties, 2100, 10500)]
