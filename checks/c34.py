"""C34: content negotiation gives the acceptable types, best first."""
from openid.yadis import accept
from openid.yadis.constants import YADIS_ACCEPT_HEADER, YADIS_CONTENT_TYPE

from lib import gen
from lib.core import require

PROP = 'C34'
TECHNIQUE = ('runtime monitoring: a negotiator written from the rules of HTTP answers each question alongside the real one on generated headers and lists of types; '
             'headers made by the library are read back by both')
LEVEL_NOTE = 'Random headers and lists biased to overlapping ranges, ties, zero preferences and malformed elements. Sampling.'
RULE = 'a case is 60 headers; counted distinct: (kinds of elements, kinds of ranges that decide, number of results)'
NEED = {'headers': 20000, 'generated': 20000, 'chosen': 20000, 'refused': 8000, 'ties': 4000, 'by exact range': 8000, 'by main type': 4000, 'by wildcard': 4000, 'malformed elements': 8000,
        'empty': 200, 'bad preference': 1000}
ASSUMPTIONS = ['letter case, blanks around the equals sign of a preference, quoted parameters and preferences outside 0 to 1 are open']

MAINS = ['text', 'application', 'image', 'x', 'a-b', 'audio']
SUBS = ['html', 'plain', 'xml', 'xrds+xml', 'xhtml+xml', 'jpeg', 'vnd.x-y', 'q', '1']
QS = ['0', '1', '0.5', '0.1', '0.9', '1.0', '0.0', '.3', '0.30', '0.301', '0.999', '0.001', '1.', '0.7', '0.25']


def element(rng, n):
    """(text, (main, sub, preference) or None, kind)."""
    k = rng.random()
    if k < .1:
        text = rng.choice(['', ' ', 'text', 'html', '*', 'q=0.5', ';q=1', 'text;q=0.4', 'garbage garbage', '*;q=0.3', '=', ';'])
        return text, None, 'malformed'
    main, sub = rng.choice(MAINS[:n]), rng.choice(SUBS[:n])
    kind = 'exact'
    if k < .25:
        sub, kind = '*', 'main'
    elif k < .37:
        main, sub, kind = '*', '*', 'any'
    q, parts = 1.0, []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        parts.append(rng.choice(['level=1', 'charset=utf-8', 'qs=0.2', 'q', 'xq=0.1', 'q=', 'q=high', 'q=0.x', '', 'level']))
    if rng.random() < .6:
        text = rng.choice(QS)
        q = float(text)
        parts.append('q=' + text)
        if rng.random() < .2:
            parts.append(rng.choice(['ext', 'q2=0.1', 'ext="v"', 'level=2', 'q=0.111', 'q=zzz']))
        kind += ' q'
    sep = rng.choice([';', '; ', ' ;', ' ; '])
    return sep.join([main + '/' + sub] + parts), (main, sub, q), kind


def reference(ranges, have, empty):
    """[(type, preference)] and the kinds of the deciding ranges."""
    out, kinds = [], set()
    for i, t in enumerate(have):
        main, sub = t.split('/')
        for kind, fits in (('exact', lambda r: r[0] == main and r[1] == sub), ('main', lambda r: r[0] == main and r[1] == '*'), ('any', lambda r: r[0] == '*')):
            qs = [r[2] for r in ranges if fits(r)]
            if qs:
                q = max(qs)
                break
        else:
            kind, q = 'none', 1 if empty else 0
        kinds.add((kind, q > 0))
        if q > 0:
            out.append((-q, i, t, q))
    out.sort()
    return [(t, q) for _, _, t, q in out], kinds


def available(rng, n):
    out = [rng.choice(MAINS[:n]) + '/' + rng.choice(SUBS[:n]) for _ in range(rng.randint(0, 6))]
    if rng.random() < .8:
        out = sorted(set(out), key=out.index)
    return out


def headers(rng, ctx):
    for _ in range(60):
        n = rng.choice([2, 3, 6])
        elements = [element(rng, n) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9]))]
        header = rng.choice([',', ', ', ' , ', ',\t']).join(e[0] for e in elements)
        ranges = [e[1] for e in elements if e[1]]
        have = available(rng, n)
        parsed = accept.parseAcceptHeader(header)
        about = dict(header=header, have=have)
        require(sorted(tuple(p) for p in parsed) == sorted(ranges), 'a header is read differently', got=parsed, expected=ranges, **about)
        require([p[2] for p in parsed] == sorted((p[2] for p in parsed), reverse=True), 'the ranges are not in order of preference', got=parsed, **about)
        want, kinds = reference(ranges, have, not ranges)
        got = accept.matchTypes(parsed, have)
        require([tuple(g) for g in got] == want, 'other types are acceptable', got=got, expected=want, **about)
        mixed = list(ranges)
        rng.shuffle(mixed)
        got = accept.matchTypes(mixed, have)
        require([tuple(g) for g in got] == want, 'the order of the ranges matters', got=got, expected=want, ranges=mixed, **about)
        got = accept.getAcceptable(header, have)
        require(list(got) == [t for t, _ in want], 'other types are acceptable', got=got, expected=want, **about)
        ctx.event('headers')
        ctx.event('malformed elements', sum(e[1] is None for e in elements))
        ctx.event('chosen', len(want))
        ctx.event('refused', len(have) - len(want))
        ctx.event('ties', len(want) - len({q for _, q in want}))
        ctx.event('empty', not header)
        for kind, name in (('exact', 'by exact range'), ('main', 'by main type'), ('any', 'by wildcard')):
            ctx.event(name, any(k == kind for k, _ in kinds))
        ctx.state('headers', tuple(sorted({e[2] for e in elements})), tuple(sorted(kinds)), len(want))


def generated(rng, ctx):
    for _ in range(60):
        items, expected = [], []
        for _ in range(rng.randint(0, 6)):
            main, sub = rng.choice(MAINS), rng.choice(SUBS + ['*'])
            if rng.random() < .1:
                main = sub = '*'
            name = main + '/' + sub
            if rng.random() < .4:
                items.append(name)
                expected.append((main, sub, 1.0))
            else:
                q = rng.choice([1, 1.0, '1', '0.5', .5, .06, .1, .9, .95001, .999, .44, .34999, rng.randint(6, 100) / 100.0, rng.uniform(.051, 1)])
                items.append((name, q))
                expected.append((main, sub, q))
        header = accept.generateAcceptHeader(*items)
        if not items:
            require(header == '', 'a header for nothing', header=header)
        rough = sorted(accept.parseAcceptHeader(header))
        require(len(rough) == len(items), 'elements of a generated header are lost', items=items, header=header)
        for (m, s, q), (m2, s2, q2) in zip(sorted((m, s, float(q)) for m, s, q in expected), rough):
            require((m, s) == (m2, s2) and abs(q - q2) <= .0501, 'a generated header means something else', items=items, header=header, got=rough)
        # Preferences with one digit survive exactly, and decide between the types.
        have = sorted({m + '/' + s for m, s, q in expected if s != '*'}) + available(rng, 3)
        want, _ = reference([(m, s, float('%.1f' % float(q))) for m, s, q in expected], have, not items)
        require([tuple(g) for g in accept.matchTypes(accept.parseAcceptHeader(header), have)] == want, 'a generated header selects other types', items=items, header=header, expected=want)
        ctx.event('generated')
        bad = rng.choice([0, -.5, 1.1, 2, '0', '-1', '1.01', -0.0, 1e9])
        try:
            header = accept.generateAcceptHeader(*(items + [('text/html', bad)]))
        except ValueError:
            ctx.event('bad preference')
        else:
            require(False, 'an impossible preference is written', preference=bad, header=header)
        ctx.state('generated', len(items), len(want))
    best = accept.getAcceptable(YADIS_ACCEPT_HEADER, rng.sample(['text/html', 'text/plain', YADIS_CONTENT_TYPE, 'application/xhtml+xml', 'image/png'], 5))
    require(best and best[0] == YADIS_CONTENT_TYPE == 'application/xrds+xml' and 'text/html' in best, 'discovery does not prefer XRDS documents', header=YADIS_ACCEPT_HEADER, got=best)


SCENARIOS = [('headers', headers, 11000, 55000), ('generated', generated, 6800, 34000)]
