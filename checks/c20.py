"""C20: key-value form is a faithful, injection-free encoding."""
from openid.kvform import KVFormError, dictToKV, kvToDict, kvToSeq, seqToKV
from openid.message import Message

from lib import gen
from lib.core import require

PROP = 'C20'
TECHNIQUE = ('runtime monitoring: reference encoder and decoder written from the specification compared with the real ones on generated sequences, texts and bytes, '
             'with verdicts of both modes and round trips monitored')
LEVEL_NOTE = 'Random sequences and line-structured texts biased to separators, whitespace of every kind and line ends; sampling.'
RULE = 'a case is 40 sequences or texts; counted distinct: (part, mode, set of peculiarities, verdict)'
NEED = {'encoded': 20000, 'encode refused': 4000, 'strict refused': 8000, 'decoded': 20000, 'bytes': 8000, 'not utf-8': 1000, 'dicts': 4000, 'bijective': 4000}
ASSUMPTIONS = ['texts have no lone surrogates']

PIECES = [':', '::', ' ', '\t', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', '\u2029', '\u3000', '\x00', '=', '%0A', '\\n', '\ufeff', '\u0130', '"', ',', '&#10;']


def token(rng, newline=0.05, colon=0.1, white=0.1):
    r = rng.random()
    if r < 0.05:
        return ''
    out = [gen.word(rng, 1, 5) if rng.random() < 0.6 else gen.text(rng, 0, 3)]
    if rng.random() < 0.3:
        out.append(rng.choice(PIECES[7:]))
    if rng.random() < white:
        out.insert(rng.randint(0, len(out)), rng.choice(PIECES[2:13]))
    if rng.random() < colon:
        out.insert(rng.randint(0, len(out)), rng.choice(PIECES[:2]))
    if rng.random() < newline:
        out.insert(rng.randint(0, len(out)), rng.choice(['\n', '\r\n', '\nx:y', '\n\n']))
    if rng.random() < 0.2:
        rng.shuffle(out)
    return ''.join(out)


def key(rng):
    return token(rng, 0.03, 0.05, 0.08) if rng.random() < 0.9 else gen.short_lit(rng)


def value(rng):
    return token(rng, 0.04, 0.4, 0.1)


def ref_decode(text):
    """(pairs, peculiarities that strict mode refuses)."""
    odd = set()
    lines = text.split('\n')
    if lines[-1] != '':
        odd.add('no final line end')
    pairs = []
    for line in lines:
        if not line.strip():
            continue
        at = line.find(':')
        if at < 0:
            odd.add('no colon')
            continue
        k, v = line[:at], line[at + 1:]
        if k != k.strip():
            odd.add('key whitespace')
        if v != v.strip():
            odd.add('value whitespace')
        if not k.strip():
            odd.add('empty key')
        pairs.append((k.strip(), v.strip()))
    return pairs, odd


def outcome(func, *args, **kwargs):
    try:
        return func(*args, **kwargs)
    except KVFormError:
        return KVFormError


def encode(rng, ctx):
    for _ in range(40):
        pairs = []
        if rng.random() < 0.7:
            pairs = [(key(rng), value(rng)) for _ in range(rng.choice((0, 1, 1, 2, 3, 6)))]
        else:
            # only sequences that every mode takes
            for _ in range(rng.randint(1, 8)):
                k = key(rng).replace(':', '').replace('\n', '').strip()
                pairs.append((k or 'k', value(rng).replace('\n', '').strip()))
        if rng.random() < 0.1 and pairs:
            pairs.append(rng.choice(pairs))           # a repeated key stays repeated
        if rng.random() < .002:
            # large ones
            if rng.random() < .5:
                pairs = [('k%d' % i, rng.choice(['', 'v', 'a:b'])) for i in range(rng.choice([120, 1000, 4000]))]
            else:
                pairs.insert(0, ('k' * rng.choice([1, 300, 5000]), 'x' * rng.choice([255, 1024, 2100, 9000, 100000])))
            ctx.event('large')
        bad = any('\n' in k or ':' in k or '\n' in v for k, v in pairs)
        white = any(k != k.strip() or v != v.strip() for k, v in pairs)
        given = pairs
        as_bytes = rng.random() < 0.2
        if as_bytes:
            given = [(k.encode('utf-8'), v) if rng.random() < 0.5 else (k, v.encode('utf-8')) for k, v in pairs]
        if rng.random() < 0.5:
            given = tuple(given)
        lenient = outcome(seqToKV, given)
        strict = outcome(seqToKV, given, strict=True)
        ctx.state('encode', bad, white, as_bytes, len(pairs))
        require((lenient is KVFormError) == bad, 'encoder verdict differs from the specification', pairs=pairs, result=lenient)
        require((strict is KVFormError) == (bad or white), 'strict encoder verdict differs from the specification', pairs=pairs, result=strict)
        if strict is KVFormError:
            ctx.event('strict refused')
        if bad:
            ctx.event('encode refused')
            continue
        ctx.event('encoded')
        require(isinstance(lenient, str), 'encoder did not return text', result=repr(lenient))
        require(lenient == ''.join('%s:%s\n' % p for p in pairs), 'encoding differs from the specified form', pairs=pairs, result=lenient)
        require(strict is KVFormError or strict == lenient, 'strict mode encodes differently', pairs=pairs, strict=strict, lenient=lenient)
        back = kvToSeq(lenient)
        require(back == [(k.strip(), v.strip()) for k, v in pairs], 'decoding does not give back what was encoded', pairs=pairs, back=back, text=lenient)
        require(kvToSeq(lenient.encode('utf-8')) == back, 'decoding bytes differs from decoding text', text=lenient)
        if not white and all(k for k, _ in pairs):
            require(outcome(kvToSeq, lenient, strict=True) == pairs, 'strict decoder refuses or changes an encoding', pairs=pairs)
            require(seqToKV(back, strict=True) == lenient, 'encoding again differs', pairs=pairs)
            ctx.event('bijective')
        if rng.random() < 0.3:
            d = dict(pairs)
            text = dictToKV(d)
            require(text == ''.join('%s:%s\n' % p for p in sorted(d.items())), 'dictionary encoding is not sorted', d=d, text=text)
            require(kvToDict(text) == dict((k.strip(), v.strip()) for k, v in sorted(d.items())), 'dictionary does not survive', d=d, text=text)
            ctx.event('dicts')
        if rng.random() < 0.1 and pairs:
            # other objects are taken by their text, outside strict mode
            i = rng.randrange(len(pairs))
            obj = rng.choice([7, -1, 2.5, True, False, 0, None, 0.0])
            mixed = list(pairs)
            plain = list(pairs)
            if rng.random() < .7:
                mixed[i], plain[i] = (pairs[i][0], obj), (pairs[i][0], str(obj))
            else:
                mixed[i], plain[i] = (obj, pairs[i][1]), (str(obj), pairs[i][1])
            require(outcome(seqToKV, mixed) == seqToKV(plain), 'other object is not encoded by its text', pairs=mixed)
            require(outcome(seqToKV, mixed, strict=True) is KVFormError, 'strict mode takes something that is not text', pairs=mixed)


LINES = ['', ' ', '\t', '\r', '\x1c', ':', ': ', ' :', 'nocolon', 'a', ' a:b', 'a :b', 'a: b', 'a:b ', 'a:b\r', '\x0ba:b', 'a:b:c', 'a::b', ':v', ' : ', 'a:', '\u2028', 'a\u2028b:c', '\xa0k:v']


def decode(rng, ctx):
    for _ in range(40):
        lines = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
            r = rng.random()
            if r < 0.3:
                lines.append(rng.choice(LINES))
            elif r < 0.8:
                lines.append(key(rng) + ':' + value(rng))
            else:
                lines.append(token(rng, 0.1, 0.3, 0.2))
        if rng.random() < .002:
            lines += rng.choice([['a%d:b' % i for i in range(rng.choice([120, 3000]))], ['k:' + 'y' * rng.choice([1000, 5000, 70000])], ['nocolon'] * 200])
            ctx.event('large')
        text = '\n'.join(lines) + rng.choice(['\n', '\n', '\n', '', '\n\n', '\r\n'])
        pairs, odd = ref_decode(text)
        ctx.state('decode', tuple(sorted(odd)), len(pairs))
        ctx.event('decoded')
        as_bytes = rng.random() < 0.3
        data = text.encode('utf-8') if as_bytes else text
        got = outcome(kvToSeq, data)
        require(got == pairs, 'decoded pairs differ from the lines of the text', text=text, got=got, expected=pairs)
        strict = outcome(kvToSeq, data, strict=True)
        if odd:
            ctx.event('strict refused')
            require(strict is KVFormError, 'strict decoder takes a text with: %s' % ', '.join(sorted(odd)), text=text, got=strict)
        elif all(line.strip() for line in text.split('\n')[:-1]):
            require(strict == pairs, 'strict decoder refuses or changes a proper text', text=text, got=strict)
        else:
            require(strict is KVFormError or strict == pairs, 'strict decoder changes a text', text=text, got=strict)
        require(outcome(kvToDict, data) == dict(pairs), 'dictionary differs from the pairs', text=text)
        again = outcome(seqToKV, got)
        require(again is not KVFormError and kvToSeq(again) == got, 'a decoded text does not encode to one that decodes alike', text=text, again=again)
        if as_bytes:
            ctx.event('bytes')


def raw(rng, ctx):
    """Any bytes: pairs or a value error."""
    for _ in range(40):
        if rng.random() < 0.5:
            data = bytes(rng.choice([10, 58, 32, 13, 0, 0x80, 0xc3, 0xa9, 0xff, 0xed, 0xa0, 97, 98]) for _ in range(rng.randint(0, 30)))
        else:
            data = bytearray(('%s:%s\n' % (key(rng), value(rng))).encode('utf-8'))
            for _ in range(rng.randint(0, 3)):
                data.insert(rng.randint(0, len(data)), rng.randint(0, 255))
            data = bytes(data)
        try:
            text = data.decode('utf-8')
        except UnicodeDecodeError:
            text = None
        from_kv = Message.fromKVForm
        for func in (kvToSeq, lambda d: kvToSeq(d, strict=True), kvToDict, from_kv):
            try:
                res = func(data)
            except ValueError:
                require(text is None or func is not kvToSeq, 'decoder refuses UTF-8 text', data=data.hex())
                continue
            except KeyError:
                # an argument set that is not a message: not a matter of the encoding
                require(func is from_kv, 'unexpected key error', data=data.hex())
                continue
            except Exception as e:
                if func is from_kv and type(e).__module__.startswith('openid'):
                    continue
                raise
            if text is not None and func is kvToSeq:
                require(res == ref_decode(text)[0], 'decoded pairs differ from the lines', data=data.hex(), got=res)
        ctx.event('bytes')
        if text is None:
            ctx.event('not utf-8')
        ctx.state('raw', text is None, len(data) // 4)


SCENARIOS = [('encode', encode, 15000, 75000), ('decode', decode, 15000, 75000), ('raw', raw, 6000, 30000)]
