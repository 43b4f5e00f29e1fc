"""C19: messages keep every argument and its namespace through any encoding."""
from urllib.parse import parse_qsl, urlsplit

import openid.extensions.sreg  # noqa: F401  registers its alias
from openid.kvform import KVFormError
from openid.message import (BARE_NS, OPENID1_NS, OPENID_NS, InvalidOpenIDNamespace, Message, NamespaceAliasRegistrationError, no_default,
                            registerNamespaceAlias)

from lib import gen
from lib.core import Violation, require
from lib.world import OPENID2, read_form, url_args
from checks.c07 import xml_ok

PROP = 'C19'
TECHNIQUE = ('runtime monitoring: reference model of namespaced arguments compared with every reading of real messages, and with what independent parsers find in '
             'each encoding; reference parser deciding acceptance of hostile argument sets')
LEVEL_NOTE = 'Random messages built through the API and random hostile argument sets for both protocol families; sampling, biased to alias collisions and protocol field names.'
RULE = 'a case is one message or argument set; counted distinct: (part, protocol, namespaces, encoding or verdict)'
NEED = {'built': 1500, 'parsed': 1000, 'refused': 800, 'kv': 300, 'forms': 1000, 'urls': 1000, 'conflicts': 800, 'copies': 500}
ASSUMPTIONS = ['the name "sreg" used as a namespace URI stands for the registration extension (legacy)', 'texts have no lone surrogates',
               'arguments are not put in the OpenID or bare namespace under a name that spells a key of another namespace']

OTHER1 = 'http://openid.net/signon/1.1'
FAMILY = [OPENID2, OPENID1_NS, OTHER1]
FIELDS = ['ns', 'mode', 'error', 'return_to', 'contact', 'reference', 'signed', 'assoc_type', 'session_type', 'dh_modulus', 'dh_gen', 'dh_consumer_public', 'claimed_id',
          'identity', 'realm', 'invalidate_handle', 'op_endpoint', 'response_nonce', 'sig', 'assoc_handle', 'trust_root', 'openid']
SREG11 = 'http://openid.net/extensions/sreg/1.1'
registered = {'sreg': SREG11}


class Refused(Exception):
    pass


def parse(args):
    """Reference: (namespace, explicit?, {alias: uri}, {(uri or None for bare, key): value}) or Refused."""
    ns = args.get('openid.ns')
    explicit = ns is not None
    if ns is None:
        ns = OPENID1_NS
    if ns not in FAMILY:
        raise Refused('namespace')
    aliases, uris = {}, {ns: None}
    for k, v in args.items():
        if k.startswith('openid.ns.'):
            a = k[len('openid.ns.'):]
            if '.' in a or a in FIELDS or v in uris:
                raise Refused('alias')
            aliases[a] = v
            uris[v] = a
    found = {}
    for k, v in args.items():
        if not k.startswith('openid.'):
            found[None, k] = v
            continue
        name = k[7:]
        if name == 'ns' or name.startswith('ns.'):
            continue
        if '.' in name:
            a, rest = name.split('.', 1)
            if a in aliases:
                found[aliases[a], rest] = v
                continue
            if ns != OPENID2 and a in registered:
                if uris.get(registered[a], a) != a:
                    raise Refused('default alias')
                found[registered[a], rest] = v
                continue
        found[ns, name] = v
    return ns, explicit, aliases, found


def readings(m, ns, model, label):
    """Everything the message says about its arguments agrees with the model."""
    by_ns = {}
    for (u, k), v in model.items():
        by_ns.setdefault(u, {})[k] = v
    for u in list(by_ns) + ['http://absent.example.com/', ns]:
        space = BARE_NS if u is None else u
        got = m.getArgs(space)
        require(got == by_ns.get(u, {}), 'arguments of a namespace differ (%s)' % label, namespace=u, got=got, expected=by_ns.get(u, {}))
    require(m.getArgs(OPENID_NS) == by_ns.get(ns, {}), 'arguments of the protocol namespace differ (%s)' % label, got=m.getArgs(OPENID_NS), expected=by_ns.get(ns, {}))
    require(m.getOpenIDNamespace() == ns and m.isOpenID2() == (ns == OPENID2) and m.isOpenID1() == (ns != OPENID2), 'protocol namespace differs (%s)' % label,
            got=m.getOpenIDNamespace(), expected=ns)
    for (u, k), v in model.items():
        space = BARE_NS if u is None else u
        require(m.getArg(space, k) == v and m.getArg(space, k, no_default) == v and m.hasKey(space, k), 'an argument is not found (%s)' % label, namespace=u, key=k)
        for other in list(by_ns)[:4]:
            if (other, k) not in model:
                o = BARE_NS if other is None else other
                require(m.getArg(o, k) is None and not m.hasKey(o, k), 'an argument is read under another namespace (%s)' % label, key=k, own=u, other=other)
                try:
                    m.getArg(o, k, no_default)
                except KeyError:
                    pass
                else:
                    raise Violation('an argument is read under another namespace (%s)' % label, key=k, own=u, other=other)
    aliases = [m.namespaces.getAlias(u) for u in by_ns if u is not None]
    require(len(set(map(str, aliases))) == len(aliases), 'two namespaces share an alias (%s)' % label, aliases=[str(a) for a in aliases])
    for u in by_ns:
        if u is not None:
            require(m.namespaces.getNamespaceURI(m.namespaces.getAlias(u)) == u, 'alias and namespace do not match (%s)' % label, namespace=u)


def aliased(m, post, label):
    for k, v in post.items():
        if k.startswith('openid.') and k != 'openid.ns':
            require(m.getAliasedArg(k[7:]) == v, 'an argument read by its alias differs (%s)' % label, key=k, got=m.getAliasedArg(k[7:]), expected=v)
    require(m.getAliasedArg('ns') == m.getOpenIDNamespace(), 'namespace read by alias differs')
    require(m.getAliasedArg('no.such-alias-arg') is None, 'something read under an absent alias')


def again(m2, ns, model, label):
    require(m2.getOpenIDNamespace() == ns, 'the protocol namespace changed (%s)' % label, got=m2.getOpenIDNamespace(), expected=ns)
    readings(m2, ns, model, label)


def encodings(rng, ctx, m, ns, model):
    post = m.toPostArgs()
    bare = {k: v for (u, k), v in model.items() if u is None}
    require({k: v for k, v in post.items() if not k.startswith('openid.')} == bare, 'bare arguments differ', got=post, expected=bare)
    want = parse(post)
    require((want[0], want[3]) == (ns, model), 'the encoded arguments mean something else', post=post, expected=str(model), meaning=str(want))
    again(Message.fromPostArgs(post), ns, model, 'post arguments')
    aliased(m, post, 'built')
    text = m.toURLEncoded()
    pairs = parse_qsl(text, keep_blank_values=True, strict_parsing=bool(text))
    require(len(pairs) == len(post) and dict(pairs) == post, 'the URL-encoded text differs', text=text, post=post)
    again(Message.fromPostArgs(dict(pairs)), ns, model, 'URL-encoded')
    base = gen.url(rng) + rng.choice(['', '', '#frag', '?a=b&c', '?', '?a=b#x'])
    if base.count('?') > 1:
        base = base.split('?')[0]
    url = m.toURL(base)
    b, u = urlsplit(base), urlsplit(url)
    require(b[:3] == u[:3] and b.fragment == u.fragment, 'the URL leads elsewhere', base=base, url=url)
    got = url_args(url)
    own = parse_qsl(b.query, keep_blank_values=True)
    require(got[:len(own)] == own and len(got) == len(own) + len(post) and dict(got[len(own):]) == post, 'the arguments in the URL differ', base=base, url=url, post=post)
    ctx.event('urls')
    attrs = {'id': 'f', 'class': gen.text(rng, 0, 2).strip()} if rng.random() < .5 else None
    if all(xml_ok(x) for kv in post.items() for x in kv) and (attrs is None or all(xml_ok(x) for x in attrs.values())):
        submit = gen.word(rng)
        markup = m.toFormMarkup(base, attrs, submit)
        form, fields = read_form(markup)
        require(form.get('action') == base and form.get('method', '').lower() == 'post', 'the form goes elsewhere', form=form, base=base)
        require(form.get('accept-charset', '').upper() == 'UTF-8', 'the form is sent in another encoding', form=form)
        require(attrs is None or all(form.get(k) == v for k, v in attrs.items()), 'attributes of the form are lost', form=form, attrs=attrs)
        fields = [f for f in fields if f[0] is not None and f[0] != '']
        require(len(fields) == len([k for k in post if k]) and dict(fields) == {k: v for k, v in post.items() if k}, 'the fields of the form differ', markup=markup, post=post)
        ctx.event('forms')
    if bare:
        for f in (m.toArgs, m.toKVForm):
            try:
                out = f()
            except ValueError:
                pass
            else:
                raise Violation('bare arguments were dropped or renamed', post=post, got=out)
    else:
        require(m.toArgs() == {k[7:]: v for k, v in post.items()}, 'arguments without prefix differ', got=m.toArgs())
        again(Message.fromOpenIDArgs(m.toArgs()), ns, model, 'arguments without prefix')
        hard = [k for k in post if '\n' in k or ':' in k] + [v for v in post.values() if '\n' in v]
        try:
            kv = m.toKVForm()
        except KVFormError:
            require(hard, 'the key-value form was refused', post=post)
        else:
            require(not hard, 'a line break or colon got into the key-value form', kv=kv)
            lines = kv.split('\n')
            require(lines[-1] == '' and len(lines) == len(post) + 1, 'the key-value form has other lines', kv=kv, post=post)
            require(dict(x.split(':', 1) for x in lines[:-1]) == {k[7:]: v for k, v in post.items()}, 'the key-value form differs', kv=kv)
            if all(x.strip() == x for k, v in post.items() for x in (k[7:], v)):
                again(Message.fromKVForm(kv), ns, model, 'key-value form')
                ctx.event('kv')
    return post


def key(rng):
    r = rng.random()
    if r < .35:
        return gen.word(rng, 1, 5)
    if r < .55:
        return rng.choice([f for f in FIELDS if f != 'ns'])
    if r < .7:
        return rng.choice(['value.x.1', 'type.a', 'a.b', 'x.ns', 'count.x', '.', 'x.', 'mode', 'nickname', 'policy_auth_time'])
    return gen.text(rng, 1, 4, strip=True) or 'k'


def value(rng):
    if rng.random() < .001:
        return gen.long_text(rng)
    return rng.choice([gen.word(rng, 0, 8), gen.text(rng, 0, 8), gen.text(rng, 0, 5, newline=True), gen.url(rng), '', 'true', OPENID2])


def uri(rng):
    return rng.choice([SREG11, 'http://openid.net/sreg/1.0', 'http://openid.net/srv/ax/1.0', 'http://ext.example.com/', 'http://ext.example.com/2', 'urn:x', gen.url(rng),
                       'x:' + (gen.text(rng, 1, 3).strip() or 'y'), 'http://EXT.example.com/', 'http://ext.example.com', OPENID1_NS + '/', OPENID2 + '/'])


def alias(rng):
    return rng.choice(['sreg', 'ax', 'ext0', 'ext1', 'ext2', 'pape', gen.word(rng, 1, 4).lower(), 'nsx', 'openid2', 'Mode', 'x-y', '\u00e9'])


def build(rng, ctx):
    ns = rng.choice(FAMILY)
    implicit = None if rng.random() < .6 else False
    if ns != OPENID1_NS:
        implicit = False if ns == OTHER1 or rng.random() < .5 else None
    m = Message(ns) if implicit is None and rng.random() < .5 else Message(ns, implicit)
    if rng.random() < .1:
        m = Message()
        m.setOpenIDNamespace(ns, ns == OPENID1_NS)
    names = {}                     # uri -> alias, as far as known
    model = {}
    uris = [uri(rng) for _ in range(rng.randint(0, 4) if rng.random() < .95 else 25)]
    taken = set()

    def conflict(func, *args):
        before = (m.toPostArgs(), sorted(map(str, m.namespaces.items())))
        try:
            func(*args)
        except (KeyError, AssertionError):
            pass
        else:
            raise Violation('a contradictory or reserved alias was accepted', arguments=args, known=names)
        require((m.toPostArgs(), sorted(map(str, m.namespaces.items()))) == before, 'a refused alias changed the message', arguments=args)
        ctx.event('conflicts')

    for _ in range(rng.randint(2, 15) + gen.bulk(rng, .004, 700) if len(uris) < 5 else 50):
        r = rng.random()
        if r < .2 and uris:
            u, a = rng.choice(uris), alias(rng)
            if m.namespaces.getAlias(u) is None and m.namespaces.getNamespaceURI(a) is None:
                implicit1 = ns != OPENID2 and registered.get(a) == u and rng.random() < .7
                if ns != OPENID2 and registered.get(a, u) != u:
                    pass
                require(m.namespaces.addAlias(u, a, implicit1) == a, 'another alias was given')
                names[u] = a
                taken.add(a)
            elif m.namespaces.getAlias(u) != a:
                conflict(m.namespaces.addAlias, u, a)
        elif r < .28:
            a = rng.choice(FIELDS + ['a.b', '.', 'ns.x', 'sreg.x'])
            conflict(m.namespaces.addAlias, 'http://new.example.com/', a)
        elif r < .32:
            conflict(m.namespaces.addAlias, ns, alias(rng))
        elif r < .4 and model:
            u, k = rng.choice(sorted(model, key=repr))
            m.delArg(BARE_NS if u is None else u, k)
            del model[u, k]
            try:
                m.delArg(BARE_NS if u is None else u, k)
            except KeyError:
                pass
            else:
                raise Violation('an absent argument was deleted')
        else:
            u = rng.choice([ns, None] + uris * 2)
            k, v = key(rng), value(rng)
            if u is None and (k.startswith('openid.') or rng.random() < .7):
                continue
            if u == ns and (k == 'ns' or '.' in k):
                continue
            if u not in (None, ns) and k.startswith('ns.') and False:
                continue
            space = BARE_NS if u is None else rng.choice([OPENID_NS, ns]) if u == ns else u
            if rng.random() < .7:
                m.setArg(space, k, v)
            else:
                m.updateArgs(space, {k: v})
            model[u, k] = v
    # in version 1 a default alias that was taken by another namespace must have been declared, which addAlias did
    readings(m, ns, model, 'built')
    post = encodings(rng, ctx, m, ns, model)
    if rng.random() < .5:
        c = m.copy()
        require(c == m and c.toPostArgs() == post, 'a copy differs', copy=c.toPostArgs(), post=post)
        one, two = (c, m) if rng.random() < .5 else (m, c)
        one.setArg('http://only.example.com/', 'k', 'v')
        one.setArg(OPENID_NS, 'mode', 'changed')
        for (u, k) in list(model)[:2]:
            if (u, k) != (ns, 'mode'):
                one.delArg(BARE_NS if u is None else u, k)
        require(two.toPostArgs() == post, 'changing a copy changed the other message', got=two.toPostArgs(), post=post)
        require(two.namespaces.getAlias('http://only.example.com/') is None, 'a namespace of one copy is in the other')
        ctx.event('copies')
    ctx.event('built')
    ctx.state('built', FAMILY.index(ns), implicit, len(set(u for u, _ in model)), any(u is None for u, _ in model), len(names))


def hostile(rng, ctx):
    """Argument sets as they may arrive, against the reference parser."""
    args = {}
    ns = rng.choice([OPENID2, OPENID2, None, None, OPENID1_NS, OTHER1, '', 'bogus', OPENID2 + '/', OPENID2.upper()])
    if ns is not None:
        args['openid.ns'] = ns
    uris = [uri(rng) for _ in range(2)] + [OPENID2, OPENID1_NS, OTHER1]
    aliases = [alias(rng) for _ in range(3)]
    bad = rng.random() < .4
    for _ in range(rng.randint(0, 4)):
        a = rng.choice(aliases)
        u = rng.choice(uris[:2] + [uri(rng)])
        if bad and rng.random() < .5:
            a = rng.choice(FIELDS + ['a.b', 'x.', '.', ''] + aliases)
            u = rng.choice(uris)
        args['openid.ns.' + a] = u
    for _ in range(rng.randint(0, 8) + gen.bulk(rng, .004, 700)):
        k = rng.choice([lambda: 'openid.' + key(rng), lambda: 'openid.' + rng.choice(aliases + ['sreg', 'ext0', 'ns2', '']) + '.' + key(rng), lambda: key(rng),
                        lambda: rng.choice(['openid', 'openid.', 'Openid.mode', 'openidx.mode', ' openid.mode', 'openid..x', 'ns', 'ns.x'])])()
        args.setdefault(k, value(rng))
    if 'sreg' in args.values():
        return
    try:
        want = parse(args)
        why = None
    except Refused as e:
        want, why = None, str(e)
    func = Message.fromPostArgs
    given = dict(args)
    if rng.random() < .3 and all(k.startswith('openid.') for k in args):
        func, given = Message.fromOpenIDArgs, {k[7:]: v for k, v in args.items()}
    items = list(given.items())
    rng.shuffle(items)
    try:
        m = func(dict(items))
    except (InvalidOpenIDNamespace, KeyError, AssertionError) as e:
        require(want is None, 'a message was refused: %r' % (e,), args=args)
        ctx.event('refused')
        ctx.state('refused', ns, why, type(e).__name__)
        return
    require(want is not None, 'contradictory or reserved namespaces were accepted', args=args, because=why, got=m.toPostArgs())
    readings(m, want[0], want[3], 'parsed')
    for a, u in want[2].items():
        require(m.namespaces.getNamespaceURI(a) == u and m.namespaces.getAlias(u) == a, 'a declared alias is not used', alias=a, uri=u)
    require(m.toPostArgs() == args, 'a parsed message is encoded with other arguments', got=m.toPostArgs(), args=args)
    aliased(m, args, 'parsed')
    again(Message.fromPostArgs(m.toPostArgs()), want[0], want[3], 'parsed again')
    if rng.random() < .3:
        # adding a namespace must not take over an alias in use
        before = dict(args)
        m.setArg('http://added.example.com/', 'k', 'v')
        a = m.namespaces.getAlias('http://added.example.com/')
        if not any(k.startswith('openid.%s.' % a) for k in before):
            after = m.toPostArgs()
            require({k: v for k, v in after.items() if k in before} == before, 'adding a namespace changed other arguments', before=before, after=after)
            require(parse(after)[3].get(('http://added.example.com/', 'k')) == 'v', 'an added argument is in another namespace', after=after)
    try:
        func(dict(items, **{(items[0][0] if items else 'x'): ['a', 'b']})) if func == Message.fromPostArgs else None
    except TypeError:
        pass
    ctx.event('parsed')
    ctx.state('parsed', ns, len(want[2]), sorted(set(str(u)[:12] for u, _ in want[3])))


def registry(rng, ctx):
    """Default aliases for version 1 are one-to-one."""
    n = len(registered)
    if n > 40:
        return
    u, a = 'http://reg%d.example.com/%s' % (n, gen.word(rng)), 'reg%d%s' % (n, gen.word(rng).lower())
    registerNamespaceAlias(u, a)
    registered[a] = u
    registerNamespaceAlias(u, a)
    for u2, a2 in [(u, a + 'x'), (u + 'x', a), (SREG11, a), (u, 'sreg'), (SREG11, 'other')]:
        try:
            registerNamespaceAlias(u2, a2)
        except NamespaceAliasRegistrationError:
            pass
        else:
            raise Violation('a contradictory default alias was registered', uri=u2, alias=a2)
    m = Message.fromPostArgs({'openid.%s.k' % a: 'v', 'openid.mode': 'x'})
    require(m.getArg(u, 'k') == 'v' and m.getArg(OPENID_NS, a + '.k') is None, 'a default alias is not used')
    require(m.toPostArgs() == {'openid.%s.k' % a: 'v', 'openid.mode': 'x'}, 'a default alias is declared or renamed', got=m.toPostArgs())
    post = {'openid.%s.k%d' % (b, i): 'v' for i, b in enumerate(rng.sample(sorted(registered), min(len(registered), rng.randint(2, 6))))}
    m = Message.fromPostArgs(post)
    require(m.toPostArgs() == post and Message.fromPostArgs(m.toPostArgs()).toPostArgs() == post, 'several default aliases do not survive', args=post, got=m.toPostArgs())
    m = Message.fromPostArgs({'openid.%s.k' % a: 'v', 'openid.ns': OPENID2})
    require(m.getArg(u, 'k') is None and m.getArg(OPENID_NS, a + '.k') == 'v', 'a default alias is used in version 2')
    ctx.event('registered')


SCENARIOS = [('build', build, 22000, 120000), ('hostile', hostile, 30000, 150000), ('registry', registry, 300, 1500)]
