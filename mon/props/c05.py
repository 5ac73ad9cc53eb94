"""C05: class algebra."""
from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model

RULE = ('random class expressions (tags, properties, literals, references, all set operators) evaluated on sampled code '
        'points of the whole code space, as sets and through rules; non-trivial: at least one member and one non-member')
ASSUMPTIONS = ['property classes only use General_Category (and Script) on characters whose value never changed']

PROBE = [0, 0x24, 0x26, 0x27, 0x2D, 0x2E, 0x30, 0x31, 0x41, 0x5B, 0x5C, 0x5D, 0x5E, 0x60, 0x7B, 0x7F, 0xE9, 0x301,
         0x3B1, 0x3B3, 0x430, 0x5D0, 0x661, 0x905, 0x200D, 0x3042, 0x30A2, 0x4E00, 0x9FA5, 0xFFFD, 0x10000, 0x10428,
         0x20000, 0x10FFFF]


def prepare():
    env.unidb()


def mk(ctx, n):
    rng = ctx.rng
    alpha = gen.alphabet(rng, 4, 8, others=0.6, astral=True)
    if rng.random() < 0.3:
        alpha = sorted(set(alpha + gen.subset(rng, gen.META, 1, 3)))
    s = spec.Spec()
    for cp in alpha:
        s.add(spec.Ch((cp,), tag=gen.subset(rng, gen.TAGS, 0, 2)))
    if rng.random() < 0.4:
        s.add_range(0x6B, 0x6E, tag=gen.subset(rng, gen.TAGS, 1, 2))
    tags = sorted(s.tags())
    names = []
    for i in range(n):
        ast = gen.gen_class(rng, alpha, names, tags, rng.choice([1, 2, 3]))
        if ast[0] == 'ref':
            ast = ('union', [ast, ('cps', [rng.choice(alpha)])])
        s.classes.append(('class-%d' % i, ast))
        names.append('class-%d' % i)
    return s, alpha


def algebra(ctx):
    rng = ctx.rng
    s, alpha = mk(ctx, rng.randint(1, 3))
    lgr = spec.load(s, env.unidb(), allow_invalid_property=True)
    model = Model(s)
    probe = sorted(set(PROBE + alpha + [rng.randrange(0x20, 0x3000) for _ in range(20)] + [0x6A, 0x6B, 0x6E, 0x6F]))
    probe = [c for c in probe if not 0xD800 <= c < 0xE000]
    order = list(s.classes)
    rng.shuffle(order)
    for rnd in range(2):        # evaluated twice: no evaluation may disturb another one
        for name, ast in order:
            try:
                got = lgr.classes_lookup[name].get_pattern(lgr.rules_lookup, lgr.classes_lookup, env.unidb(),
                                                           as_set=True)
                inside = {c for c in probe if c in got or chr(c) in got}
            except TypeError:
                inside = {c for c in probe if chr(c) in got}
            exp = {c for c in probe if model.wle.in_class(ast, c)}
            ctx.eq(sorted(inside), sorted(exp), 'class-members', lambda: '%s %s' % (
                spec.class_xml(ast, name=name), s.classes))
            if exp and len(exp) < len(probe):
                ctx.seen(ast, sorted(exp))
                ctx.event('members')
            elif not exp:
                ctx.event('empty')
    ctx.show(dict(classes=[spec.class_xml(a, name=n) for n, a in s.classes]))


def in_rules(ctx):
    """The class used in a rule accepts exactly its members."""
    rng = ctx.rng
    s, alpha = mk(ctx, rng.randint(1, 2))
    alpha = [c for c in alpha if c < 0x10000]
    body = rng.choice(s.classes)
    k = rng.random()
    m = ('class', ('ref', body[0]), None) if k < 0.5 else ('class', body[1], None)
    s.rules.append(('only', [('start',), m, ('end',)]))
    s.rules.append(('after', [('behind', [m]), ('end',)]))
    s.rules.append(('twice', [('start',), (m[0], m[1], '2'), ('end',)]))
    lgr = spec.load(s, env.unidb(), allow_invalid_property=True)
    model = Model(s)
    res = set()
    for c in [c for c in PROBE + alpha if 0x20 < c < 0xD800]:
        exp = model.wle.in_class(body[1], c)
        res.add(exp)
        for name, label in (('only', (c,)), ('after', (0x62, c)), ('twice', (c, c))):
            got = lgr.rules_lookup[name].matches(label, lgr.rules_lookup, lgr.classes_lookup, env.unidb())
            ctx.eq(bool(got), exp, 'class-in-rule', lambda: 'U+%04X %s %s' % (c, name, s.classes))
        ctx.event('in' if exp else 'out')
    if len(res) == 2:
        ctx.seen('rule', body[1])


SCRIPTS = {'Latn': [0x61, 0x7A, 0xE9, 0x41], 'Grek': [0x3B1, 0x3B4], 'Cyrl': [0x430], 'Hebr': [0x5D0, 0x5D1],
           'Hani': [0x4E00, 0x9FA5], 'Kana': [0x30A2], 'Hira': [0x3042], 'Deva': [0x905], 'Zinh': [0x301, 0x200D],
           'Zyyy': [0x2D, 0x31, 0x24, 0x5B]}


def properties(ctx):
    """Script property classes, alone and combined with literals."""
    rng = ctx.rng
    name = rng.choice(sorted(SCRIPTS))
    other = rng.choice(sorted(SCRIPTS))
    every = [c for l in SCRIPTS.values() for c in l]
    lits = gen.subset(rng, every, 1, 3)
    a, b, l = set(SCRIPTS[name]), set(SCRIPTS[other]), set(lits)
    P = lambda n: ('prop', 'sc:' + n)
    ast, exp = rng.choice([(P(name), a), (('comp', P(name)), set(every) - a), (('union', [P(name), P(other)]), a | b),
                           (('inter', P(name), ('cps', lits)), a & l), (('diff', P(name), ('cps', lits)), a - l),
                           (('symdiff', P(name), ('cps', lits)), a ^ l)])
    s = spec.Spec()
    s.add(spec.Ch((0x61,)))
    s.classes.append(('cls', ast))
    s.rules.append(('only', [('start',), ('class', ('ref', 'cls'), None), ('end',)]))
    lgr = spec.load(s, env.unidb(), allow_invalid_property=True)
    for c in every:
        got = lgr.rules_lookup['only'].matches((c,), lgr.rules_lookup, lgr.classes_lookup, env.unidb())
        ctx.eq(bool(got), c in exp, 'script-class', lambda: 'U+%04X %s' % (c, ast))
    ctx.event('script')
    ctx.seen('script', ast)


def tag_classes(ctx):
    """The tag classes list exactly the tagged code points."""
    rng = ctx.rng
    s, alpha = mk(ctx, 0)
    lgr = spec.load(s)
    exp = {t: set(v) for t, v in s.tags().items()}
    ctx.eq({t: set(c.codepoints) for t, c in lgr.get_tag_classes().items()}, exp, 'tag-classes', '')
    ctx.eq(sorted(lgr.all_tags()), sorted(exp), 'all-tags', '')
    if exp:
        ctx.seen('tags', sorted((t, sorted(v)) for t, v in exp.items()))
        ctx.event('tagged')


SCENARIOS = [Scenario('algebra', algebra, 220, 3000, need=('members', 'empty')),
             Scenario('in-rules', in_rules, 160, 2000, need=('in', 'out')),
             Scenario('properties', properties, 40, 400, need=('script',)),
             Scenario('tag-classes', tag_classes, 160, 2000, need=('tagged',))]
