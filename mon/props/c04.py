"""C04: whole label evaluation rules mean what RFC 7940 says."""
from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model

RULE = ('random rules (literals, any, choice, nested rules, by-ref, look-around, counts, class algebra) against '
        'labels over the rule alphabet; a case is non-trivial when the rule has both matching and non-matching labels '
        'in its batch')
ASSUMPTIONS = ['ICU mishandles start/end inside alternatives of a look-behind; they are not generated there',
               'the picu binding mishandles supplementary-plane strings, so labels are in the BMP']


def prepare():
    env.unidb()


def mixed(rng):
    """An alphabet with code points that have a meaning in patterns, sometimes."""
    if rng.random() < 0.75:
        return None
    return sorted(gen.subset(rng, gen.META, 1, 3) + gen.subset(rng, gen.LATIN, 1, 3))


def wl(ctx):
    rng = ctx.rng
    alpha = mixed(rng)
    s = gen.gen_lgr(rng, alpha=alpha, rules=(1, 4), actions=(0, 0), variants=0, seqs=(0, 0), context=0)
    lgr = spec.load(s, env.unidb(), allow_invalid_property=alpha is not None)
    model = Model(s)
    labels = [gen.gen_label(rng, s, 6) for _ in range(25)]
    ctx.show(dict(xml=spec.to_xml(s).decode(), labels=labels[:3]))
    for name, body in s.rules:
        rule = lgr.rules_lookup[name]
        res = set()
        for l in labels:
            got = rule.matches(l, lgr.rules_lookup, lgr.classes_lookup, env.unidb())
            exp = model.wle.matches(name, l)
            res.add(exp)
            ctx.event('match' if exp else 'no-match')
            ctx.eq(bool(got), exp, 'rule-match', lambda: 'rule %s label %s pattern %r\n%s' % (name, l, rule.get_pattern(lgr.rules_lookup, lgr.classes_lookup, env.unidb()), spec.rule_xml(name, body)+str(s.classes)+str(s.tags())))
        if len(res) == 2:
            ctx.seen(spec.rule_xml(name, body))


def context(ctx):
    """Context rules: the anchor is the code point (sequence) under evaluation, at its own place."""
    rng = ctx.rng
    alpha = mixed(rng)
    s = gen.gen_lgr(rng, alpha=alpha or sorted(gen.subset(rng, gen.LATIN + gen.OTHERS[-4:], 2, 4)), rules=(0, 2),
                    actions=(0, 0), variants=0, seqs=(0, 0), context=0.5, ranges=0)
    lgr = spec.load(s, env.unidb(), allow_invalid_property=alpha is not None)
    model = Model(s)
    labels = [gen.gen_label(rng, s, 5, noise=0) for _ in range(10)]
    for name, body in s.rules:
        rule = lgr.rules_lookup[name]
        res = set()
        for l in labels:
            for i in range(len(l)):
                for n in (1, 2):
                    cp = l[i:i + n]
                    if len(cp) < n:
                        continue
                    got = rule.matches(l, lgr.rules_lookup, lgr.classes_lookup, env.unidb(), anchor=cp, index=i)
                    exp = model.wle.matches(name, l, cp, i)
                    res.add(exp)
                    ctx.event('match' if exp else 'no-match')
                    if i and exp and model.wle.has_anchor(body):
                        ctx.event('anchored-inside')
                    ctx.eq(bool(got), exp, 'context-match', lambda: 'rule %s label %s anchor %s at %d\n%s' % (
                        name, l, cp, i, spec.rule_xml(name, body) + str(s.classes) + str(s.tags())))
        if len(res) == 2:
            ctx.seen('context', spec.rule_xml(name, body), s.classes, s.tags())


def counts(ctx):
    """Exact meaning of count on every kind of matcher, over all the labels of a small alphabet."""
    import itertools
    rng = ctx.rng
    s = spec.Spec()
    for cp in (0x61, 0x62):
        s.add(spec.Ch((cp,), tag=['t%x' % cp]))
    a = rng.randint(0, 2)
    cnt = rng.choice([None, '1', '2', '3', '%d+' % a, '%d:%d' % (a, a + rng.randint(1 if a == 0 else 0, 2))])
    inner = rng.choice([None, '2', '1:2'])
    m = rng.choice([('any', cnt), ('char', (0x61,), cnt), ('char', (0x61, 0x62), cnt),
                    ('class', ('tag', 't61'), cnt), ('class', ('cps', [0x61, 0x62]), cnt),
                    ('class', ('comp', ('cps', [0x62])), cnt),
                    ('choice', [('char', (0x61,), None), ('char', (0x62, 0x62), None)], cnt),
                    ('choice', [('char', (0x61,), inner), ('rule', [('char', (0x62,), None), ('any', None)], None)],
                     cnt),
                    ('rule', [('char', (0x61,), None), ('char', (0x62,), inner)], cnt),
                    ('ruleref', 'base', cnt)])
    s.rules.append(('base', [('choice', [('char', (0x61, 0x61), None), ('char', (0x62,), None)], None)]))
    kind = rng.choice(['full', 'behind', 'ahead'])
    if kind == 'full':
        body = [('start',), m, ('end',)]
    elif kind == 'behind':
        body = [('behind', [('start',), m]), ('char', (0x62,), None), ('end',)]
    else:
        body = [('start',), ('char', (0x61,), None), ('ahead', [m, ('end',)])]
    s.rules.append(('rule', body))
    lgr = spec.load(s, env.unidb())
    model = Model(s)
    rule = lgr.rules_lookup['rule']
    n = 0
    for size in range(1, 8):
        for l in itertools.product((0x61, 0x62), repeat=size):
            exp = model.wle.matches('rule', l)
            n += exp
            ctx.eq(bool(rule.matches(l, lgr.rules_lookup, lgr.classes_lookup, env.unidb())), exp, 'count-match',
                   lambda: '%s label %s' % (spec.rule_xml('rule', body), l))
    ctx.event('match', n)
    if n:
        ctx.seen('count', spec.rule_xml('rule', body))


def runs(ctx):
    """Repetitions over the whole length a label may have (63)."""
    rng = ctx.rng
    s = spec.Spec()
    for cp in (0x61, 0x62, 0x63):
        s.add(spec.Ch((cp,), tag=['t']))
    lo = rng.choice([0, 1, 2, 5, 9, 17, 30, 40, 62])
    hi = rng.choice([lo, lo + 1, lo + 7, lo + 20, 63])
    cnt = rng.choice(['%d' % max(1, lo), '%d+' % lo, '%d+' % lo, '%d:%d' % (lo, max(hi, 1))])
    unit = rng.choice([('char', (0x61,), cnt), ('class', ('cps', [0x61, 0x62]), cnt), ('class', ('tag', 't'), cnt),
                       ('any', cnt), ('char', (0x61, 0x62), cnt)])
    c = ('char', (0x63,), None)
    shape = rng.choice(['behind', 'behind', 'ahead', 'full'])
    if shape == 'behind':
        body = [('behind', [('start',), unit]), ('anchor',)]
    elif shape == 'ahead':
        body = [('anchor',), ('ahead', [unit, ('end',)])]
    else:
        body = [('start',), unit, c, ('end',)]
    s.rules.append(('rule', body))
    lgr = spec.load(s, env.unidb())
    model = Model(s)
    rule = lgr.rules_lookup['rule']
    n = {True: 0, False: 0}
    sizes = {x for k in (0, lo, hi) for x in (k - 1, k, k + 1)} | {rng.randint(1, 62), 62}
    for size in sorted(x for x in sizes if 0 <= x <= 62):
        run = [(0x61,) * size, tuple(rng.choice((0x61, 0x62)) for _ in range(size)), ((0x61, 0x62) * 31)[:size]]
        for r in run:
            l, i = ((0x63,) + r, 0) if shape == 'ahead' else (r + (0x63,), size)
            args = (l,) if shape == 'full' else (l, (0x63,), i)
            exp = model.wle.matches('rule', *args)
            kw = {} if shape == 'full' else dict(anchor=(0x63,), index=i)
            n[exp] += 1
            ctx.eq(bool(rule.matches(l, lgr.rules_lookup, lgr.classes_lookup, env.unidb(), **kw)), exp, 'long-run',
                   lambda: '%s label %s' % (spec.rule_xml('rule', body), l))
    ctx.event('match', n[True])
    ctx.event('no-match', n[False])
    if n[True] and n[False]:
        ctx.seen('run', spec.rule_xml('rule', body))


SCENARIOS = [Scenario('whole-label', wl, 400, 4000, need=('match', 'no-match')),
             Scenario('context', context, 400, 4000, need=('match', 'no-match', 'anchored-inside')),
             Scenario('counts', counts, 160, 1600, need=('match',)),
             Scenario('runs', runs, 600, 6000, need=('match', 'no-match'))]
