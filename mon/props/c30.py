"""C30: variants with mixed scripts are hidden, and only they are."""
from ..core import Scenario
from .. import env, gen, spec
from ..spec import Spec, Ch, Var

RULE = ('random LGRs over characters of several scripts (Latin, Greek, Cyrillic, Han, kana, Hangul, Common, Inherited); '
        'for eligible labels the variants returned with hide_mixed_script_variants are compared with the full list, '
        'divided by an independent table of the scripts; a case is non-trivial when some variants are hidden and some '
        'are kept')
ASSUMPTIONS = ['the scripts of the characters drawn are those of a table in the monitor (stable in Unicode)',
               'a variant combining scripts used along with another script in which no variant is wholly written may be kept '
               'or hidden']

SCRIPTS = {}
for _script, _cps in dict(
        Latin=[0x61, 0x62, 0x63, 0x65, 0x6F, 0x70, 0x78, 0xE1, 0xF6],
        Greek=[0x3B1, 0x3B2, 0x3BF, 0x3C1, 0x3C7],
        Cyrillic=[0x430, 0x435, 0x43E, 0x440, 0x445],
        Han=[0x4E00, 0x4E01, 0x529B, 0x53E3],
        Katakana=[0x30AB, 0x30ED, 0x30CB],
        Hiragana=[0x3078, 0x3079],
        Hangul=[0xAC00, 0xAC01],
        Hebrew=[0x5D0, 0x5D1],
        Common=[0x2D, 0x31, 0x30, 0x33, 0x30FC],
        Inherited=[0x301, 0x308]).items():
    for _cp in _cps:
        SCRIPTS[_cp] = _script
JAPANESE = {'Han', 'Hiragana', 'Katakana', 'Latin'}
CJK = {'Han', 'Hiragana', 'Katakana', 'Hangul'}

GROUPS = [
    [(0x61,), (0x3B1,), (0x430,), (0xE1,)], [(0x62,), (0x3B2,)], [(0x63,), (0xE7,)],
    [(0x6F,), (0x3BF,), (0x43E,), (0x30,)], [(0x70,), (0x3C1,), (0x440,)], [(0x78,), (0x3C7,), (0x445,)],
    [(0x53E3,), (0x30ED,)], [(0x529B,), (0x30AB,)], [(0x4E00,), (0x30FC,)], [(0x3078,), (0x30CB,)],
    [(0xF6,), (0x6F, 0x308), (0x3BF, 0x308), (0x43E, 0x308)], [(0xE1,), (0x61, 0x301)], [(0x33,), (0x437,)],
    [(0x61, 0x65), (0xE6,), (0x4D5,)], [(0xAC00,), (0x529B,)], [(0x78, 0x78), (0x3C7, 0x445)], [(0x31,), (0x6C,)],
]
for _s, _cps in dict(Latin=[0xE7, 0xE6, 0x6C], Cyrillic=[0x4D5, 0x437]).items():
    for _cp in _cps:
        SCRIPTS[_cp] = _s


def prepare():
    gen.COMP = 0.15
    env.unidb()


def scripts(cp):
    return {SCRIPTS[c] for c in cp} - {'Common', 'Inherited'}


def permitted(base):
    res = set(base)
    if base & {'Hiragana', 'Katakana'}:
        res |= JAPANESE
    if base & {'Hangul', 'Han'}:
        res.add('Latin')
    return res


def examine(ctx, s, lgr, label):
    rng = ctx.rng
    d = lambda: 'label %s %s\n%s' % (label, scripts(label), spec.to_xml(s).decode())
    include = rng.random() < 0.7
    size = 1
    for i in range(len(label)):
        size *= 1 + sum(len(c.vars) for cp, c in s.chars.items() if label[i:i + len(cp)] == cp)
    if size > 600:
        ctx.event('too-many')
        return
    full = list(lgr.compute_label_disposition(label, include_invalid=include, collect_log=False))
    hidden = list(lgr.compute_label_disposition(label, include_invalid=include, collect_log=False,
                                                hide_mixed_script_variants=True))
    ctx.eq(tuple(hidden[-1][0]), label, 'original-not-last', d)
    cut = lambda g: (tuple(g[0]), g[1], g[2], g[3], frozenset(g[4]))
    ctx.eq([(tuple(g[0]), g[1], g[3]) for g in hidden[-1:]], [(tuple(g[0]), g[1], g[3]) for g in full[-1:]],
           'original-disposition', d)
    byl = {tuple(g[0]): cut(g) for g in full[:-1]}
    got = [tuple(g[0]) for g in hidden[:-1]]
    ctx.eq(len(set(got)), len(got), 'duplicate-variant', d)
    base = permitted(scripts(label))
    kept, mixed = 0, 0
    for g in hidden[:-1]:
        if ctx.check(tuple(g[0]) in byl, 'unknown-variant', lambda: '%s; %s' % (g[0], d())):
            ctx.eq(repr(cut(g)), repr(byl[tuple(g[0])]), 'disposition-changed', d)
    got = set(got)
    # the other scripts the label can be written in, each with the ones used along with it
    written = [permitted(sc) for sc in map(scripts, byl) if len(sc) == 1]
    for cp in byl:
        sc = scripts(cp)
        others = [x for x in sc if sc <= permitted({x})]
        along = any(sc <= w for w in written)
        if sc <= base or len(sc) == 1 or along:
            if ctx.check(cp in got, 'variant-hidden', lambda: '%s %s; %s' % (cp, sc, d())):
                kept += 1
                ctx.event('kept')
                if not sc <= base:
                    ctx.event('other-script')
                    if len(sc) > 1:
                        ctx.event('other-scripts-along')
                if any(SCRIPTS[c] in ('Common', 'Inherited') for c in cp):
                    ctx.event('kept-with-common')
        elif not others:
            if ctx.check(cp not in got, 'mixed-variant-kept', lambda: '%s %s; %s' % (cp, sc, d())):
                mixed += 1
                ctx.event('hidden')
        else:
            ctx.event('either')
    if kept and mixed:
        ctx.seen(label, spec.to_xml(s))
    # the other entry points
    summary, listing = lgr.compute_label_disposition_summary(label, include_invalid=include,
                                                             hide_mixed_script_variants=True)
    ctx.eq(repr([cut(g) for g in listing]), repr([cut(g) for g in hidden]), 'summary-listing', d)
    count = {}
    for g in hidden:
        count[g[1]] = count.get(g[1], 0) + 1
    ctx.eq(dict(summary), count, 'summary-count', d)
    if rng.random() < 0.5:
        some = set(gen.subset(rng, [g[0] for g in full], 0, 3))
        if some:
            r = list(lgr.compute_label_disposition(label, include_invalid=include, collect_log=False,
                                                   hide_mixed_script_variants=True, with_labels=some))
            ctx.eq(repr([cut(g) for g in r[:-1]]), repr([cut(g) for g in hidden[:-1] if tuple(g[0]) in some]),
                   'with-labels', d)
    # the estimation is an upper bound for labels with one reading
    alone = all(len(c) == 1 for c in s.chars)
    if alone and not CJK & set().union(*[scripts(cp) for cp in byl] or [set()]):
        est = lgr.estimate_variant_number(label, hide_mixed_script_variants=True)
        ctx.check(est >= len(hidden), 'estimate-too-low', lambda: '%d < %d; %s' % (est, len(hidden), d()))
        ctx.event('estimate')


def labels(ctx, s, lgr, n, maxlen):
    rng = ctx.rng
    done = 0
    for _ in range(n * 4):
        if rng.random() < 0.7:
            want = permitted({rng.choice(['Latin', 'Greek', 'Cyrillic', 'Han', 'Katakana', 'Hangul'])})
            pool = [cp for cp in s.chars if scripts(cp) <= want]
        else:
            pool = list(s.chars)
        if not pool:
            continue
        label = sum((rng.choice(pool) for _ in range(rng.randint(1, maxlen))), ())
        if not lgr.test_label_eligible(label)[0]:
            continue
        examine(ctx, s, lgr, label)
        done += 1
        if done >= n:
            break
    ctx.show(dict(xml=spec.to_xml(s).decode()))


def groups(ctx):
    """Groups of look-alikes, every member a variant of the others."""
    rng = ctx.rng
    s = Spec()
    typ = rng.choice(['blocked', 'allocatable'])
    for group in gen.subset(rng, GROUPS, 2, 5):
        group = gen.subset(rng, group, 2, 4)
        members = gen.subset(rng, group, 1, len(group)) if rng.random() < 0.2 else group
        for cp in members:
            c = s.chars.get(cp) or s.add(Ch(cp))
            for v in group:
                if v != cp and v not in [x.cp for x in c.vars]:
                    c.vars.append(Var(v, rng.choice([typ, 'blocked'])))
    for cp in gen.subset(rng, sorted(SCRIPTS), 0, 4):
        if (cp,) not in s.chars:
            s.add(Ch((cp,)))
    labels(ctx, s, spec.load(s, env.unidb()), 5, 4)


def anything(ctx):
    rng = ctx.rng
    alpha = sorted(gen.subset(rng, sorted(SCRIPTS), 3, 7))
    s = gen.gen_lgr(rng, alpha=alpha, seqs=(0, 3), context=0.2, rules=(0, 1), actions=(0, 2), variants=0.8, ranges=0,
                    out_vars=0)
    labels(ctx, s, spec.load(s, env.unidb()), 4, 4)


SCENARIOS = [
    Scenario('groups', groups, 1000, 12000, ['kept', 'other-script', 'other-scripts-along', 'hidden', 'kept-with-common',
                                            'estimate']),
    Scenario('anything', anything, 300, 5000, ['kept', 'other-script', 'hidden']),
]
