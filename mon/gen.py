"""Workload generators (all randomness from the rng given)."""
from .spec import Spec, Ch, Var, Act

# BMP code points, IDNA2008 valid, whose General_Category and Script never changed
LATIN = [0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68]
OTHERS = [0x3B1, 0x3B2, 0x430, 0x5D0, 0x5D1, 0x4E00, 0x4E01, 0x30A2, 0x2D, 0x31, 0x32, 0x301, 0x661, 0x200D]
ASTRAL = [0x10428, 0x20000]
# Code points that mean something in patterns
META = [ord(c) for c in '%%%[]^&{}\\$()*+?.|:#<>=!,/~ "\'']
TYPES = ['blocked', 'allocatable', 'activated', 'invalid', 'out-of-repertoire', 't1', 't2', 'r-t3']
TAGS = ['tag1', 'tag2', 'sc-latn', 'x.y']
DISPS = ['invalid', 'blocked', 'allocatable', 'activated', 'valid', 'custom']
CATS = ['Ll', 'Nd', 'Mn', 'Pd', 'Ll', 'Nd', 'Mn', 'Pd', 'Lo', 'L']


def subset(rng, pool, lo, hi):
    hi = min(hi, len(pool))
    n = rng.randint(min(lo, hi), hi)
    return rng.sample(list(pool), n)


def alphabet(rng, lo=3, hi=6, others=0.35, astral=False):
    pool = list(LATIN)
    if rng.random() < others:
        pool += OTHERS
    if astral and rng.random() < 0.4:
        pool += ASTRAL
    return sorted(subset(rng, pool, lo, hi))


def gen_count(rng, lookbehind=False):
    r = rng.random()
    if r < 0.62:
        return None
    if r < 0.72:
        return str(rng.randint(1, 2))
    if r < 0.87:
        return '%d+' % rng.randint(0, 2)
    a = rng.randint(0, 2)
    return '%d:%d' % (a, a + rng.randint(1 if a == 0 else 0, 2))


# Complements are huge sets, slow in the ICU binding: monitors that do not look at them do without.
COMP = 1


def gen_class(rng, alpha, names=(), tags=(), depth=2):
    r = rng.random()
    if depth > 0 and r < 0.45:
        # complements are huge sets, slow in the ICU binding
        k = rng.choice(['comp', 'union', 'inter', 'diff', 'symdiff', 'union', 'inter', 'diff', 'symdiff'])
        if k == 'comp' and (rng.random() >= COMP or depth < 2 and rng.random() < 0.6):
            k = 'diff'
        sub = lambda: gen_class(rng, alpha, names, tags, depth - 1)
        if k == 'comp':
            return ('comp', sub())
        if k == 'union':
            return ('union', [sub() for _ in range(rng.randint(2, 3))])
        return (k, sub(), sub())
    if names and r < 0.6:
        return ('ref', rng.choice(list(names)))
    if tags and r < 0.75:
        return ('tag', rng.choice(list(tags)))
    if r < 0.8:
        return ('prop', 'gc:' + rng.choice(CATS if COMP == 1 else CATS[:-2]))
    cps = subset(rng, alpha, 1, max(1, len(alpha) - 1))
    if rng.random() < 0.1:
        cps.append(rng.choice([0x24, 0x26, 0x27, 0x41]))
    return ('cps', sorted(cps))


def gen_matchers(rng, alpha, names, tags, rules, depth, n=None, behind=False, around=True, counts=True,
                 top=True):
    """A list of matchers, without anchor. Unbounded repetitions are not nested: backtracking cost."""
    res = []
    plus = behind
    for _ in range(n or rng.randint(1, 3)):
        r = rng.random()
        if behind and r < 0.12:
            # ICU mishandles end/start in alternatives of a look-behind: only a leading start there
            if top and not res and r < 0.06:
                res.append(('start',))
                continue
            r = 0.3
        cnt = gen_count(rng)
        if not counts and cnt is not None:
            cnt = rng.choice([None, '1', '2', '0:1', '1:2'])
        if behind and cnt and cnt.endswith('+'):
            if plus and counts:
                plus = False        # one unbounded repetition in a look-behind
            else:
                cnt = None
        sub = counts and cnt is None
        if r < 0.06:
            res.append(('start',))
        elif r < 0.12:
            res.append(('end',))
        elif r < 0.22:
            res.append(('any', cnt))
        elif r < 0.44:
            res.append(('char', tuple(rng.choice(alpha) for _ in range(rng.choice([1, 1, 1, 2]))), cnt))
        elif r < 0.62:
            res.append(('class', gen_class(rng, alpha, names, tags, 1), cnt))
        elif depth <= 0:
            res.append(('char', (rng.choice(alpha),), None))
        elif r < 0.76:
            res.append(('choice', [gen_matchers(rng, alpha, names, tags, rules, depth - 1, 1, behind, around,
                                                sub and not behind, False)[0]
                                   for _ in range(rng.randint(2, 3))], cnt))
        elif r < 0.82:
            res.append(('rule', gen_matchers(rng, alpha, names, tags, rules, depth - 1, None, behind, around,
                                             sub and not behind, False), cnt))
        elif r < 0.9 and rules:
            res.append(('ruleref', rng.choice(list(rules)), None))
        elif not around:
            res.append(('char', (rng.choice(alpha),), None))
        elif r < 0.95:
            res.append(('ahead', gen_matchers(rng, alpha, names, tags, [], depth - 1, None, False, False, sub)))
        else:
            res.append(('behind', gen_matchers(rng, alpha, names, tags, [], min(depth - 1, 1), rng.randint(1, 2), True,
                                               False, sub)))
    return res


def gen_context_rule(rng, alpha, names, tags, rules):
    """Body of a parameterized context rule: [look-behind] anchor [look-ahead], or a choice of them."""
    def one():
        body = []
        k = rng.random()
        if k < 0.7:
            body.append(('behind', gen_matchers(rng, alpha, names, tags, [], 1, rng.randint(1, 2), True, False)))
        body.append(('anchor',))
        if k >= 0.4 or not body:
            body.append(('ahead', gen_matchers(rng, alpha, names, tags, [], 1, rng.randint(1, 2), False, False)))
        return body
    if rng.random() < 0.8:
        return one()
    return [('choice', [('rule', one(), None) for _ in range(2)], None)]


def gen_lgr(rng, alpha=None, seqs=(0, 3), ranges=0.3, variants=0.5, rules=(0, 3), actions=(0, 4), context=0.3,
            tags=0.4, refs=False, comments=False, meta=False, reflexive=0.25, types=None, seq_vars=True, out_vars=0.1,
            untyped=0.15, astral=False, wle=True, var_seqs=0.2):
    """A random well formed LGR."""
    s = Spec()
    alpha = alpha or alphabet(rng, astral=astral)
    s.alpha = alpha
    types = types or subset(rng, TYPES, 2, 4)
    s.vtypes = types
    if refs:
        for i in range(rng.randint(1, 4)):
            rid = rng.choice([str(i), str(10 + i), 'REF-%d' % i, 'A.B_%d' % i])
            s.refs.append((rid, 'Ref value %d é <&>' % i, rng.choice([None, 'ref comment "%d"' % i])))
    rids = [r[0] for r in s.refs]

    def mk_ref():
        return subset(rng, rids, 0, 2) if rids and rng.random() < 0.5 else []

    def mk_comment():
        return rng.choice([None, 'comment', 'cömment & <more> "x"']) if comments else None

    def mk_tags():
        return subset(rng, TAGS, 1, 2) if rng.random() < tags else []

    singles = list(alpha)
    n_range = 0
    if rng.random() < ranges:
        # a range, in another zone so that it does not meet the alphabet, or over part of it
        base = rng.choice([0x6B, 0x3B4, 0x671, 0x4E10])
        n_range = rng.randint(2, 4)
        s.add_range(base, base + n_range - 1, tag=mk_tags(), ref=mk_ref(), comment=mk_comment())
        alpha_all = alpha + [base, base + n_range - 1]
    else:
        alpha_all = list(alpha)
    s.alpha = alpha_all
    for cp in singles:
        s.add(Ch((cp,), tag=mk_tags(), ref=mk_ref(), comment=mk_comment()))
    for _ in range(rng.randint(*seqs)):
        cp = tuple(rng.choice(alpha_all) for _ in range(rng.choice([2, 2, 2, 3])))
        if cp not in s.chars:
            s.add(Ch(cp, ref=mk_ref(), comment=mk_comment()))
    # remove some single code points covered by sequences (only reachable through the sequence)
    if rng.random() < 0.3:
        seq_cps = [c for cp in s.chars if len(cp) > 1 for c in cp if (c,) in s.chars and not s.chars[(c,)].rng]
        if seq_cps and len(singles) > 2:
            s.chars.pop((rng.choice(seq_cps),), None)

    # rules
    tagnames = sorted(s.tags())
    names, rnames, ctx = [], [], []
    if wle:
        for i in range(rng.randint(0, 2)):
            ast = gen_class(rng, alpha_all, names, tagnames)
            if ast[0] == 'ref':     # a named class is not a reference
                ast = ('cps', sorted(subset(rng, alpha_all, 1, 3)))
            s.classes.append(('class-%d' % i, ast))
            names.append('class-%d' % i)
        for i in range(rng.randint(*rules)):
            s.rules.append(('rule-%d' % i, gen_matchers(rng, alpha_all, names, tagnames, rnames, 2)))
            rnames.append('rule-%d' % i)
        if context > 0:
            for i in range(rng.randint(1, 2)):
                s.rules.append(('ctx-%d' % i, gen_context_rule(rng, alpha_all, names, tagnames, rnames)))
                ctx.append('ctx-%d' % i)
    s.ctx_rules = ctx

    def mk_context(obj):
        if ctx and rng.random() < context:
            name = rng.choice(ctx + rnames[:1])
            if rng.random() < 0.5:
                obj.when = name
            else:
                obj.not_when = name

    for c in list(s.chars.values()):
        if not c.rng:
            if rng.random() < 0.7:
                mk_context(c)
    # a context rule on a whole range
    for first, last in s.ranges:
        if ctx and rng.random() < context * 0.5:
            name = rng.choice(ctx)
            for cp in range(first, last + 1):
                s.chars[(cp,)].when = name

    # variants
    cps = sorted(s.chars)
    for cp in cps:
        c = s.chars[cp]
        if c.rng or (len(cp) > 1 and not seq_vars):
            continue
        if rng.random() >= variants:
            continue
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < reflexive:
                v = cp
            elif r < reflexive + out_vars:
                v = (rng.choice(LATIN + OTHERS[:6]),)
            elif r < reflexive + out_vars + var_seqs:
                v = tuple(rng.choice(alpha_all) for _ in range(2))
            else:
                v = rng.choice(cps)
            typ = rng.choice(types)
            if v != cp and rng.random() < untyped:
                typ = None
            var = Var(v, typ, ref=mk_ref(), comment=mk_comment())
            mk_context(var)
            if var.ident() not in [x.ident() for x in c.vars]:
                c.vars.append(var)
    gen_actions(rng, s, actions)
    if meta:
        gen_meta(rng, s)
    return s


def gen_actions(rng, s, n=(0, 4)):
    rnames = [r[0] for r in s.rules if not r[0].startswith('ctx')]
    for i in range(rng.randint(*n)):
        a = Act(rng.choice(DISPS))
        if rnames and rng.random() < 0.5:
            if rng.random() < 0.5:
                a.match = rng.choice(rnames)
            else:
                a.not_match = rng.choice(rnames)
        if rng.random() < 0.7 or not (a.match or a.not_match):
            l = subset(rng, s.vtypes, 1, 3)
            k = rng.choice(['any_variant', 'all_variants', 'only_variants'])
            setattr(a, k, l)
        if rng.random() < 0.3:
            a.comment = 'action %d' % i
        s.actions.append(a)


LANGS = ['en', 'fr', 'und-Latn', 'und-Grek', 'und-Cyrl', 'ar', 'zh-Hans', 'ja', 'und-Jpan', 'sr-Cyrl', 'de']


def gen_date(rng):
    return '%04d-%02d-%02d' % (rng.randint(2000, 2035), rng.randint(1, 12), rng.randint(1, 28))


def gen_meta(rng, s):
    m = s.meta
    if rng.random() < 0.7:
        m['version'] = (str(rng.randint(1, 30)), rng.choice([None, 'version comment', 'é & "q"']))
    for k in ('date', 'validity_start', 'validity_end'):
        if rng.random() < 0.6:
            m[k] = gen_date(rng)
    m['languages'] = subset(rng, LANGS, 0, 3)
    m['scopes'] = [(rng.choice(['.', 'example', 'example.com']), rng.choice(['domain', 'domain', 'domain', None]))
                   for _ in range(rng.randint(0, 2))]
    m['unicode_version'] = rng.choice(['6.3.0', '10.0.0', '11.0.0', '15.1.0', '5.2.0'])
    if rng.random() < 0.6:
        m['description'] = (rng.choice(['Plain text é', '<p>html &amp; more</p>', 'line1\nline2  x', 'a ]]> b é', 'x' * 300]),
                            rng.choice(['text/plain', 'text/html', None]))


def gen_label(rng, s, maxlen=5, noise=0.05):
    """A label mostly made of repertoire elements of the spec."""
    cps = sorted(s.chars)
    out = []
    n = rng.randint(1, maxlen)
    while len(out) < n:
        r = rng.random()
        if r < noise or not cps:
            out.append(rng.choice(LATIN + OTHERS))
        elif r < 0.35:
            seqs = [c for c in cps if len(c) > 1]
            out += list(rng.choice(seqs or cps))
        elif r < 0.5 and s.chars:
            c = s.chars[rng.choice(cps)]
            out += list(rng.choice(c.vars).cp if c.vars else c.cp)
        else:
            out += list(rng.choice(cps))
    return tuple(out[:maxlen])
