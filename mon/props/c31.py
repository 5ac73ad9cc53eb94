"""C31: text of code points, characters, classes and rules."""
import re
from ..core import Scenario
from .. import env, gen, spec

RULE = ('random code points, sequences, sets, variants, classes and rules: the text the code gives is read back, or compared '
        'with the one written from an independent description; a case is non-trivial when there are ranges, sequences '
        'or nested rules')
ASSUMPTIONS = ['the notation of the rules is that of the documentation strings and symbols of the classes '
               '(∪ ∩ \\ △ ^{} → ← ⚓)']


def prepare():
    env.unidb()


def some_cps(rng, n):
    base = rng.choice([0, 0x61, 0x3B1, 0x4E00, 0xFFF8, 0x1F600, 0x10FFF0])
    r = rng.random()
    if r < 0.5:
        return [base + rng.randint(0, 15) for _ in range(n)]
    return [rng.choice([base + rng.randint(0, 6), rng.randint(0, 0x10FFFF)]) for _ in range(n)]


def read_cps(text):
    """U+0061 U+0063-U+0065 -> list of (first, last); None when malformed."""
    res = []
    for part in text.split(' '):
        m = re.match(r'^U\+([0-9A-F]{4,6})(?:-U\+([0-9A-F]{4,6}))?$', part)
        if not m:
            return None
        a = int(m.group(1), 16)
        res.append((a, int(m.group(2), 16) if m.group(2) else a))
    return res


def formats(ctx):
    from lgr.utils import (cp_to_ulabel, cp_to_str, format_cp, format_cp_collapsed, collapse_codepoints,
                           let_user_choose, script_iso15924_to_unicode)
    rng = ctx.rng
    cps = some_cps(rng, rng.randint(0, 9))
    kind = rng.choice([list, tuple])
    seq = kind(cps)
    one = rng.randint(0, 0x10FFFF)
    ctx.eq(cp_to_ulabel(seq), ''.join(map(chr, cps)), 'ulabel', cps)
    ctx.eq(cp_to_ulabel(one), chr(one), 'ulabel', one)
    ctx.eq(int(cp_to_str(one), 16), one, 'hexadecimal', one)
    ctx.eq(read_cps(format_cp(one)), [(one, one)], 'format', one)
    ctx.eq(read_cps(format_cp_collapsed(one)), [(one, one)], 'format-collapsed', one)
    for f in (cp_to_ulabel, format_cp, format_cp_collapsed):
        ctx.eq(f(None), 'None', 'none', '')
    if cps:
        ctx.eq(read_cps(format_cp(seq)), [(c, c) for c in cps], 'format', cps)
    else:
        ctx.eq(format_cp(seq), '', 'format', cps)
        ctx.event('empty')
    # ranges: sorted, disjoint, as long as possible, nothing else
    arg = rng.choice([list, tuple, set, frozenset])(cps)
    keep = type(arg)(arg)
    ranges = collapse_codepoints(arg)
    ctx.eq(arg, keep, 'argument-changed', cps)
    ctx.eq([c for a, b in ranges for c in range(a, b + 1)], sorted(set(cps)), 'ranges', lambda: (cps, ranges))
    ctx.check(all(x[1] + 1 < y[0] for x, y in zip(ranges, ranges[1:])), 'ranges-not-maximal', lambda: (cps, ranges))
    text = format_cp_collapsed(arg)
    if cps:
        got = read_cps(text)
        if ctx.check(got is not None, 'malformed-text', text):
            ctx.eq([c for a, b in got for c in range(a, b + 1)], sorted(set(cps)), 'format-collapsed', text)
            ctx.check(all(b - a != 1 for a, b in got), 'range-of-two', text)
            ctx.check(len(got) <= sum(2 if b == a + 1 else 1 for a, b in ranges), 'not-collapsed', text)
            if any(a != b for a, b in got):
                ctx.event('range')
                ctx.seen(tuple(cps))
    else:
        ctx.eq(text, '', 'format-collapsed', cps)
    if len(set(cps)) < len(cps):
        ctx.event('duplicate')
    # both values or the only one
    pool = [None, 'a', 'b', 'a|b', '', 1, (1, 2)]
    x, y = rng.choice(pool), rng.choice(pool)
    sep = rng.choice(['|', ', ', '/'])
    exp = y if x is None else x if y is None or x == y else '%s%s%s' % (x, sep, y)
    ctx.eq(let_user_choose(x, y, sep), exp, 'choice', (x, y))
    ctx.eq(let_user_choose(x, y), let_user_choose(x, y, '|'), 'choice', (x, y))


def cls_text(ast):
    k = ast[0]
    if k == 'ref':
        return '[:class-ref-%s:]' % ast[1]
    if k == 'tag':
        return '[:class tag=%s:]' % ast[1]
    if k == 'prop':
        return '[:class property:%s=%s:]' % tuple(ast[1].split(':'))
    if k == 'cps':
        from itertools import groupby
        out = []
        cps = sorted(set(ast[1]))
        for _, g in groupby(enumerate(cps), lambda x: x[1] - x[0]):
            g = [c for _, c in g]
            if len(g) > 2:
                out.append('U+%04X-U+%04X' % (g[0], g[-1]))
            else:
                out.extend('U+%04X' % c for c in g)
        return ' '.join(out)
    if k == 'comp':
        return '^{%s}' % cls_text(ast[1])
    sym = dict(union='∪', inter='∩', diff='\\', symdiff='△')[k]
    parts = ast[1] if k == 'union' else ast[1:]
    return '(%s)' % sym.join(cls_text(p) for p in parts)


def count_text(c):
    if not c:
        return ''
    if ':' in c:
        return '{%s,%s}' % tuple(c.split(':'))
    if c.endswith('+'):
        return '{%s,}' % c[:-1]
    return '{%s}' % c


def counted(text, c):
    return '(%s)%s' % (text, count_text(c)) if c else text


def text(m):
    k = m[0]
    if k in ('start', 'end'):
        return '(%s)' % k
    if k == 'anchor':
        return '⚓'
    if k == 'any':
        return '(any)' + count_text(m[1])
    if k == 'char':
        return counted(' '.join('U+%04X' % c for c in m[1]), m[2])
    if k == 'class':
        return counted(cls_text(m[1]), m[2])
    if k == 'ruleref':
        return counted('(:rule-ref-%s:)' % m[1], m[2])
    if k == 'rule':
        return counted(' '.join(text(x) for x in m[1]), m[2])
    if k == 'choice':
        return '(%s)%s' % ('|'.join(text(x) for x in m[1]), count_text(m[2]))
    if k == 'ahead':
        return '→(%s)' % ''.join(text(x) for x in m[1])
    if k == 'behind':
        return '(%s)←' % ''.join(text(x) for x in m[1])
    raise AssertionError(m)


def rules(ctx):
    """The text of the rules, classes and characters of a document."""
    rng = ctx.rng
    gen.COMP = 1
    s = gen.gen_lgr(rng, seqs=(0, 3), rules=(1, 4), context=0.3, astral=True)
    lgr = spec.load(s)
    d = lambda: spec.to_xml(s).decode()
    for name, ast in s.rules:
        r = lgr.rules_lookup[name]
        exp = ' '.join(text(m) for m in ast)
        ctx.eq(str(r), exp, 'rule-text', d)
        ctx.check(name in repr(r), 'rule-name', lambda: repr(r))
        if re.search(r'U\+\w+ U\+', exp):
            ctx.event('sequence-or-set')
        if '←' in exp or '→' in exp:
            ctx.event('look-around')
        ctx.seen(exp)
    for name, ast in s.classes:
        c = lgr.classes_lookup[name]
        ctx.eq(str(c), cls_text(ast), 'class-text', d)
        ctx.event('class')
        if '∪' in str(c):
            ctx.event('union')
    for cp, ch in s.chars.items():
        c = lgr.get_char(cp)
        glyph = ''.join(map(chr, cp))
        ctx.eq(str(c), glyph, 'char-text', d)
        ctx.check(' '.join('%04X' % x for x in cp) in repr(c), 'char-repr', lambda: repr(c))
        for v in c.get_variants():
            ctx.eq(str(v), ''.join(map(chr, v.cp)), 'variant-text', d)
            ctx.check(' '.join('%04X' % x for x in v.cp) in repr(v), 'variant-repr', lambda: repr(v))
            ctx.event('variant')
    ctx.eq(str(lgr), lgr.name, 'lgr-text', d)
    # edits: an empty class
    from lgr.classes import Class
    c = Class(name='x')
    ctx.eq(str(c), '', 'empty-class', '')
    cps = some_cps(rng, 4)
    for cp in cps:
        c.add_codepoint(cp)
    ctx.eq(str(c), cls_text(('cps', cps)), 'class-text', cps)
    ctx.show(dict(xml=d(), rules=[str(r) for r in lgr.rules_lookup.values()]))


SCENARIOS = [
    Scenario('formats', formats, 4000, 60000, ['range', 'duplicate', 'empty']),
    Scenario('rules', rules, 1000, 10000, ['sequence-or-set', 'look-around', 'class', 'union', 'variant']),
]
