"""C20: reports of collisions and of differences between labels."""
import io
import re
import tempfile

from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model, derivations, variant_dispositions, TooMany
from . import c06

RULE = ('LGRs with disjoint variant sets (symmetric and transitive), lists of labels and of TLDs with colliding ones, '
        'labels out of the LGR, labels that are TLDs, comments and malformed lines; the pairs reported by the complete '
        'and simple reports, the dump and the comparison are parsed and compared with the pairs computed by the model; '
        'non-trivial: at least three labels colliding together')
ASSUMPTIONS = ['symmetric and transitive variants (documented requirement of index labels)', 'labels are in the BMP']
LRI, PDI = '\u2066', '\u2069'


def prepare():
    gen.COMP = 0.15
    env.unidb()


def u(cp):
    return ''.join(map(chr, cp))


def fmt(cp):
    return ' '.join('U+%04X' % c for c in cp)


def draw(rng, actions=True):
    """An LGR whose variants are symmetric and transitive, and its sets."""
    s, sets = c06.mk_sets(rng)
    for c in s.chars.values():
        # one type per mapping: the disposition of a variant does not depend on the derivation
        for v in c.vars:
            v.type = rng.choice(['blocked', 'allocatable', 'activated', 'x'])
    s.vtypes = ['blocked', 'allocatable', 'activated', 'x']
    if actions:
        for i in range(rng.randint(0, 2)):
            s.rules.append(('rule-%d' % i, gen.gen_matchers(rng, s.alpha, [], [], [], 1)))
        gen.gen_actions(rng, s, (0, 3))
    return s, sets


def draw_labels(rng, s, sets, n=(1, 6)):
    of = {e: st for st in sets for e in st}
    labels = [gen.gen_label(rng, s, 4, noise=0.02) for _ in range(rng.randint(*n))]
    for l in list(labels):
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            if all((c,) in of for c in l):
                labels.append(tuple(rng.choice(of[(c,)])[0] for c in l))
    rng.shuffle(labels)
    return labels[:12]


BAD = ['xn--', 'a b zz\u0301', 'U+110000', 'U+zz', 'hello world']


def write(rng, labels):
    """(lines, labels in order of first appearance, malformed lines)"""
    lines, bad = [], []
    for l in labels:
        r = rng.random()
        if r < 0.1:
            lines.append(rng.choice(['', '  ', '# a comment', '#', '#' + u(l)]) + '\n')
        if r > 0.9:
            b = rng.choice(BAD)
            bad.append(b)
            lines.append(b + '\n')
        if rng.random() < 0.15:
            t = ' '.join('U+%04X' % c for c in l)
        else:
            t = u(l)
        lines.append(rng.choice(['', ' ']) + t + rng.choice(['', ' ', ' # comment', '#c']) + '\n')
    return lines, list(dict.fromkeys(labels)), bad


def stream(rng, lines):
    r = rng.random()
    if r < 0.2:
        # a file, as the tools do
        f = tempfile.TemporaryFile('w+', encoding='utf-8')
        f.write(''.join(lines))
        f.seek(0)
        return f
    return io.StringIO(''.join(lines)) if r < 0.5 else (list(lines) if r < 0.8 else (x for x in lines))


def groups(model, labels):
    """{index: labels}, labels not in the LGR"""
    res, out = {}, []
    for l in labels:
        if not model.preliminary(l)[0]:
            out.append(l)
        else:
            res.setdefault(c06.index_of(model, l), []).append(l)
    return res, out


def pairs(labels):
    return {frozenset((a, b)) for i, a in enumerate(labels) for b in labels[i + 1:]}


BLOCK = re.compile(r'\n### Collision within the (existing TLDs|input file) ###\n\n```\n'
                   r'Label: +\t(.*?) *\| (.*)\nCode points: \t(.*?) *\| (.*)\nCategory: +\t(.*?) *\| (.*)\n```\n')


def strip(x, d, ctx):
    ctx.check(x[:1] == LRI and x[-1:] == PDI and x[1:2] == x[-2:-1] == "'", 'label-display', lambda: '%r %s' % (x, d()))
    return tuple(map(ord, x[2:-2]))


def parse_blocks(ctx, text, d):
    """[(col, label, cat, label, cat)]"""
    res = []
    for m in BLOCK.finditer(text):
        a, b = strip(m.group(2), d, ctx), strip(m.group(3), d, ctx)
        ctx.eq((m.group(4), m.group(5)), ('[%s]' % fmt(a), '[%s]' % fmt(b)), 'code-points-of-collision', d)
        res.append((m.group(1), a, m.group(6), b, m.group(7)))
    ctx.eq(len(res), text.count('### Collision within'), 'unparsed-collision', d)
    return res


def check_complete(ctx, text, by, labels, tlds, d, order=True):
    """The blocks of a complete report against the groups of labels and TLDs."""
    blocks = parse_blocks(ctx, text, d)
    pos = {l: i for i, l in enumerate(labels)}
    in_file = [b for b in blocks if b[0] == 'input file']
    in_tlds = [b for b in blocks if b[0] != 'input file']
    exp = set()
    exp_tld = set()
    for g in by.values():
        mine = [l for l in g if l in pos]
        exp |= pairs(mine)
        exp_tld |= {(l, t) for l in mine for t in g if t in tlds and t != l}
    got = [frozenset((b[1], b[3])) for b in in_file]
    ctx.eq(sorted(map(sorted, set(got))), sorted(map(sorted, exp)), 'pairs-of-labels', d)
    ctx.eq(len(got), len(set(got)), 'pair-of-labels-repeated', lambda: '%s %s' % (got, d()))
    ctx.check(all(b[2] == b[4] == 'Primary' for b in in_file), 'category', d)
    if order:
        ctx.check(all(pos.get(b[1], 0) < pos.get(b[3], 0) for b in in_file), 'order-of-labels', d)
    got = [(b[1], b[3]) for b in in_tlds]
    ctx.eq(sorted(set(got)), sorted(exp_tld), 'pairs-with-tlds', d)
    ctx.eq(len(got), len(set(got)), 'pair-with-tld-repeated', lambda: '%s %s' % (got, d()))
    ctx.eq('No collision in the list of labels' in text, not exp, 'no-collision', d)
    return exp, exp_tld


def expected_variants(model, label):
    """{variant: (disposition, action index)}; one derivation each."""
    try:
        res = variant_dispositions(model, label, derivations(model, label, limit=1500))
    except TooMany:
        raise Skip()
    out = {}
    for v, x in res.items():
        dispositions = {(disp, idx) for disp, idx, _ in x}
        if len(dispositions) != 1:
            raise Skip()
        out[v] = dispositions.pop()
    return out


DUMP = re.compile(r'\n## Dump for label (.*?) \[(.*?)\]: ##\n\n\n```\n(.*?)\n```\n', re.S)
LINE = re.compile(r'(Primary|Variant|TLD) Label: (.*?) \[(.*?)\]\n\tDisposition (.*)\n')


def check_dump(ctx, text, model, by, labels, tlds, d):
    seen = {}
    for m in DUMP.finditer(text):
        l = strip(m.group(1), d, ctx)
        ctx.check(l not in seen, 'label-dumped-twice', d)
        ctx.eq(m.group(2), fmt(l), 'dump-code-points', d)
        seen[l] = m.group(3)
    exp = {l for g in by.values() for l in g if l in labels}
    ctx.eq(sorted(seen), sorted(exp), 'labels-of-dump', d)
    ctx.eq(len(seen), text.count('## Dump for label'), 'unparsed-dump', d)
    for l in exp & set(seen):
        variants = expected_variants(model, l)
        lines = {}
        for cat, v, cps, disp in LINE.findall(seen[l]):
            v = strip(v, d, ctx)
            ctx.eq(cps, fmt(v), 'dump-variant-code-points', d)
            ctx.check(v not in lines, 'variant-dumped-twice', d)
            lines[v] = (cat, disp)
        want = {v: ('Primary' if v in labels else 'TLD' if v in tlds else 'Variant', x[0])
                for v, x in variants.items() if v != l}
        ctx.eq(lines, want, 'dump-of-label', lambda: 'label %s %s' % (l, d()))
        counts = {}
        for x in variants.values():
            counts[x[0].lower()] = counts.get(x[0].lower(), 0) + 1
        got = dict((a, int(b)) for a, b in re.findall(r'\n - (.*): (\d+)', seen[l]))
        ctx.eq(got, counts, 'disposition-counts', lambda: 'label %s %s' % (l, d()))
        ctx.event('dumped')


def setup(ctx):
    rng = ctx.rng
    s, sets = draw(rng)
    lgr = spec.load(s, env.unidb())
    model = Model(s)
    lines, labels, bad = write(rng, draw_labels(rng, s, sets))
    return s, sets, lgr, model, lines, labels, bad


def section(text, title):
    m = re.search(r'\n*# %s #\n\n(.*?)(?=\n# |\Z)' % title, text, re.S)
    return m.group(1) if m else None


def report(ctx):
    """collision(): complete report, with or without TLDs and dump."""
    from lgr.tools.diff_collisions import collision, basic_collision, get_collisions
    rng = ctx.rng
    s, sets, lgr, model, lines, labels, bad = setup(ctx)
    tl, tlds, tbad = None, [], []
    if rng.random() < 0.6:
        cands = draw_labels(rng, s, sets, (0, 3)) + rng.sample(labels, min(len(labels), rng.choice([0, 1, 2])))
        for l in rng.sample(labels, min(2, len(labels))):
            st = {e: x for x in sets for e in x}
            if all((c,) in st for c in l):
                cands.append(tuple(rng.choice(st[(c,)])[0] for c in l))
        tl, tlds, tbad = write(rng, cands)
    d = lambda: 'labels %s tlds %s\n%s' % (labels, tlds, spec.to_xml(s).decode())
    ctx.show(dict(xml=spec.to_xml(s).decode(), labels=''.join(lines)))
    by, out = groups(model, labels + [t for t in tlds if t not in labels])
    out = [l for l in out if l in labels]
    dump = rng.random() < 0.4
    before = spec.snapshot(lgr)
    with_tlds = stream(rng, tl) if tl is not None else None
    text = ''.join(collision(lgr, stream(rng, lines), with_tlds, show_dump=dump, quiet=rng.random() < 0.6))
    exp, exp_tld = check_complete(ctx, text, by, labels, set(tlds), d)
    head = re.sub(r'TLD [^\n]*\n \(WARNING[^\n]*?\)', '', text.split('\n# ')[0])
    ctx.eq(re.findall(r'^Label (.*?): .+$', head, re.M), bad, 'malformed-labels', d)
    ctx.eq(re.findall(r'^TLD (.*?): .+$', text.split('\n# ')[0], re.M), tbad, 'malformed-tlds', d)
    ctx.eq((section(text, 'Labels not in LGR') or '').split('\n'), ['Label ' + x for x in sorted(map(u, out))] + [''],
           'labels-not-in-lgr', d)
    ctx.eq([x for x in (section(text, 'Labels that are TLDs') or '').split('\n') if x],
           ['Label ' + x for x in sorted(map(u, set(labels) & set(tlds)))], 'labels-that-are-tlds', d)
    if dump:
        check_dump(ctx, text.split('\n# Summary #\n', 1)[1], model, by, set(labels), set(tlds), d)
    else:
        ctx.check('# Summary #' not in text and 'Dump for' not in text, 'dump-not-asked', d)
    # simple report
    with_tlds = stream(rng, tl) if tl is not None else None
    notes = rng.random() < 0.3
    text = ''.join(basic_collision(lgr, stream(rng, lines), with_tlds, with_annotations=notes))
    if notes:
        ctx.check(text.startswith('# Validity #\n\n'), 'validity', d)
        ctx.event('annotated')
    ctx.eq(re.findall(r'^TLD (.*?): .+$', text.split('# Collisions #')[0].split('# Validity #')[-1], re.M) if not notes else
           tbad, tbad, 'simple-malformed-tlds', d)
    body = section(text, 'Collisions').strip('\n').split('\n')
    got = []
    for line in body:
        m = re.match(r'^(.*): collides with (label|TLD) (.*)$', line)
        if m:
            a, b = (tuple(map(ord, x)) for x in (m.group(1), m.group(3)))
            got.append((m.group(2), frozenset((a, b)) if m.group(2) == 'label' else (a, b)))
    want = [('label', p) for p in exp] + [('TLD', p) for p in exp_tld]
    ctx.eq(len(got), len(want), 'simple-report', lambda: '%s %s %s' % (got, want, d()))
    ctx.eq(set(got), set(want), 'simple-report', d)
    is_tld = [x for x in body if x.endswith(': is a TLD')]
    ctx.eq(is_tld, [x + ': is a TLD' for x in sorted(map(u, set(labels) & set(tlds)))], 'simple-is-tld', d)
    ctx.eq(len(body), len(got) + len(is_tld) or 1, 'simple-lines', lambda: '%s %s' % (body, d()))
    ctx.eq(body == ['No collision'], not want and not is_tld, 'simple-no-collision', d)
    errors = (section(text, 'Errors') or '').strip('\n').split('\n')
    ctx.eq([x for x in errors if x.endswith(': not in LGR')], [x + ': not in LGR' for x in sorted(map(u, out))],
           'simple-not-in-lgr', d)
    ctx.eq([x.split(': ')[0] for x in errors if x and not x.endswith(': not in LGR')], bad, 'simple-errors', d)
    # indexes
    quiet = rng.random() < 0.5
    cut = rng.randint(0, len(labels)) if rng.random() < 0.4 else len(labels)
    cached = {}
    for l in labels[cut:]:
        if l not in out:
            cached[u(l)] = tuple(lgr.generate_index_label(l))
    first = [u(l) + '\n' for l in labels[:cut]]
    res = get_collisions(lgr, first, quiet=quiet, cached_indexes=cached or None)
    want = {k: g for k, g in ((k, [l for l in g if l in labels]) for k, g in by.items()) if len(g) > 1}
    ctx.eq(sorted(map(tuple, res)), sorted(want), 'indexes', d)
    for k, g in want.items():
        entries = res.get(k, [])
        ctx.eq(sorted(tuple(e['cp']) for e in entries if e['cat'] == 'Primary'), sorted(g), 'primaries', d)
        for e in entries:
            ctx.eq((e['label'], e['cp_out']), (u(e['cp']), fmt(e['cp'])), 'entry', d)
            if quiet:
                continue
            for l in g:
                variants = expected_variants(model, l)
                ctx.eq((e['disp'].get(u(l)), e['action_idx'].get(u(l))), variants.get(tuple(e['cp']), (None, None)),
                       'entry-disposition', lambda: '%s %s %s' % (e, l, d()))
                ctx.event('disposition')
    ctx.eq(spec.snapshot(lgr), before, 'lgr-modified', d)
    for name, x in (('not-in-lgr', out), ('tld-pairs', exp_tld), ('pairs', exp), ('malformed', bad),
                    ('is-tld', is_tld), ('dump', dump), ('malformed-tld', tbad), ('cached', cached)):
        if x:
            ctx.event(name)
    if any(len([l for l in g if l in labels]) > 2 for g in by.values()):
        ctx.event('three-labels')
        ctx.seen(spec.to_xml(s), labels)


HEAD = re.compile(r"\n## Comparison on label (.*?) \[(.*?)\]\n")
CHANGE = re.compile(r'Change in disposition for (\w+) (.*?) \[(.*?)\] \(2->1\): (\S+) => (\S+)\n')
NEWREM = re.compile(r'(New|Removed) (\w+) in LGR2:\n(.*?) \[(.*?)\]\n')


def edit(rng, s, sets):
    """Another LGR on about the same code points."""
    t, tsets = draw(rng)
    t.chars.clear()
    elems = [e for st in sets for e in st]
    if rng.random() < 0.6:
        elems = elems[:-1] if rng.random() < 0.5 and len(elems) > 1 else elems
        new = [[e for e in st if e in elems] for st in sets]
        r = rng.random()
        if r < 0.4 and len(new) > 1:
            i = rng.randrange(len(new) - 1)
            new[i:i + 2] = [new[i] + new[i + 1]]
        elif r < 0.7:
            i = rng.randrange(len(new))
            if len(new[i]) > 1:
                new.append([new[i].pop()])
    else:
        rng.shuffle(elems)
        new = []
        while elems:
            new.append([elems.pop() for _ in range(min(len(elems), rng.choice([1, 2, 3])))])
    new = [x for x in new if x]
    for st in new:
        for a in st:
            t.add(spec.Ch(a))
            for b in st:
                if a != b:
                    old = [v.type for v in s.chars[a].vars if v.cp == b]
                    typ = old[0] if old and rng.random() < 0.8 else rng.choice(t.vtypes)
                    t.chars[a].vars.append(spec.Var(b, typ))
    t.alpha = [e[0] for st in new for e in st]
    if rng.random() < 0.6:
        t.rules, t.actions = s.rules, s.actions
    return t, new


def compare(ctx):
    """diff(): dispositions and variants of labels in two LGRs."""
    from lgr.tools.diff_collisions import diff
    rng = ctx.rng
    s, sets, lgr, model, lines, labels, bad = setup(ctx)
    t, tsets = edit(rng, s, sets)
    for st in (sets, tsets):
        size = {e: len(x) for x in st for e in x}
        for l in labels:
            n = 1
            for c in l:
                n *= size.get((c,), 1)
            if n > 300:
                raise Skip()
    other = spec.load(t, env.unidb())
    omodel = Model(t)
    d = lambda: 'labels %s\n%s\n%s' % (labels, spec.to_xml(s).decode(), spec.to_xml(t).decode())
    ctx.show(dict(xml=spec.to_xml(s).decode(), other=spec.to_xml(t).decode(), labels=''.join(lines)))
    show, dump, quiet = rng.random() < 0.7, rng.random() < 0.4, rng.random() < 0.6
    text = ''.join(diff(lgr, other, stream(rng, lines), show_collision=show, show_dump=dump, quiet=quiet))
    by1, out1 = groups(model, labels)
    by2, out2 = groups(omodel, labels)
    if out1 or out2:
        for n, out in ((1, out1), (2, out2)):
            got = (section(text, 'Labels not in LGR %d' % n) or '').split('\n')
            ctx.eq(sorted(x for x in got if x), sorted('Label ' + u(x) for x in out), 'labels-not-in-lgr', d)
        ctx.event('not-in-lgr')
    else:
        ctx.check('Labels not in LGR' not in text, 'labels-not-in-lgr', d)
    ctx.eq(re.findall(r'^Label (.*?): .+$', text.split('# LGR comparison')[0], re.M), bad, 'malformed-labels', d)
    parts = re.split(r'\n\n# Collisions for LGR([12]) #\n', text)
    both = [l for l in labels if l not in out1 and l not in out2]
    chunks = HEAD.split(parts[0])
    got = {}
    for i in range(1, len(chunks), 3):
        l = strip(chunks[i], d, ctx)
        ctx.eq(chunks[i + 1], fmt(l), 'comparison-code-points', d)
        ctx.check(l not in got, 'label-compared-twice', d)
        got[l] = chunks[i + 2]
    ctx.eq(sorted(got), sorted(both), 'labels-compared', d)
    for l in both:
        if l not in got:
            continue
        v1, v2 = expected_variants(model, l), expected_variants(omodel, l)
        cat = lambda v: 'Primary' if v in labels else 'Variant'
        # other labels of the list with the same index are in the variants too
        first, second = got[l].split('### Test number of variants: ###')
        changes = {}
        for c, v, cps, a, b in CHANGE.findall(first):
            v = strip(v, d, ctx)
            ctx.eq((c, cps), (cat(v), fmt(v)), 'change-display', d)
            ctx.check(v not in changes, 'change-repeated', d)
            changes[v] = (a, b)
        want = {v: (v2[v][0], v1[v][0]) for v in v1 if v in v2 and v1[v][0] != v2[v][0]}
        ctx.eq(changes, want, 'changes-in-disposition', lambda: 'label %s %s' % (l, d()))
        ctx.eq('No changes in disposition.' in first, not want, 'no-change-in-disposition', d)
        new, removed = {}, {}
        for k, c, v, cps in NEWREM.findall(second):
            v = strip(v, d, ctx)
            ctx.eq((c, cps), (cat(v), fmt(v)), 'variant-display', d)
            x = new if k == 'New' else removed
            ctx.check(v not in x, 'variant-repeated', d)
            x[v] = 1
        ctx.eq(sorted(new), sorted(set(v2) - set(v1)), 'new-variants', lambda: 'label %s %s' % (l, d()))
        ctx.eq(sorted(removed), sorted(set(v1) - set(v2)), 'removed-variants', lambda: 'label %s %s' % (l, d()))
        ctx.eq('No changes in number of variants.' in second, not new and not removed, 'no-change-in-variants', d)
        for name, x in (('change', want), ('new', new), ('removed', removed), ('same', not want and not new and not removed)):
            if x:
                ctx.event(name)
        if want or new or removed:
            ctx.seen(l, spec.to_xml(s), spec.to_xml(t))
    if not show:
        ctx.eq(len(parts), 1, 'collisions-not-asked', d)
        return
    ctx.eq(parts[1::2], ['1', '2'], 'sections', d)
    for part, by, m in ((parts[2], by1, model), (parts[4], by2, omodel)):
        col = re.split(r'\n# Summary for LGR[12] #\n', part)
        check_complete(ctx, col[0], by, labels, set(), d, order=False)
        ctx.eq(len(col), 2 if dump else 1, 'dump-asked', d)
        if dump:
            check_dump(ctx, col[1], m, by, set(labels), set(), d)
            ctx.event('dump')


def lengths(ctx):
    """diff() of one label, with variants of other lengths (sequences), in two LGRs."""
    from lgr.tools.diff_collisions import diff
    rng = ctx.rng
    pool = rng.sample(gen.LATIN + gen.OTHERS[:8], rng.randint(3, 5))
    singles = [(c,) for c in pool]
    seqs = []
    for _ in range(rng.randint(1, 3)):
        e = tuple(rng.choice(pool) for _ in range(rng.choice([2, 2, 3])))
        if e not in seqs:
            seqs.append(e)

    def mk(elems):
        s = spec.Spec()
        s.alpha = pool
        rest = elems[:]
        rng.shuffle(rest)
        while rest:
            st = [rest.pop() for _ in range(min(len(rest), rng.choice([1, 2, 3])))]
            for a in st:
                c = s.add(spec.Ch(a))
                c.vars = [spec.Var(b, rng.choice(['blocked', 'allocatable'])) for b in st if a != b]
        return s
    one = mk(singles + seqs)
    two = one.clone()
    if rng.random() < 0.5:
        two = mk(singles + [e for e in seqs if rng.random() < 0.7])
    else:
        # an element leaves its set, or joins another one
        e = rng.choice(seqs)
        for o in [v.cp for v in two.chars[e].vars]:
            two.chars[o].vars = [v for v in two.chars[o].vars if v.cp != e]
        two.chars[e].vars = []
        if rng.random() < 0.5:
            x = rng.choice(singles)
            st = [x] + [v.cp for v in two.chars[x].vars]
            for o in st:
                if o != e:
                    two.chars[o].vars.append(spec.Var(e, 'blocked'))
                    two.chars[e].vars.append(spec.Var(o, 'blocked'))
    m1, m2 = Model(one), Model(two)
    l1, l2 = spec.load(one, env.unidb()), spec.load(two, env.unidb())
    label = tuple(rng.choice(pool) for _ in range(rng.randint(2, 4)))
    d = lambda: 'label %s\n%s\n%s' % (label, spec.to_xml(one).decode(), spec.to_xml(two).decode())
    v1, v2 = expected_variants(m1, label), expected_variants(m2, label)
    if not m1.preliminary(label)[0] or not m2.preliminary(label)[0]:
        raise Skip()
    text = ''.join(diff(l1, l2, [u(label)], show_collision=False, show_dump=False, quiet=rng.random() < 0.5))
    got = {'New': set(), 'Removed': set()}
    for k, c, v, cps in NEWREM.findall(text):
        got[k].add(strip(v, d, ctx))
    ctx.eq(sorted(got['New']), sorted(set(v2) - set(v1)), 'new-variants', d)
    ctx.eq(sorted(got['Removed']), sorted(set(v1) - set(v2)), 'removed-variants', d)
    changes = {strip(v, d, ctx): (a, b) for c, v, cps, a, b in CHANGE.findall(text)}
    ctx.eq(changes, {v: (v2[v][0], v1[v][0]) for v in v1 if v in v2 and v1[v][0] != v2[v][0]},
           'changes-in-disposition', d)
    n = {len(v) for v in set(v1) ^ set(v2)}
    if len(n) > 1:
        ctx.event('lengths')
        ctx.seen(d())
    if any(a != b and a[:len(b)] == b for a in v1 for b in set(v2) - set(v1)) or \
            any(a != b and a[:len(b)] == b for a in v2 for b in set(v1) - set(v2)):
        ctx.event('prefix')


SCENARIOS = [Scenario('report', report, 700, 4000,
                      need=('not-in-lgr', 'tld-pairs', 'pairs', 'malformed', 'is-tld', 'dump', 'cached', 'disposition',
                            'dumped', 'three-labels', 'annotated', 'malformed-tld')),
             Scenario('compare', compare, 500, 3000,
                      need=('not-in-lgr', 'change', 'new', 'removed', 'same', 'dump', 'dumped')),
             Scenario('lengths', lengths, 800, 6000, need=('lengths', 'prefix'))]
