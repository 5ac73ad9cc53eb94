"""C21: annotation of lists of labels."""
from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model
from . import c06, c20

RULE = ('random LGRs, and sets of two or three LGRs with their existing labels; every line of the annotated list is '
        'compared with the one computed by the model; non-trivial: labels rejected by an action and by context rules, '
        'labels in or colliding with the existing ones')
ASSUMPTIONS = ['labels are in the BMP', 'symmetric and transitive variants in sets']
prepare = c20.prepare


def expected(lgr, model, label, suffix=''):
    text = ''.join(map(chr, label))
    ok, invalid, disp, idx = model.eligible(label)
    out = ['%s: %s%s' % (text, disp, suffix)]
    if not ok and idx >= 0:
        out.append(' Rule %d: %s' % (idx, lgr.effective_actions[idx]))
    for cp, rules in invalid:
        out.append(' Code point U+%04X %s' % (cp, 'not in repertoire' if rules is None else
                                              "does not comply with rules '%s'" % ','.join(rules)))
    return out, ok, idx


def single(ctx):
    from lgr.tools.annotate import annotate
    rng = ctx.rng
    s = gen.gen_lgr(rng, rules=(0, 2), actions=(0, 4), seqs=(0, 3), context=rng.choice([0, 0.3, 0.6]), reflexive=0.4,
                    comments=True)
    for a in s.actions:
        if rng.random() < 0.3:
            a.disp = 'invalid'
    lgr = spec.load(s, env.unidb())
    model = Model(s)
    drawn = [gen.gen_label(rng, s, 5) for _ in range(8)]
    lines, exp = [], []
    for l in drawn:
        if rng.random() < 0.1:
            b = rng.choice(c20.BAD)
            lines.append(b + '\n')
            exp.append(b)
        if rng.random() < 0.1:
            lines.append(rng.choice(['', ' ', '#x']) + '\n')
        lines.append(''.join(map(chr, l)) + rng.choice(['', ' ', ' # c']) + '\n')
        e, ok, idx = expected(lgr, model, l)
        exp += e
        ctx.event('eligible' if ok else 'rejected' if idx >= 0 else 'not-in-lgr')
        if not ok and idx == 0:
            ctx.event('first-action')
        if any('comply' in x for x in e):
            ctx.event('context')
        if not ok:
            ctx.seen(l, spec.to_xml(s))
    d = lambda: 'labels %s\n%s' % (drawn, spec.to_xml(s).decode())
    ctx.show(dict(xml=spec.to_xml(s).decode(), labels=''.join(lines)))
    before = spec.snapshot(lgr)
    got = ''.join(annotate(lgr, c20.stream(rng, lines))).split('\n')
    ctx.eq(got.pop(), '', 'last-line', d)
    got = [x.split(': ')[0] if x.split(': ')[0] in c20.BAD else x for x in got]
    ctx.eq(got, exp, 'annotation', d)
    ctx.eq(spec.snapshot(lgr), before, 'lgr-modified', d)


def of_set(ctx):
    from lgr.tools.annotate import lgr_set_annotate
    from lgr.tools.merge_set import merge_lgr_set
    rng = ctx.rng
    specs, rel = [], {}
    for lang in rng.sample(['und-Latn', 'und-Grek', 'und-Cyrl', 'fr'], rng.choice([2, 2, 3])):
        s, sets = c20.draw(rng, actions=True)
        for a in s.actions:
            if rng.random() < 0.3:
                a.disp = 'invalid'
        s.meta['languages'] = [lang]
        specs.append(s)
        for st in sets:
            for e in st:
                rel.setdefault(e, set()).update(st)
    # what is the same label
    comp = {}
    for e in rel:
        if e not in comp:
            todo, seen = [e], {e}
            while todo:
                for x in rel[todo.pop()]:
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
            for x in seen:
                comp[x] = frozenset(seen)
    key = lambda l: tuple(comp[(c,)] for c in l)
    lgrs = [spec.load(s, env.unidb(), name='lgr-%d' % i) for i, s in enumerate(specs)]
    merged = merge_lgr_set(list(lgrs), 'merged')
    merged.unicode_database = env.unidb()
    i = rng.randrange(len(specs))
    s, lgr, model = specs[i], lgrs[i], Model(specs[i])

    def near(l):
        return tuple(rng.choice(sorted(comp.get((c,), [(c,)])))[0] for c in l)

    labels = [gen.gen_label(rng, s, 4, noise=0.02) for _ in range(6)]
    existing = [gen.gen_label(rng, rng.choice(specs), 4, noise=0.02) for _ in range(rng.randint(0, 3))]
    existing += rng.sample(labels, rng.choice([0, 0, 1, 2]))
    existing += [near(l) for l in rng.sample(labels + existing, rng.choice([0, 0, 1, 2]))]
    rng.shuffle(existing)
    lines, _, bad = c20.write(rng, existing)
    keep, exp = [], ['# The following labels from the set labels are invalid']
    for line in lines:      # in order of the file
        t = line.strip().split('#')[0].strip()
        if not t:
            continue
        if t in c20.BAD:
            exp.append(t)
            continue
        l = tuple(int(x[2:], 16) for x in t.split()) if t.startswith('U+') else tuple(map(ord, t))
        if all((c,) in comp for c in l):
            keep.append(l)
        else:
            exp.append(''.join(map(chr, l)) + ': invalid')
            ctx.event('existing-invalid')
    exp += ['# End of filtered set labels', '']
    mine = []
    for l in labels:
        if rng.random() < 0.1:
            b = rng.choice(c20.BAD)
            mine.append(b + '\n')
            exp.append(b)
            ctx.event('malformed')
        if rng.random() < 0.1:
            mine.append(rng.choice(['', ' ', '#x']) + '\n')
        mine.append(''.join(map(chr, l)) + '\n')
        suffix = ''
        if model.eligible(l)[0]:
            others = [x for x in keep if x != l and key(x) == key(l)]
            if others:
                suffix = ' - Label collides with the LGR set labels'
                ctx.event('collides')
                ctx.seen(l, others, spec.to_xml(s))
            elif l in keep:
                suffix = ' - Label is in the LGR set labels'
                ctx.event('in-set')
            else:
                ctx.event('free')
                if len({key(x) for x in keep}) < len(set(keep)):
                    ctx.event('free-among-colliding')
        e, ok, idx = expected(lgr, model, l, suffix)
        exp += e
    d = lambda: 'labels %s existing %s\n%s\n%s' % (labels, existing, i, '\n'.join(spec.to_xml(x).decode() for x in specs))
    ctx.show(dict(labels=labels, existing=existing))
    got = ''.join(lgr_set_annotate(merged, lgr, c20.stream(rng, lines), c20.stream(rng, mine))).split('\n')
    ctx.eq(got.pop(), '', 'last-line', d)
    got = [x.split(': ')[0] if x.split(': ')[0] in c20.BAD else x for x in got]
    ctx.eq(got, exp, 'set-annotation', d)


SCENARIOS = [Scenario('single', single, 900, 5000, need=('eligible', 'rejected', 'not-in-lgr', 'first-action', 'context')),
             Scenario('set', of_set, 600, 3000,
                      need=('collides', 'in-set', 'free', 'free-among-colliding', 'existing-invalid', 'malformed'))]
