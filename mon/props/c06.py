"""C06: index labels."""
from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model

RULE = ('index labels of random LGRs against the minimum over all the partitions, and, on symmetric and transitive '
        'single-code-point LGRs, equality of index labels against membership in the generated variants; non-trivial: '
        'an index label different from the label, or a colliding pair')
ASSUMPTIONS = ['labels are in the BMP']


def prepare():
    gen.COMP = 0.15
    env.unidb()


def partitions(model, label):
    out = []

    def rec(i, acc):
        if i == len(label):
            out.append(acc)
            return
        for c in model.by_first.get(label[i], ()):
            if label[i:i + len(c.cp)] == c.cp and model.context_ok(c, label, i):
                rec(i + len(c.cp), acc + [c])
    rec(0, [])
    return out


def index_of(model, label):
    best = None
    for part in partitions(model, label):
        i = 0
        out = ()
        for c in part:
            ids = [c.cp]
            for v in c.vars:
                if model.context_ok(v, label[:i] + v.cp + label[i + len(c.cp):], i):
                    ids.append(v.cp)
            out += min(ids)
            i += len(c.cp)
        if best is None or out < best:
            best = out
    return best


def general(ctx):
    from lgr.exceptions import NotInLGR
    rng = ctx.rng
    s = gen.gen_lgr(rng, alpha=sorted(gen.subset(rng, gen.LATIN + gen.OTHERS, 3, 5)), seqs=(0, 4), rules=(0, 1),
                    actions=(0, 1), context=rng.choice([0, 0.4]), variants=0.7)
    lgr = spec.load(s, env.unidb())
    model = Model(s)
    for _ in range(8):
        label = gen.gen_label(rng, s, 5, noise=0.03)
        d = lambda: 'label %s\n%s' % (label, spec.to_xml(s).decode())
        if not model.preliminary(label)[0]:
            ctx.raises(NotInLGR, 'index-of-invalid-label', lgr.generate_index_label, label)
            ctx.event('not-in-lgr')
            continue
        exp = index_of(model, label)
        got = lgr.generate_index_label(label)
        ctx.eq(tuple(got), exp, 'index-label', d)
        ctx.eq(tuple(lgr.generate_index_label(list(label))), exp, 'index-label-list', d)
        if exp != label:
            ctx.event('changed')
            ctx.seen(label, spec.to_xml(s))
        if len(partitions(model, label)) > 1:
            ctx.event('several-partitions')
    ctx.show(dict(xml=spec.to_xml(s).decode()))


def mk_sets(rng, seqs=False):
    """Disjoint variant sets: symmetric and transitive by construction."""
    s = spec.Spec()
    pool = list(gen.LATIN + gen.OTHERS[:8])
    rng.shuffle(pool)
    elems = [(c,) for c in pool[:rng.randint(4, 9)]]
    for e in elems:
        s.add(spec.Ch(e))
    sets = []
    rest = elems[:]
    while rest:
        n = min(len(rest), rng.choice([1, 1, 2, 3, 4]))
        sets.append([rest.pop() for _ in range(n)])
    for st in sets:
        for a in st:
            for b in st:
                if a != b or rng.random() < 0.15:
                    s.chars[a].vars.append(spec.Var(b, rng.choice(['blocked', 'allocatable'])))
    s.vtypes = ['blocked', 'allocatable']
    s.alpha = [e[0] for e in elems]
    return s, sets


def collision(ctx):
    """Same index label <=> variants of one another."""
    rng = ctx.rng
    s, sets = mk_sets(rng)
    lgr = spec.load(s, env.unidb())
    of = {e: i for i, st in enumerate(sets) for e in st}
    labels = [gen.gen_label(rng, s, 4, noise=0) for _ in range(6)]
    for l in labels[:3]:
        # same label through members of the same sets
        labels.append(tuple(rng.choice(sets[of[(c,)]])[0] for c in l))
    variants, index = {}, {}
    for l in labels:
        d = lambda: 'label %s %s' % (l, sets)
        index[l] = tuple(lgr.generate_index_label(l))
        variants[l] = {g[0] for g in lgr.compute_label_disposition(l, include_invalid=True, collect_log=False)}
        ctx.check(index[l] in variants[l] | {l}, 'index-label-not-a-variant', d)
        ctx.eq(index[l], min(variants[l]), 'index-label-not-minimal', d)
        for v in rng.sample(sorted(variants[l]), min(6, len(variants[l]))):
            ctx.eq(tuple(lgr.generate_index_label(v)), index[l], 'index-label-not-invariant',
                   lambda: 'variant %s %s' % (v, d()))
        ctx.eq(tuple(lgr.generate_index_label(index[l])), index[l], 'index-label-not-idempotent', d)
    for a in labels:
        for b in labels:
            ctx.eq(index[a] == index[b], b in variants[a], 'collision', lambda: '%s %s %s' % (a, b, sets))
            if a != b and index[a] == index[b]:
                ctx.event('colliding-pair')
                ctx.seen(a, b)
            elif a != b:
                ctx.event('distinct-pair')


SCENARIOS = [Scenario('general', general, 900, 4000, need=('changed', 'several-partitions', 'not-in-lgr')),
             Scenario('collision', collision, 600, 3000, need=('colliding-pair', 'distinct-pair'))]
