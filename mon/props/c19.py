"""C19: harmonization of two LGRs."""
from ..core import Scenario, Skip
from .. import env, gen, pairs, spec
from ..spec import Ch, Spec, Var
from . import c12, c15

RULE = ('pairs of LGRs made from a common one by random edits, or of random variant sets, with or without a root zone '
        'LGR, harmonized; non-trivial: harmonizing adds variants to each one')
OOR = ('Out-of-repertoire', 'out-of-repertoire')
prepare = c15.prepare


def closure(rel):
    res = set(rel)
    for comp in c12.components(rel):
        res |= {(a, b) for a in comp for b in comp if a != b}
    return res


def relation(s):
    return {(cp, v.cp) for cp, c in s.chars.items() for v in c.vars}


def step(l, m):
    """((code points, relation), (code points, relation)) harmonized"""
    (r1, p1), (r2, p2) = l, m
    out = []
    for (r, p), (ro, po) in ((l, m), (m, l)):
        new = {(a, b) for a, b in po if a in r and a != b}
        q = closure(p | new)
        out.append((r | {x for e in q for x in e}, q))
    return out


def base_lgr(s):
    return set(s.chars), relation(s)


def check_one(ctx, h, s, model, own, review, ro, d):
    """h: the harmonized LGR; s: what it was; own: its snapshot"""
    r, q = model
    data = spec.snap_data(h)
    old = own['data']
    ctx.eq(set(data), r, 'code-points', d)
    got = {(cp, v[0]) for cp, c in data.items() for v in c[7]}
    # identity of the code points that are added
    dangling = {v.cp for c in s.chars.values() for v in c.vars} - set(s.chars)
    for x in set(data) - set(old):
        ident = [v for v in data[x][7] if v[0] == x]
        if ident or x not in dangling:
            ctx.check(data[x][:7] == (x, None, None, (), OOR[0], (), None) and
                      [v[1:] for v in ident] == [(OOR[1], None, None, OOR[0], ())], 'added-char',
                      lambda: '%s %s %s' % (x, data[x], d()))
            ctx.event('added-char')
            got.discard((x, x))
        else:
            ctx.eq(data[x][:7], (x, None, None, (), None, (), None), 'added-char', d)
    if got != q:
        ctx.fail('relation', 'missing %s, spurious %s; %s' % (sorted(q - got)[:5], sorted(got - q)[:5], d()))
    ctx.evaluated()
    for x in old:
        if x in data:
            ctx.eq(data[x][:6], old[x][:6], 'kept-char', d)
    c12.pairwise(ctx, old, data, {e for e in q if e[0] in old}, d)
    for a, b in q:
        if a not in old and a != b:
            for v in c12.variants(data, a, b):
                ctx.eq((v[1], v[4], v[5]), ('blocked', None, ()), 'added-variant', d)
    # the rest
    after = spec.snapshot(h)
    for k in own:
        if k == 'meta':
            m, n = dict(own[k]), dict(after[k])
            v, w = m.pop('version'), n.pop('version')
            ctx.eq(n, m, 'unrelated-meta', d)
            if v is None:
                ctx.eq(w, None, 'version', d)
            else:
                ctx.eq(w, (v[0], (v[1] or '') + ' - Harmonized'), 'version', d)
                ctx.event('version')
        elif k == 'tags':
            ctx.eq({t: c for t, c in after[k].items() if c}, {t: c for t, c in own[k].items() if c}, 'unrelated-tags', d)
        elif k not in ('data', 'ranges'):
            ctx.eq(after[k], own[k], 'unrelated-' + k, d)
    ctx.eq(after['ranges'], [], 'ranges', d)
    # review: those that the other one has not
    rev = [tuple(x) for x in review]
    ctx.eq(len(set(rev)), len(rev), 'review', d)
    ctx.check({x for x in s.chars if x not in ro} <= set(rev), 'review', lambda: '%s %s' % (review, d()))
    ctx.check(not set(rev) & ro, 'review', lambda: '%s %s' % (review, d()))
    return data


def run(ctx, a, b, z, whole):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    from lgr.tools.harmonize import harmonize
    rng = ctx.rng
    d = lambda: 'first %s\nsecond %s\nroot zone %s' % tuple(x and spec.to_xml(x).decode() for x in (a, b, z))
    unidb = env.unidb() if rng.random() < 0.2 else None
    la, lb = spec.load(a, unidb, name='A'), spec.load(b, unidb, name='B')
    lz = spec.load(z, name='Z') if z else None
    before = [x and spec.snapshot(x) for x in (la, lb, lz)]
    copy = rng.random() < 0.7
    kw = {} if copy and rng.random() < 0.5 else {'_copy': copy}
    h1, h2, (rev1, rev2) = harmonize(la, lb, lz, **kw) if z or rng.random() < 0.5 else harmonize(la, lb, **kw)
    m1, m2 = base_lgr(a), base_lgr(b)
    if z:
        m1, m2 = step(m1, base_lgr(z))[0], step(m2, base_lgr(z))[0]
        ctx.event('root-zone')
    r1, r2 = m1[0], m2[0]
    m1, m2 = step(m1, m2)
    d1 = check_one(ctx, h1, a, m1, before[0], rev1, r2, d)
    d2 = check_one(ctx, h2, b, m2, before[1], rev2, r1, d)
    if not z:
        ctx.eq((set(rev1), set(rev2)), (r1 - r2, r2 - r1), 'review', d)
    if copy:
        ctx.check(h1 is not la and h2 is not lb, 'copy', d)
        ctx.eq([x and spec.diff_snap(y, spec.snapshot(x)) for x, y in zip((la, lb, lz), before)],
               ['', '', z and ''], 'operands', d)
        if rng.random() < 0.3:
            # a life of their own
            for h in (h1, h2):
                for c in list(h.repertoire.all_repertoire()):
                    h.del_cp(c.cp)
                h.metadata.languages.append('x')
                del h.actions[:]
            ctx.eq([spec.diff_snap(y, spec.snapshot(x)) for x, y in zip((la, lb), before)], ['', ''], 'shared-state', d)
            h1, h2, _ = harmonize(la, lb, lz)
    else:
        ctx.check(h1 is la and h2 is lb, 'no-copy', d)
        ctx.event('no-copy')
        if z:
            ctx.eq(spec.diff_snap(before[2], spec.snapshot(lz)), '', 'root-zone-changed', d)
    # what both have has the same variants in both
    if whole:
        for x in r1 & r2:
            ctx.eq({v[0] for v in d1[x][7]} - {x}, {v[0] for v in d2[x][7]} - {x}, 'same-variants', d)
        ctx.event('whole')
    # other order
    g2, g1, (o2, o1) = harmonize(spec.load(b, unidb, name='B'), spec.load(a, unidb, name='A'), lz)
    ctx.eq((spec.diff_snap(spec.snapshot(h1), spec.snapshot(g1)), spec.diff_snap(spec.snapshot(h2), spec.snapshot(g2))),
           ('', ''), 'order', d)
    ctx.eq((set(o1), set(o2)), (set(rev1), set(rev2)), 'order-review', d)
    # they can be written and read back
    for h in (h1, h2):
        back = spec.load(serialize_lgr_xml(h), force=True)
        ctx.eq(spec.diff_snap(spec.snap_data(h), spec.snap_data(back)), '', 'read-back', d)
    # once is enough, when the code points of both are closed by variants
    if whole and not z:
        i1, i2, _ = harmonize(h1, h2)
        for x, y in ((h1, i1), (h2, i2)):
            ctx.eq({(c.cp, v.cp) for c in x.repertoire for v in c.get_variants()},
                   {(c.cp, v.cp) for c in y.repertoire for v in c.get_variants()}, 'idempotent', d)
    if any(v[1] == 'blocked' and v not in before[0]['data'].get(cp, [()] * 8)[7] for cp, c in d1.items() for v in c[7]) \
            and any(v[1] == 'blocked' and v not in before[1]['data'].get(cp, [()] * 8)[7] for cp, c in d2.items()
                    for v in c[7]):
        ctx.event('added')
        ctx.seen(d())
        ctx.show(d()[:1500])


def edited(ctx):
    rng = ctx.rng
    a, b = pairs.pair(rng, tags=0.3)
    for s in (a, b):
        # each its own code points, more or less
        for cp in sorted(s.chars):
            if not s.chars[cp].rng and rng.random() < 0.25 and len(s.chars) > 2:
                del s.chars[cp]
    z = None
    if rng.random() < 0.4:
        z = pairs.pair(rng, alpha=sorted(set(rng.choice([a, b]).alpha)), ranges=0)[0] if rng.random() < 0.5 else a.clone()
        pairs.edit(rng, z, 'z')
    run(ctx, a, b, z, False)


def random_sets(rng, pool):
    s = Spec()
    if rng.random() < 0.5:
        s.meta['version'] = ('1', rng.choice([None, 'comment']))
    cps = rng.sample(pool, rng.randint(2, min(8, len(pool))))
    i = 0
    while i < len(cps):
        n = rng.choice([1, 2, 2, 3])
        group = cps[i:i + n]
        i += n
        for x in group:
            s.add(Ch(x, vars=[Var(y, rng.choice(['blocked', 'allocatable'])) for y in group if y != x]))
    if rng.random() < 0.3:
        s.add_range(0x7A00, 0x7A02)
    return s


def variant_sets(ctx):
    rng = ctx.rng
    pool = [(c,) for c in gen.LATIN + gen.OTHERS[:4]] + [(0x61, 0x62), (0x63, 0x301)]
    run(ctx, random_sets(rng, pool), random_sets(rng, pool), random_sets(rng, pool) if rng.random() < 0.4 else None, True)


SCENARIOS = [Scenario('edited', edited, 700, 14000, need=('added', 'added-char', 'root-zone', 'no-copy', 'version')),
             Scenario('variant_sets', variant_sets, 700, 14000, need=('added', 'whole', 'root-zone'))]
