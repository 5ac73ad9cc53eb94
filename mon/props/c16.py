"""C16: intersection of two LGRs."""
from ..core import Scenario, Skip
from .. import env, gen, pairs, spec
from . import c15

RULE = c15.RULE.replace('united', 'intersected')
prepare = c15.prepare


def expected(a, b, renamed):
    data = {}
    for cp in set(a.chars) & set(b.chars):
        x, y = a.chars[cp], b.chars[cp]
        vs = set()
        for v in x.vars:
            for w in y.vars:
                if v.ident() == w.ident():
                    vs.add((v.cp, v.type if v.type == w.type else None, v.when, v.not_when))
        data[cp] = (cp, x.when if x.when == y.when else None, x.not_when if x.not_when == y.not_when else None,
                    frozenset(x.tag) & frozenset(y.tag), pairs.both(x.comment, y.comment), frozenset(vs))
    m, n = a.meta, b.meta
    meta = dict(languages=[l for l in m['languages'] if l in n['languages']],
                scopes=pairs.ounion([x for x in m['scopes'] if x in n['scopes']], []),
                validity_start=pairs.pick(max, m['validity_start'], n['validity_start']),
                validity_end=pairs.pick(min, m['validity_end'], n['validity_end']),
                unicode_version=max(m['unicode_version'], n['unicode_version'], key=pairs.vkey))
    keep = lambda kind, x, y: {k: v for k, v in list(x) + list(y)
                               if (kind, k) in renamed or k in dict(x) and k in dict(y)}
    return dict(data=data, meta=meta, refs={r[1] for r in a.refs} & {r[1] for r in b.refs},
                classes=keep('class', a.classes, b.classes), rules=keep('rule', a.rules, b.rules),
                actions=[x.full()[:6] for x in a.actions if x.full()[:6] in [y.full()[:6] for y in b.actions]])


def intersection(ctx):
    from lgr.tools.compare import intersect_lgrs
    c15.run(ctx, intersect_lgrs, expected, 'intersected')


def algebra(ctx):
    from lgr.tools.compare import intersect_lgrs, union_lgrs
    rng = ctx.rng
    a, b = pairs.pair(rng)
    d = lambda: 'first %s\nsecond %s' % (spec.to_xml(a).decode(), spec.to_xml(b).decode())
    flat = lambda l, t=True: {tuple(c.cp): (c.when, c.not_when, frozenset(c.tags),
                                            frozenset((x.cp, x.type if t else 0, x.when, x.not_when)
                                                      for x in c.get_variants()))
                              for c in l.repertoire.all_repertoire()}
    u = intersect_lgrs(spec.load(a), spec.load(a))
    ctx.eq(flat(u), {cp: c15.bare(c)[1:4] + c15.bare(c)[5:] for cp, c in a.chars.items()}, 'with-itself', d)
    ctx.eq((u.rules, u.classes), ([n for n, _ in a.rules], [n for n, _ in a.classes]), 'with-itself', d)
    ctx.eq([spec.snap_action(x)[:6] for x in u.actions], [x.full()[:6] for x in a.actions], 'with-itself', d)
    if not pairs.conflicts(a, b):
        u, v = intersect_lgrs(spec.load(a), spec.load(b)), intersect_lgrs(spec.load(b), spec.load(a))
        ctx.eq(flat(u), flat(v), 'commutative', d)
        ctx.eq(sorted(u.rules), sorted(v.rules), 'commutative', d)
        # absorption: A and (A or B) has the code points, tags and variants of A
        w = intersect_lgrs(spec.load(a), union_lgrs(spec.load(a), spec.load(b)))
        ctx.eq({k: v[2:] for k, v in flat(w, False).items()},
               {k: v[2:] for k, v in flat(spec.load(a), False).items()}, 'absorption', d)
        ctx.event('commuted')
    ctx.seen(spec.to_xml(a))


SCENARIOS = [Scenario('intersection', intersection, 1600, 30000, need=('intersected', 'renamed', 'context-differs',
                                                                       'actions', 'descriptions')),
             Scenario('algebra', algebra, 400, 6000, need=('commuted',))]
