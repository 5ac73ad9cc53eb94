"""C14: statistics of an LGR."""
from ..core import Scenario, Skip
from .. import env, gen, spec
from . import c12

RULE = ('random LGRs (ranges, sequences, tags, variants with repeated targets and conditions), read from documents, '
        'built and edited through the API; non-trivial: at least one variant, range, sequence or tag')


def prepare():
    gen.COMP = 0
    env.unidb()


def expected(s):
    items = [(cp, c) for cp, c in s.chars.items() if not c.rng]
    ranges = {c.rng: c for c in s.chars.values() if c.rng}
    seqs = [len(cp) for cp, _ in items if len(cp) > 1]
    sets = [({v.cp for v in c.vars}, cp) for cp, c in items if c.vars]
    e = {
        'codepoint_number': len(items) + sum(b - a + 1 for a, b in ranges),
        'range_number': len(ranges),
        'largest_range_len': max([b - a + 1 for a, b in ranges], default=0),
        'sequence_number': len(seqs),
        'largest_sequence_len': max(seqs, default=0),
        'codepoints_with_variants': len(sets),
        'mapping_number': sum(len(t) for t, _ in sets),
        'largest_variant_set': max([len(t | {cp}) for t, cp in sets], default=0),
        'rule_number': len(s.rules),
        'variants_by_type': {}, 'codepoints_by_tag': {},
    }
    for _, c in items:
        for v in c.vars:
            e['variants_by_type'][v.type] = e['variants_by_type'].get(v.type, 0) + 1
    for n, c in [(1, c) for _, c in items] + [(b - a + 1, c) for (a, b), c in ranges.items()]:
        for t in set(c.tag):
            e['codepoints_by_tag'][t] = e['codepoints_by_tag'].get(t, 0) + n
    return e


def compare(ctx, lgr, s, d, rules=True):
    from lgr.validate.lgr_stats import compute_stats, generate_stats
    before = spec.snapshot(lgr)
    got = generate_stats(lgr)
    ok, res = compute_stats(lgr, {})
    ctx.eq(ok, True, 'result', d)
    ctx.eq(res['stats'], got, 'stable', d)
    ctx.eq(spec.diff_snap(before, spec.snapshot(lgr)), '', 'read-only', d)
    e = expected(s)
    if not rules:
        del e['rule_number']      # a rule added again is listed twice
    for k, v in e.items():
        ctx.eq(got[k], v, k, d)
    n = e['codepoints_with_variants']
    avg = e['mapping_number'] / n if n else 0
    ctx.check(abs(got['average_variants'] - avg) <= 0.05 + 1e-9, 'average_variants', d)
    r, q = got['largest_range'], got['largest_sequence']
    ctx.eq(r and r.last_cp - r.first_cp + 1, e['largest_range_len'] or None, 'largest_range', d)
    ctx.eq(q and len(q.cp), e['largest_sequence_len'] or None, 'largest_sequence', d)
    if r is not None:
        ctx.check((r.first_cp,) in s.chars and s.chars[(r.first_cp,)].rng == (r.first_cp, r.last_cp), 'largest_range', d)
    if q is not None:
        ctx.check(tuple(q.cp) in s.chars, 'largest_sequence', d)
    for k in ('range_number', 'sequence_number', 'codepoints_with_variants'):
        if e[k]:
            ctx.event(k)
    if e['codepoints_by_tag']:
        ctx.event('tags')
    if n or e['codepoints_by_tag'] or e['range_number'] or e['sequence_number']:
        ctx.seen(spec.to_xml(s))


def mk(rng):
    if rng.random() < 0.5:
        s = c12.mk(rng)
    else:
        s = gen.gen_lgr(rng, seqs=(0, 5), ranges=0.6, tags=0.7, variants=0.6, rules=(0, 4))
    # more ranges, adjacent to one another
    base = rng.choice([0x4E30, 0x5000, 0x20000])
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        n = rng.choice([1, 2, 3, 40, 300])
        if n == 1 or any((c,) in s.chars for c in range(base, base + n)):
            break
        s.add_range(base, base + n - 1, tag=gen.subset(rng, gen.TAGS, 0, 2))
        base += n + rng.choice([0, 0, 5])
    own = [c for c in s.chars.values() if not c.rng]
    if own and s.vtypes:
        for _ in range(rng.choice([0, 1, 3])):
            # other mapping to the same variant: other conditions
            c = rng.choice(own)
            if c.vars and s.rules:
                v = spec.Var(rng.choice(c.vars).cp, rng.choice(s.vtypes))
                v.when, v.not_when = rng.choice([(s.rules[0][0], None), (None, s.rules[0][0]), (None, None)])
                if v.ident() not in [x.ident() for x in c.vars]:
                    c.vars.append(v)
    return s


def documents(ctx):
    s = mk(ctx.rng)
    lgr = spec.load(s, env.unidb() if ctx.rng.random() < 0.3 else None)
    compare(ctx, lgr, s, lambda: str(spec.to_xml(s)))


def edits(ctx):
    """Statistics are those of the LGR as it is now."""
    from . import c08
    rng = ctx.rng
    s = mk(rng)
    lgr = spec.load(s)
    log = []
    d = lambda: '%s %s' % (log, spec.to_xml(s))
    for _ in range(rng.randint(2, 6)):
        log.append(c08.edit(ctx, lgr, s))
        compare(ctx, lgr, s, d, not any(x.startswith('rule') for x in log))


def empty(ctx):
    from lgr.core import LGR
    compare(ctx, LGR(), spec.Spec(), 'empty')
    ctx.event('empty')


SCENARIOS = [Scenario('documents', documents, 1600, 20000,
                      need=('range_number', 'sequence_number', 'codepoints_with_variants', 'tags')),
             Scenario('edits', edits, 400, 8000, need=('codepoints_with_variants',)),
             Scenario('empty', empty, 1, 1, need=('empty',))]
