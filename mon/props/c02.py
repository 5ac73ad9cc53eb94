"""C02: variant label generation."""
from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model, derivations, variant_dispositions, TooMany

RULE = ('random LGRs with variants (sequences, reflexive, out of repertoire, contextual) and eligible labels; every '
        'generated variant is compared with the derivations enumerated by an independent model; a case is non-trivial '
        'when the label has at least two variants with different dispositions')
ASSUMPTIONS = ['when a variant label has several derivations, the disposition of any of them is accepted',
               'labels with more than 3000 derivations are skipped']


def prepare():
    gen.COMP = 0.15
    env.unidb()


def examine(ctx, lgr, s, model, label, d):
    loose = variant_dispositions(model, label, derivations(model, label))
    strict = variant_dispositions(model, label, derivations(model, label, strict=True))
    kinds = set()
    results = {}
    for include in (True, False):
        got = list(lgr.compute_label_disposition(label, include_invalid=include, collect_log=False))
        results[include] = got
        labels = [g[0] for g in got]
        ctx.eq(len(set(labels)), len(labels), 'duplicate-label', d)
        if not ctx.eq(tuple(labels[-1]), label, 'original-not-last', d):
            continue
        for cp, disp, invalid, idx, types, log in got[:-1]:
            if not ctx.check(cp in loose, 'underivable-variant', lambda: '%s from %s' % (cp, d())):
                continue
            ctx.check((disp, idx, frozenset(types)) in loose[cp], 'variant-disposition',
                      lambda: '%s: got %s, derivations %s; %s' % (cp, (disp, idx, types), loose[cp], d()))
            if not include:
                ctx.check(disp != 'invalid', 'invalid-variant-returned', d)
            if include and disp == 'invalid' and idx == -1:
                exp = model.preliminary(cp)[2]
                ctx.eq([(c, list(r) if r else None) for c, r in invalid], exp, 'variant-invalid-parts', d)
            kinds.add(disp)
            ctx.event('variant')
            if len(loose[cp]) > 1:
                ctx.event('several-derivations')
        # the original label
        cp, disp, invalid, idx, types, log = got[-1]
        exp = {(x[0], x[1]) for x in loose.get(label, ()) if include or x[0] != 'invalid'}
        exp.add(model.eligible(label)[2:])
        ctx.check((disp, idx) in exp, 'original-disposition', lambda: 'got %s, expected one of %s; %s' % (
            (disp, idx), exp, d()))
        # completeness
        present = set(labels)
        for cp, disps in strict.items():
            if cp == label:
                continue
            all_disps = {x[0] for x in loose[cp]}
            if include or 'invalid' not in all_disps:
                ctx.check(cp in present, 'missing-variant', lambda: '%s of %s' % (cp, d()))
            elif all_disps == {'invalid'}:
                ctx.event('invalid-eliminated')
    # both calls agree
    a = {g[0]: (g[1], g[3]) for g in results[True][:-1] if g[1] != 'invalid'}
    b = {g[0]: (g[1], g[3]) for g in results[False][:-1] if g[1] != 'invalid'}
    ctx.eq(b, a, 'include-invalid-changes-valid-variants', d)
    if len(kinds) > 1:
        ctx.seen(label, spec.to_xml(s))
    return results


def options(ctx, lgr, label, results, d):
    rng = ctx.rng
    full = results[False]
    # with_labels restricts, nothing else
    some = set(gen.subset(rng, [g[0] for g in full], 0, 3))
    if some:
        got = list(lgr.compute_label_disposition(label, collect_log=False, with_labels=some))
        exp = [g[:2] + g[3:5] for g in full[:-1] if g[0] in some]
        ctx.eq([g[:2] + g[3:5] for g in got[:-1]], exp, 'with-labels', d)
        ctx.eq(tuple(got[-1][0]), label, 'with-labels-original', d)
    # the log is the only thing collect_log changes
    got = list(lgr.compute_label_disposition(list(label), collect_log=True))
    ctx.eq([g[:5] for g in got], [g[:5] for g in full], 'collect-log', d)
    # generate_chars: the characters spell the variant, every variant is covered
    got = list(lgr.compute_label_disposition(label, collect_log=False, generate_chars=True))
    for g in got:
        ctx.eq(tuple(c for ch in g[6] for c in ch.cp), tuple(g[0]), 'generated-chars', d)
    ctx.check({g[0] for g in full} <= {g[0] for g in got}, 'generate-chars-loses-variant', d)
    summary, listing = lgr.compute_label_disposition_summary(label)
    ctx.eq([g[:5] for g in listing], [g[:5] for g in full], 'summary-listing', d)
    count = {}
    for g in full:
        count[g[1]] = count.get(g[1], 0) + 1
    ctx.eq(dict(summary), count, 'summary-count', d)


def run(ctx, s, lgr, n, maxlen):
    rng = ctx.rng
    model = Model(s)
    done = 0
    for _ in range(n * 3):
        label = gen.gen_label(rng, s, maxlen, noise=0)
        if not model.eligible(label)[0]:
            continue
        d = lambda: 'label %s\n%s' % (label, spec.to_xml(s).decode())
        try:
            r = examine(ctx, lgr, s, model, label, d)
        except TooMany:
            ctx.event('too-many')
            continue
        options(ctx, lgr, label, r, d)
        estimate(ctx, lgr, s, label, r, d)
        done += 1
        if done >= n:
            break
    ctx.show(dict(xml=spec.to_xml(s).decode()))


def estimate(ctx, lgr, s, label, results, d):
    """With single code points only, the estimation is an upper bound, and is exact without any condition."""
    if any(len(c) > 1 for c in s.chars):
        return
    n = 1
    for cp in label:
        n *= 1 + len([v for v in s.chars[(cp,)].vars if v.cp != (cp,)])
    ctx.eq(lgr.estimate_variant_number(label), n, 'estimate', d)
    ctx.check(len(results[True]) <= n, 'estimate-too-low', d)


def plain(ctx):
    s = gen.gen_lgr(ctx.rng, seqs=(0, 0), context=0, rules=(0, 2), actions=(0, 3), variants=0.8)
    run(ctx, s, spec.load(s, env.unidb()), 4, 4)


def sequences(ctx):
    rng = ctx.rng
    s = gen.gen_lgr(rng, alpha=sorted(gen.subset(rng, gen.LATIN, 3, 4)), seqs=(1, 5), context=0, rules=(0, 0),
                    actions=(0, 3), variants=rng.choice([0.3, 0.6]), ranges=0)
    run(ctx, s, spec.load(s, env.unidb()), 5, 5)


def contextual(ctx):
    rng = ctx.rng
    s = gen.gen_lgr(rng, alpha=sorted(gen.subset(rng, gen.LATIN + gen.OTHERS, 3, 4)), seqs=(0, 2), context=0.5,
                    rules=(0, 1), actions=(0, 2), variants=0.6, ranges=0.1)
    run(ctx, s, spec.load(s, env.unidb()), 4, 4)


def limits(ctx):
    from lgr.exceptions import LGRApiInvalidParameter, LGRApiException
    rng = ctx.rng
    s = gen.gen_lgr(rng, seqs=(0, 0), wle=False, context=0, variants=0.2, actions=(0, 2), ranges=0, out_vars=0,
                    var_seqs=0)
    free = [cp for cp in s.chars if not s.chars[cp].vars]
    if not free:
        raise Skip()
    lgr = spec.load(s, env.unidb())
    base = free[0]
    label = base * 62 + rng.choice(sorted(s.chars))
    ok = lgr.test_label_eligible(label)[0]
    if ok:
        got = list(lgr.compute_label_disposition(label, collect_log=False))
        ctx.eq(got[-1][0], label, 'longest-label', '')
        exp = {base * 62 + v.cp for v in s.chars[label[-1:]].vars if v.cp != label[-1:]}
        ctx.check({g[0] for g in got} <= exp | {label}, 'longest-label-variants', '')
        ctx.event('63')
    ctx.raises(LGRApiInvalidParameter, 'too-long-label', lambda: list(lgr.compute_label_disposition(base * 64)))
    lgr2 = spec.load(s)
    ctx.raises(LGRApiException, 'no-unicode-database', lambda: list(lgr2.compute_label_disposition(base)))
    ctx.seen(label)


SCENARIOS = [Scenario('plain', plain, 480, 3000, need=('variant', 'invalid-eliminated')),
             Scenario('sequences', sequences, 400, 3000, need=('variant', 'several-derivations')),
             Scenario('contextual', contextual, 480, 3000, need=('variant',)),
             Scenario('limits', limits, 40, 400, need=('63',))]
