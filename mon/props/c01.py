"""C01: label eligibility."""
from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model

RULE = ('random LGRs (sequences sharing prefixes, ranges, when/not-when, reflexive mappings, actions) and labels drawn '
        'from the repertoire plus noise; a case is non-trivial when the LGR accepts a label and rejects another one')
ASSUMPTIONS = ['the picu binding mishandles supplementary-plane strings, so labels tested with rules are in the BMP',
               'context rules are evaluated by an independent matcher written from RFC 7940']


def prepare():
    gen.COMP = 0.05
    env.unidb()


def compare(ctx, lgr, s, labels, model=None):
    model = model or Model(s)
    res = set()
    for l in labels:
        ok, parts, invalid, chars = model.preliminary(l)
        for is_variant in (False, True):
            r = lgr.test_label_eligible(l, is_variant=is_variant, generate_chars=True)
            exp = model.eligible(l, is_variant)
            res.add(exp[0])
            d = lambda: 'label %s is_variant %s\n%s' % (l, is_variant, spec.to_xml(s).decode())
            ctx.eq(bool(r[0]), exp[0], 'eligible', d)
            ctx.eq((r[3], r[4]), exp[2:], 'disposition', d)
            if not ok:
                ctx.eq(list(r[1]), list(parts), 'label-parts', d)
                ctx.eq([(c, list(x) if x else None) for c, x in r[2]], [(c, x) for c, x in invalid], 'invalid-parts',
                       d)
                ctx.event('rule-rejected' if any(x for _, x in invalid) else 'not-in-repertoire')
            elif exp[0]:
                ctx.eq(tuple(r[1]), tuple(l), 'label-parts', d)
                ctx.eq(list(r[2]), [], 'invalid-parts', d)
                ctx.event('eligible')
            else:
                ctx.eq(list(r[2]), [], 'invalid-parts', d)
                ctx.event('invalid-disposition')
            ctx.eq([tuple(c.cp) for c in r[6]], [c.cp for c in chars], 'chars', d)
            # the verdict does not depend on what is asked to be returned
            r2 = lgr.test_label_eligible(list(l), is_variant=is_variant, collect_log=False)
            ctx.eq((r2[0], tuple(r2[1]), list(r2[2]), r2[3], r2[4], r2[5]),
                   (r[0], tuple(r[1]), list(r[2]), r[3], r[4], ''), 'options-change-verdict', d)
    return res


def scen(api):
    def f(ctx):
        rng = ctx.rng
        s = gen.gen_lgr(rng, rules=(0, 2), actions=(0, 3), seqs=(0, 4), context=rng.choice([0, 0.3, 0.6]),
                        untyped=0.2, reflexive=0.4)
        lgr = spec.build_api(s, rng, env.unidb()) if api else spec.load(s, env.unidb())
        labels = [gen.gen_label(rng, s, 6) for _ in range(12)]
        ctx.show(dict(xml=spec.to_xml(s).decode(), labels=labels[:4]))
        if len(compare(ctx, lgr, s, labels)) == 2:
            ctx.seen(spec.to_xml(s))
    return f


def context(ctx):
    """Few characters, dense context rules: the anchor position and label ends matter."""
    rng = ctx.rng
    s = gen.gen_lgr(rng, alpha=sorted(gen.subset(rng, gen.LATIN + gen.OTHERS[-4:], 2, 3)), rules=(0, 1), actions=(0, 1),
                    seqs=(0, 2), ranges=0, context=0.9, variants=0.3, reflexive=0.8)
    lgr = spec.load(s, env.unidb())
    labels = [gen.gen_label(rng, s, 5, noise=0) for _ in range(14)]
    if len(compare(ctx, lgr, s, labels)) == 2:
        ctx.seen(spec.to_xml(s))


def long_label(ctx):
    """Plain repertoires, labels up to and beyond the protocol length, no Unicode database needed."""
    rng = ctx.rng
    s = gen.gen_lgr(rng, rules=(0, 0), actions=(0, 2), seqs=(1, 6), context=0, wle=False, reflexive=0.5, astral=True)
    lgr = spec.load(s)
    labels = [gen.gen_label(rng, s, rng.choice([10, 63, 64, 80]), noise=rng.choice([0, 0.02])) for _ in range(6)]
    if len(compare(ctx, lgr, s, labels)) == 2:
        ctx.seen(spec.to_xml(s))
    from lgr.exceptions import LGRApiInvalidParameter
    ctx.raises(LGRApiInvalidParameter, 'empty-label', lgr.test_label_eligible, [])


SCENARIOS = [Scenario('xml', scen(False), 600, 4000, need=('eligible', 'rule-rejected', 'not-in-repertoire',
                                                           'invalid-disposition')),
             Scenario('api', scen(True), 300, 2000, need=('eligible', 'rule-rejected')),
             Scenario('context', context, 240, 3000, need=('eligible', 'rule-rejected')),
             Scenario('long', long_label, 160, 2000, need=('eligible', 'not-in-repertoire'))]
