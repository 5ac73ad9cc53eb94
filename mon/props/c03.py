"""C03: actions and dispositions."""
import itertools

from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model

RULE = ('random ordered action lists over random variant types; every subset of types x only-variants flag x label is '
        'compared with the first-match semantics of RFC 7940; non-trivial: at least three distinct actions triggered')
ASSUMPTIONS = ['labels are in the BMP']


def prepare():
    gen.COMP = 0.15
    env.unidb()


def mk(ctx):
    rng = ctx.rng
    types = gen.subset(rng, gen.TYPES, 2, 4)
    s = gen.gen_lgr(rng, alpha=gen.LATIN[:4], seqs=(0, 1), ranges=0, context=0, rules=(1, 3), actions=(1, 6),
                    variants=0.7, types=types, reflexive=0.5)
    return s, types


def action_table(ctx):
    rng = ctx.rng
    s, types = mk(ctx)
    lgr = spec.load(s, env.unidb())
    model = Model(s)
    labels = [gen.gen_label(rng, s, 4, noise=0) for _ in range(4)]
    ctx.eq([a.disp for a in lgr.effective_actions], [a.disp for a in model.actions], 'effective-actions', '')
    ctx.eq(len(lgr.effective_actions_xml), len(lgr.effective_actions), 'effective-actions-xml', '')
    hit = set()
    for label in labels:
        for n in range(len(types) + 1):
            for sub in itertools.combinations(types, n):
                for only in (False, True):
                    first = None
                    for i, (a, real) in enumerate(zip(model.actions, lgr.effective_actions)):
                        exp = model.action_triggers(a, label, set(sub), only)
                        got = real.apply(label, frozenset(sub), only, lgr.rules_lookup, lgr.classes_lookup,
                                         env.unidb())
                        ctx.eq(got, a.disp if exp else None, 'action', lambda: 'action %s label %s types %s only %s' % (
                            spec.action_xml(a), label, sub, only))
                        if exp and first is None:
                            first = i
                    hit.add(first)
                    ctx.event('triggered-default' if first >= len(s.actions) else 'triggered')
    if len(hit) > 2:
        ctx.seen(spec.to_xml(s))
    ctx.show(dict(actions=[spec.action_xml(a) for a in s.actions], types=types))


def disposition(ctx):
    """The disposition and action index reported for labels and variants follow the action order."""
    rng = ctx.rng
    s, types = mk(ctx)
    lgr = spec.load(s, env.unidb())
    model = Model(s)
    seen = set()
    for _ in range(10):
        label = gen.gen_label(rng, s, 3, noise=0)
        ok, _, disp, idx = model.eligible(label)
        r = lgr.test_label_eligible(label)
        d = lambda: 'label %s\n%s' % (label, spec.to_xml(s).decode())
        ctx.eq((bool(r[0]), r[3], r[4]), (ok, disp, idx), 'eligibility-disposition', d)
        if not ok:
            continue
        summary, listing = lgr.compute_label_disposition_summary(label, include_invalid=True)
        total = 0
        for cp, disp, _, idx, types_, _ in listing:
            total += 1
            if idx >= 0 and disp != 'invalid':
                ctx.eq(disp, model.actions[idx].disp, 'index-of-another-action', d)
                # the earlier actions did not apply, whatever the only-variants status
                for i in range(idx):
                    a = model.actions[i]
                    if cp == label and not types_:
                        continue
                    if model.action_triggers(a, cp, types_, True) and model.action_triggers(a, cp, types_, False):
                        ctx.fail('earlier-action-ignored', '%s: action %d applies before %d; %s' % (cp, i, idx, d()))
                ctx.event('variant')
                seen.add(idx)
        ctx.eq(sum(summary.values()), total, 'summary', d)
    if len(seen) > 2:
        ctx.seen('disposition', spec.to_xml(s))


def permuted(ctx):
    """Swapping two actions changes the outcome exactly as the first-match rule says."""
    rng = ctx.rng
    s, types = mk(ctx)
    if len(s.actions) < 2:
        raise Skip()
    labels = [gen.gen_label(rng, s, 4, noise=0) for _ in range(8)]
    res = []
    for k in range(3):
        lgr = spec.load(s, env.unidb())
        model = Model(s)
        out = []
        for l in labels:
            r = lgr.test_label_eligible(l)
            ctx.eq((bool(r[0]), r[3], r[4]), (lambda e: (e[0], e[2], e[3]))(model.eligible(l)), 'order',
                   lambda: '%s %s' % (l, spec.to_xml(s).decode()))
            out.append((r[3], r[4]))
        res.append(out)
        rng.shuffle(s.actions)
    if res[0] != res[1] or res[1] != res[2]:
        ctx.event('order-matters')
        ctx.seen('order', spec.to_xml(s))


SCENARIOS = [Scenario('action-table', action_table, 320, 2000, need=('triggered', 'triggered-default')),
             Scenario('disposition', disposition, 480, 3000, need=('variant',)),
             Scenario('permuted', permuted, 320, 2000, need=('order-matters',))]
