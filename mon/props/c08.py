"""C08: evaluation reflects the current content of an edited LGR."""
from ..core import Scenario, Skip
from .. import env, gen, spec
from ..model import Model, TooMany
from .c01 import compare as eligibility
from .c02 import examine
from .c05 import PROBE
from .c06 import index_of

RULE = ('random LGRs edited through the API between evaluations (eligibility, variants, index label, class members); every '
        'evaluation is compared with the model of the content at that time; non-trivial: an edit that changes the answer '
        'for some label')
ASSUMPTIONS = ['labels are in the BMP']


def prepare():
    gen.COMP = 0.15
    env.unidb()


def evaluate(ctx, lgr, s, labels, log):
    from lgr.exceptions import NotInLGR
    model = Model(s)
    eligibility(ctx, lgr, s, labels, model)
    res = []
    d = lambda: 'after %s\n%s' % (log[-6:], spec.to_xml(s).decode())
    for l in labels:
        e = model.eligible(l)
        idx = None
        if model.preliminary(l)[0]:
            idx = index_of(model, l)
            ctx.eq(tuple(lgr.generate_index_label(l)), idx, 'index-label', lambda: '%s %s' % (l, d()))
        else:
            ctx.raises(NotInLGR, 'index-of-invalid-label', lgr.generate_index_label, l)
        res.append((e[0], e[2], e[3], idx))
    for l in [l for l in labels if model.eligible(l)[0]][:2]:
        try:
            r = examine(ctx, lgr, s, model, l, lambda: 'label %s %s' % (l, d()))
            res.append(sorted(g[0] for g in r[True]))
            ctx.event('variants')
        except TooMany:
            ctx.event('too-many')
    if s.classes:
        name, ast = ctx.rng.choice(s.classes)
        probe = [c for c in PROBE + s.alpha if c < 0xD800]
        p = lgr.classes_lookup[name].get_pattern(lgr.rules_lookup, lgr.classes_lookup, env.unidb(), as_set=True)
        ctx.eq({c for c in probe if chr(c) in p}, {c for c in probe if model.wle.in_class(ast, c)}, 'class-members',
               lambda: '%s %s' % (name, d()))
    return res


def edit(ctx, lgr, s):
    from lgr.action import Action
    rng = ctx.rng
    alpha = s.alpha
    cands = ['add_cp', 'add_cp', 'del_cp', 'del_cp', 'add_variant', 'add_variant', 'del_variant', 'del_variant',
             'del_tag', 'tagged', 'tagged', 'rule', 'rule', 'class', 'class', 'action', 'action', 'range', 'range']
    ctxs = [None, None] + s.ctx_rules
    while True:
        op = rng.choice(cands)
        if op in ('add_cp', 'tagged'):
            free = [c for c in gen.LATIN + [0x3B1, 0x3B2, 0x71, 0x72] if (c,) not in s.chars]
            if op == 'tagged':
                if not free or not s.tags():
                    continue
                cp, tag, when = (rng.choice(free),), [rng.choice(sorted(s.tags()))], None
            else:
                cp = tuple(rng.choice(alpha) for _ in range(2))
                if free and rng.random() < 0.5:
                    cp = (rng.choice(free),)
                if cp in s.chars:
                    continue
                tag, when = [], rng.choice(ctxs)
            lgr.add_cp(cp, tag=list(tag), when=when)
            s.add(spec.Ch(cp, when=when, tag=tag))
            s.alpha = sorted(set(s.alpha) | set(cp))
            return '%s %s tag=%s when=%s' % (op, cp, tag, when)
        if op == 'del_cp':
            cps = sorted(s.chars)
            if len(cps) < 3:
                continue
            cp = rng.choice(cps)
            c = s.chars.pop(cp)
            if c.rng:
                s.ranges.remove(c.rng)
                for x in range(c.rng[0], c.rng[1] + 1):
                    if (x,) in s.chars:
                        s.chars[(x,)].rng = None
            lgr.del_cp(list(cp))
            return 'del_cp %s' % (cp,)
        if op == 'add_variant':
            cps = [c for c in sorted(s.chars) if not s.chars[c].rng]
            if not cps:
                continue
            cp = rng.choice(cps)
            v = spec.Var(rng.choice([cp] + cps), rng.choice(s.vtypes), when=rng.choice(ctxs))
            if v.ident() in [x.ident() for x in s.chars[cp].vars]:
                continue
            s.chars[cp].vars.append(v)
            lgr.add_variant(cp, v.cp, variant_type=v.type, when=v.when)
            return 'add_variant %s %s' % (cp, v.full())
        if op == 'del_variant':
            cps = [c for c in sorted(s.chars) if s.chars[c].vars]
            if not cps:
                continue
            cp = rng.choice(cps)
            v = s.chars[cp].vars.pop(rng.randrange(len(s.chars[cp].vars)))
            ctx.eq(lgr.del_variant(cp, v.cp, v.when, v.not_when), True, 'del-variant')
            return 'del_variant %s %s' % (cp, v.full())
        if op == 'del_tag':
            if not s.tags():
                continue
            t = rng.choice(sorted(s.tags()))
            for c in s.chars.values():
                c.tag = [x for x in c.tag if x != t]
            lgr.del_tag(t)
            return 'del_tag %s' % t
        if op == 'range':
            if s.ranges:
                r = rng.choice(s.ranges)
                if rng.random() < 0.6:
                    lgr.del_range(*r)
                    for x in range(r[0], r[1] + 1):
                        del s.chars[(x,)]
                    s.ranges.remove(r)
                    return 'del_range %s' % (r,)
                lgr.expand_range(*r)
                for x in range(r[0], r[1] + 1):
                    s.chars[(x,)].rng = None
                s.ranges.remove(r)
                return 'expand_range %s' % (r,)
            a = rng.choice([0x6B, 0x3B4])
            if any((x,) in s.chars for x in range(a, a + 3)):
                continue
            tag = [rng.choice(sorted(s.tags()))] if s.tags() else []
            lgr.add_range(a, a + 2, tag=list(tag))
            s.add_range(a, a + 2, tag=tag)
            s.alpha = sorted(set(s.alpha) | {a})
            return 'add_range %s %s' % (a, tag)
        names = [n for n, _ in s.classes]
        tags = sorted(s.tags())
        if op == 'rule':
            if not s.rules:
                continue
            i = rng.randrange(len(s.rules))
            name = s.rules[i][0]
            if name in s.ctx_rules:
                body = gen.gen_context_rule(rng, alpha, names, tags, [])
            else:
                body = gen.gen_matchers(rng, alpha, names, tags, [n for n, _ in s.rules[:i] if n not in s.ctx_rules], 2)
            s.rules[i] = (name, body)
            lgr.add_rule(spec.load(spec.rules_only(s)).rules_lookup[name])
            return 'rule %s' % (s.rules[i],)
        if op == 'class':
            if not s.classes:
                continue
            i = rng.randrange(len(s.classes))
            name = s.classes[i][0]
            ast = gen.gen_class(rng, alpha, names[:i], tags)
            if ast[0] == 'ref':
                ast = ('cps', sorted(gen.subset(rng, alpha, 1, 3)))
            s.classes[i] = (name, ast)
            lgr.add_class(spec.load(spec.rules_only(s)).classes_lookup[name])
            return 'class %s' % (s.classes[i],)
        if op == 'action':
            if s.actions and rng.random() < 0.4:
                i = rng.randrange(len(s.actions))
                del s.actions[i]
                del lgr.actions[i]
                return 'del action %d' % i
            gen.gen_actions(rng, s, (1, 1))
            a = s.actions[-1]
            lgr.add_action(Action(a.disp, match=a.match, not_match=a.not_match, any_variant=set(a.any_variant),
                                  all_variants=set(a.all_variants), only_variants=set(a.only_variants)))
            return 'add action %s' % (a.full(),)


def history(ctx):
    rng = ctx.rng
    s = gen.gen_lgr(rng, rules=(1, 2), actions=(0, 3), seqs=(0, 2), context=rng.choice([0.2, 0.5]), tags=0.7)
    if rng.random() < 0.6:
        # rules looking at tags and classes in the obvious way
        tags = sorted(s.tags())
        if tags:
            s.rules.append(('rule-tag', [('class', ('tag', rng.choice(tags)), rng.choice([None, '1+']))]))
            s.actions.insert(0, spec.Act('invalid', **{rng.choice(['match', 'not_match']): 'rule-tag'}))
    lgr = spec.load(s, env.unidb())
    labels = [gen.gen_label(rng, s, 4, noise=0) for _ in range(4)]
    before = evaluate(ctx, lgr, s, labels, ['load'])
    log = []
    changed = 0
    for _ in range(rng.randint(3, 6)):
        for _ in range(rng.choice([1, 1, 2])):
            log.append(edit(ctx, lgr, s))
            ctx.event('edit:' + log[-1].split()[0])
        labels = labels[-3:] + [gen.gen_label(rng, s, 4, noise=0)]
        if not s.chars:
            break
        before, after = before, evaluate(ctx, lgr, s, labels, log)
        if ctx.fails:
            return
        if after[:2] != before[1:3]:
            changed += 1
            ctx.event('answer-changed')
        before = after
    ctx.eq(spec.snap_data(lgr), spec.spec_data(s), 'content', lambda: str(log))
    if changed:
        ctx.seen(log, spec.to_xml(s))
    ctx.show(dict(edits=log))


SCENARIOS = [Scenario('history', history, 480, 2000, need=('answer-changed', 'variants', 'edit:rule', 'edit:class',
                                                           'edit:del_tag', 'edit:tagged', 'edit:del_range',
                                                           'edit:del_cp', 'edit:add', 'edit:del'))]
