"""C12: populating the variants of an LGR."""
from ..core import Scenario, Skip
from .. import env, gen, spec

RULE = ('random LGRs with partial variant relations (missing code points, asymmetric, intransitive, contextual and '
        'reflexive variants, sequences, ranges), populated; non-trivial: an LGR that populating changes')
ASSUMPTIONS = ['variants are valid for the IDNA2008 check of the LGR']


def prepare():
    gen.COMP = 0
    env.unidb()


def mk(rng):
    if rng.random() < 0.15:
        return gen.gen_lgr(rng, variants=0.8, context=0.3)
    base = gen.alphabet(rng, 4, 7)
    s = gen.gen_lgr(rng, alpha=base, variants=0, seqs=(0, 2), ranges=0.5, rules=(2, 3), actions=(0, 1))
    names = sorted(s.rules)[:3] if isinstance(s.rules, dict) else [r[0] for r in s.rules][:3]
    own = [cp for cp, c in s.chars.items() if not c.rng]
    if not own:
        raise Skip()
    pool = list(s.chars) + [(c,) for c in base[:2]] + [(0x71,), (0x71, 0x72), (0x74,)]
    for _ in range(rng.choice([1, 2, 3, 4, 6, 8, 12])):
        c = s.chars[rng.choice(own)]
        v = spec.Var(rng.choice(pool), rng.choice(gen.TYPES + [None]))
        r = rng.random()
        if names and r < 0.25:
            v.when = rng.choice(names)
        elif names and r < 0.45:
            v.not_when = rng.choice(names)
        if rng.random() < 0.2:
            v.comment = 'c%d' % rng.randint(0, 9)
        if s.refs and rng.random() < 0.2:
            v.ref = [rng.choice(s.refs)[0]]
        if v.ident() not in [x.ident() for x in c.vars]:
            c.vars.append(v)
            if rng.random() < 0.4 and v.cp in s.chars and not s.chars[v.cp].rng and v.cp != c.cp:
                w = spec.Var(c.cp, rng.choice(gen.TYPES + [None]))
                if rng.random() < 0.5:
                    w.when, w.not_when = v.when, v.not_when
                if w.ident() not in [x.ident() for x in s.chars[v.cp].vars]:
                    s.chars[v.cp].vars.append(w)
    return s


def components(pairs):
    parent = {}

    def find(x):
        parent.setdefault(x, x)
        while parent[x] != x:
            x = parent[x]
        return x
    for a, b in pairs:
        parent[find(a)] = find(b)
    res = {}
    for x in list(parent):
        res.setdefault(find(x), set()).add(x)
    return list(res.values())


def variants(data, a, b):
    return [v for v in data.get(a, [()] * 8)[7] if v[0] == b]


def pairwise(ctx, old, new, want, d):
    """The variants of each pair: kept, and completed with blocked ones. Returns True if conditions are in conflict."""
    conflict = False
    for a, b in want:
        o, n = variants(old, a, b), variants(new, a, b)
        ro, rn = variants(old, b, a), variants(new, b, a)
        whens, nots = {v[2] for v in ro if v[2]}, {v[3] for v in ro if v[3]}
        # original variants are kept; an unconditional one may have received the condition of its reverse
        left = list(n)
        for v in o:
            if v in left:
                left.remove(v)
                continue
            same = [x for x in left if x[1] == v[1] and x[4:] == v[4:]]
            if ctx.check(not v[2] and not v[3] and same and not any(x[2] or x[3] for x in o), 'kept-variant',
                         lambda: '%s lost from %s; %s' % (v, n, d())):
                x = same[0]
                ctx.check((x[2] in whens and not x[3]) or (x[3] in nots and not x[2]), 'received-condition',
                          lambda: '%s became %s; %s' % (v, x, d()))
                left.remove(x)
                ctx.event('condition-received')
        for x in left:
            ok = x[1] == 'blocked' and x[4] is None and x[5] == () and not (x[2] and x[3])
            if x[2]:
                ok = ok and x[2] in whens
            elif x[3]:
                ok = ok and x[3] in nots
            else:
                ok = ok and not o
            ctx.check(ok, 'added-variant', lambda: '%s -> %s: %s; %s' % (a, b, x, d()))
            ctx.event('variant-added')
        ow, on = {v[2] for v in o if v[2]}, {v[3] for v in o if v[3]}
        if (ow and whens and not ow <= whens) or (on and nots and not on <= nots) or len(ow) > 1 or len(on) > 1:
            conflict = True
    return conflict


def populate(ctx):
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    from lgr.populate import populate_lgr
    rng = ctx.rng
    s = mk(rng)
    lgr = spec.load(s, env.unidb() if rng.random() < 0.5 else None)
    before = spec.snapshot(lgr)
    xml = spec.to_xml(s)
    d = lambda: xml if isinstance(xml, str) else xml.decode()
    if rng.random() < 0.5:
        lgr.populate_variants()
    else:
        populate_lgr(lgr)
    after = spec.snapshot(lgr)
    # everything but the variants is untouched
    for k in before:
        if k not in ('data', 'ranges', 'tags'):
            ctx.eq(after[k], before[k], 'unrelated-' + k, d)
    ctx.eq(after['tags'], before['tags'], 'tags', d)
    old, new = before['data'], after['data']
    pairs = {(cp, v[0]) for cp, c in old.items() for v in c[7]}
    targets = {v for _, v in pairs}
    ctx.eq(set(new), set(old) | targets, 'code-points', d)
    ranges = [r for r in before['ranges'] if not any(len(t) == 1 and r[0] <= t[0] <= r[1] for t in targets)]
    ctx.eq(after['ranges'], ranges, 'ranges', d)
    for cp, c in new.items():
        o = old.get(cp)
        if o is None:
            ctx.eq(c[:7], (cp, None, None, (), None, (), None), 'added-char', d)
        else:
            ctx.eq(c[:6], o[:6], 'kept-char', d)
    want = set(pairs)
    for comp in components(pairs):
        want |= {(a, b) for a in comp for b in comp if a != b}
    got = {(cp, v[0]) for cp, c in new.items() for v in c[7]}
    if got != want:
        ctx.fail('closure', 'missing %s, spurious %s; %s' % (sorted(want - got)[:5], sorted(got - want)[:5], d()))
    ctx.evaluated()

    conflict = pairwise(ctx, old, new, want, d)
    ctx.check(check_symmetry(lgr, {'ignore_rules': True})[0], 'symmetric', d)
    ctx.check(check_transitivity(lgr, None)[0], 'transitive', d)
    if not conflict:
        strict = all({v[2] for v in variants(new, a, b) if v[2]} <= {v[2] for v in variants(new, b, a)} and
                     {v[3] for v in variants(new, a, b) if v[3]} <= {v[3] for v in variants(new, b, a)} for a, b in want)
        ctx.check(strict, 'conditions-symmetric', d)
        ctx.check(check_symmetry(lgr, {})[0], 'strict-symmetric', d)
        if any(v[2] or v[3] for c in new.values() for v in c[7]):
            ctx.event('conditions')
    else:
        ctx.event('conflict')
    lgr.populate_variants()
    ctx.eq(spec.diff_snap(after, spec.snapshot(lgr)), '', 'idempotent', d)
    if old != new:
        ctx.event('changed')
        ctx.seen(d())
        ctx.show(d()[:600])


SCENARIOS = [Scenario('populate', populate, 3000, 60000,
                      need=('changed', 'variant-added', 'condition-received', 'conditions', 'conflict'))]
