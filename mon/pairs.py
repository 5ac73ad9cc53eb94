"""Pairs of LGRs made from a common one, and their union and intersection by the documentation."""
import copy
import re

from . import gen, spec
from .spec import Act, Ch, Var


def canon_text(ast_xml):
    return re.sub(r'\s+', ' ', ast_xml)


def edit(rng, s, who, meta=True):
    """Random differences."""
    names = [r[0] for r in s.rules]
    # code points
    for rg in list(s.ranges):
        if rng.random() < 0.15:
            s.ranges.remove(rg)
            for cp in range(rg[0], rg[1] + 1):
                del s.chars[(cp,)]
    for cp in sorted(s.chars):
        c = s.chars[cp]
        if c.rng:
            continue
        r = rng.random()
        if r < 0.15 and len(s.chars) > 2:
            del s.chars[cp]
            continue
        if len(cp) == 1 and rng.random() < 0.3:
            c.tag = gen.subset(rng, gen.TAGS, 0, 3)
        if rng.random() < 0.2:
            c.when, c.not_when = None, None
            if names and rng.random() < 0.7:
                if rng.random() < 0.5:
                    c.when = rng.choice(names)
                else:
                    c.not_when = rng.choice(names)
        if rng.random() < 0.2:
            c.comment = rng.choice([None, 'comment of %s' % who, 'same'])
        if rng.random() < 0.3:
            c.vars = [v for v in c.vars if rng.random() < 0.6]
        for v in c.vars:
            if rng.random() < 0.15:
                v.type = rng.choice(s.vtypes)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            v = Var(rng.choice(sorted(s.chars)), rng.choice(s.vtypes))
            if names and rng.random() < 0.3:
                setattr(v, rng.choice(['when', 'not_when']), rng.choice(names))
            if v.ident() not in [x.ident() for x in c.vars]:
                c.vars.append(v)
    for _ in range(rng.choice([0, 1, 1, 2])):
        cp = tuple(rng.choice(gen.LATIN + gen.OTHERS) for _ in range(rng.choice([1, 1, 2, 3])))
        if cp not in s.chars:
            c = s.add(Ch(cp, comment=rng.choice([None, who])))
            if len(cp) == 1:
                c.tag = gen.subset(rng, gen.TAGS, 0, 2)
            if names and rng.random() < 0.4:
                c.when = rng.choice(names)
    # an adjacent range, so that expanding matters
    if rng.random() < 0.3:
        base = rng.choice([0x4E40, 0x4E41])
        s.add_range(base, base + rng.randint(1, 3), tag=gen.subset(rng, gen.TAGS, 0, 2))
    # classes and rules: others, or another definition for the same name
    tags = sorted(s.tags())
    for i in range(rng.choice([0, 0, 1, 2])):
        k = rng.randint(0, len(s.classes))
        ast = gen.gen_class(rng, s.alpha, [n for n, _ in s.classes[:k]], tags)
        if ast[0] != 'ref':
            name = rng.choice(['extra-%d' % i, '%s-%d' % (who, i), 'class-%d' % i, 'c', 'class'])
            old = [n for n, _ in s.classes]
            if name in old:
                if rng.random() < 0.5:
                    k = old.index(name)
                    s.classes[k] = (name, gen.gen_class(rng, s.alpha, [], tags, 0)[:2])
                    if s.classes[k][1][0] == 'ref':
                        s.classes[k] = (name, ('cps', [0x61]))
            else:
                s.classes.insert(k, (name, ast))
    for i in range(rng.choice([0, 0, 1, 2])):
        k = rng.randint(0, len(s.rules))
        name = rng.choice(['extra-%d' % i, '%s-%d' % (who, i), 'rule-%d' % i, 'r', 'rule', 'ctx-0'])
        old = [n for n, _ in s.rules]
        body = gen.gen_matchers(rng, s.alpha, [n for n, _ in s.classes], tags,
                                [n for n in old[:old.index(name) if name in old else k] if 'ctx' not in n], 1)
        if name in old:
            if rng.random() < 0.5:
                s.rules[old.index(name)] = (name, body)
        else:
            s.rules.insert(k, (name, body))
    # actions
    s.actions = [a for a in s.actions if rng.random() < 0.8]
    if rng.random() < 0.3:
        rng.shuffle(s.actions)
    extra = s.clone()
    extra.actions = []
    gen.gen_actions(rng, extra, (0, 2))
    for a in extra.actions:
        if a.full()[:6] not in [b.full()[:6] for b in s.actions]:
            s.actions.insert(rng.randint(0, len(s.actions)), a)
    # references and metadata
    s.refs = [r for r in s.refs if rng.random() < 0.8]
    for i in range(rng.choice([0, 0, 1, 2])):
        r = (str(rng.randint(0, 12)), 'Other %d' % rng.randint(0, 3), None)
        if r[0] not in [x[0] for x in s.refs] and r[1] not in [x[1] for x in s.refs]:
            s.refs.insert(rng.randint(0, len(s.refs)), r)
    ids = [r[0] for r in s.refs]
    for c in s.chars.values():
        c.ref = [x for x in c.ref if x in ids]
        for v in c.vars:
            v.ref = [x for x in v.ref if x in ids]
    for a in s.actions:
        a.ref = gen.subset(rng, ids, 0, 2) if ids and rng.random() < 0.3 else []
    if meta and rng.random() < 0.7:
        other = s.clone()
        other.meta = dict(spec.Spec().meta)
        gen.gen_meta(rng, other)
        for k in s.meta:
            if rng.random() < 0.6:
                s.meta[k] = other.meta[k]


def pair(rng, **kw):
    opts = dict(refs=rng.random() < 0.6, comments=True, meta=True, rules=(0, 3), actions=(0, 4), context=0.3,
                variants=0.6, tags=0.5)
    opts.update(kw)
    base = gen.gen_lgr(rng, **opts)
    # actions are told apart by what they do
    acts = []
    for a in base.actions:
        if a.full()[:6] not in [b.full()[:6] for b in acts]:
            acts.append(a)
    base.actions = acts
    a, b = base.clone(), base.clone()
    r = rng.random()
    if r > 0.1:
        edit(rng, b, 'b')
    if r > 0.3:
        edit(rng, a, 'a')
    return a, b


# ------------------------------------------------------------------ names of rules and classes

def uses(ast, kind):
    """References {('rule'|'class', name)} of a class or of a list of matchers."""
    res = set()

    def cls(c):
        if c[0] == 'ref':
            res.add(('class', c[1]))
        for x in c[1:]:
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, tuple):
                    cls(y)

    def body(ms):
        for m in ms:
            if m[0] == 'ruleref':
                res.add(('rule', m[1]))
            elif m[0] == 'class':
                cls(m[1])
            elif m[0] in ('choice', 'rule', 'ahead', 'behind'):
                body(m[1])
    body(ast) if kind == 'rule' else cls(ast)
    return res


def definitions(s):
    d = {('class', n): a for n, a in s.classes}
    d.update({('rule', n): b for n, b in s.rules})
    return d


def conflicts(a, b):
    """Definitions of the same name that do not mean the same."""
    da, db = definitions(a), definitions(b)
    xml = lambda k, x: spec.class_xml(x, name=k[1]) if k[0] == 'class' else spec.rule_xml(k[1], x)
    common = set(da) & set(db)
    res = {k for k in common if xml(k, da[k]) != xml(k, db[k])}
    while True:
        more = {k for k in common - res if uses(da[k], k[0]) & res}
        if not more:
            return res
        res |= more


def rename(s, names):
    """The same LGR with other names: names {(kind, name): new name}."""
    s = s.clone()
    rn = lambda n: names.get(('rule', n), n)
    cn = lambda n: names.get(('class', n), n)

    def cls(c):
        if c[0] == 'ref':
            return ('ref', cn(c[1]))
        if c[0] in ('tag', 'prop', 'cps'):
            return c
        return (c[0],) + tuple([cls(y) for y in x] if isinstance(x, list) else cls(x) for x in c[1:])

    def body(ms):
        out = []
        for m in ms:
            if m[0] == 'ruleref':
                m = ('ruleref', rn(m[1]), m[2])
            elif m[0] == 'class':
                m = ('class', cls(m[1]), m[2])
            elif m[0] in ('choice', 'rule', 'ahead', 'behind'):
                m = (m[0], body(m[1])) + tuple(m[2:])
            out.append(m)
        return out
    s.classes = [(cn(n), cls(a)) for n, a in s.classes]
    s.rules = [(rn(n), body(b)) for n, b in s.rules]
    for c in s.chars.values():
        for x in [c] + c.vars:
            x.when, x.not_when = rn(x.when), rn(x.not_when)
    for a in s.actions:
        a.match, a.not_match = rn(a.match), rn(a.not_match)
    return s


def resolve(a, b):
    """(a, b, conflicting definitions under their new names, and what they use)"""
    conf = sorted(conflicts(a, b))
    taken = set(definitions(a)) | set(definitions(b))
    na, nb = {}, {}
    for suffix, n in (('_1', na), ('_2', nb)):
        for k, name in conf:
            new = name + suffix
            if (k, new) in taken:
                return None
            n[(k, name)] = new
    ra, rb = rename(a, na), rename(b, nb)
    kept = set()
    for s, n in ((ra, na), (rb, nb)):
        d = definitions(s)
        todo = [(k, v) for (k, _), v in n.items()]
        while todo:
            x = todo.pop()
            if x in d and x not in kept:
                kept.add(x)
                todo += uses(d[x], x[0])
    return ra, rb, kept


def ounion(a, b):
    res = []
    for x in list(a) + list(b):
        if x not in res:
            res.append(x)
    return res


def both(a, b):
    """'let user choose'"""
    if a is None or b is None or a == b:
        return a if b is None else b
    return '%s|%s' % (a, b)


def vkey(v):
    return tuple(int(x) for x in v.split('.'))


def pick(f, a, b):
    if a is None or b is None:
        return a if b is None else b
    return f(a, b)
