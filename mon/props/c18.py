"""C18: merge of a set of LGRs."""
import json
import os
import re
import subprocess
import sys

from ..core import Scenario, Skip
from .. import env, gen, pairs, spec
from ..spec import Act, Ch, Spec, Var
from . import c09, c15

RULE = ('sets of 2 to 4 LGRs of other scripts made from a common one by random edits, or made of random variant sets, '
        'merged; non-trivial: a code point of several LGRs has other data in each')
NEW = 'New variant for merge to keep transitivity'
MSR = 'leading-combining-mark'
LANGS = ['en', 'fr', 'und-Latn', 'und-Grek', 'ar', 'sr-Cyrl', 'und-Cyrl', 'sr', 'und']
# names that look like something else
NAMES = ['a', 'n', 'disp', 'match', 'name', 'ref', MSR + '-2', 'r.e', 'r', 'valid', 'x-a']
prepare = c15.prepare


def scx(cp):
    """Script extensions, by ICU itself: another path than the one of the code under test is not available."""
    return list(env.unidb().get_script_extensions(cp[0])) if len(cp) == 1 else []


def key(s):
    return (s.meta['languages'] or [''])[0].replace('und-', 'zzz')


def tricky_names(rng, s):
    pool = rng.sample(NAMES, len(NAMES))
    m = {}
    for kind, l in (('rule', s.rules), ('class', s.classes)):
        for n, _ in l:
            if pool and rng.random() < 0.4:
                m[(kind, n)] = pool.pop()
    out = pairs.rename(s, m)
    out.alpha = s.alpha
    out.vtypes = s.vtypes
    return out


def make_set(rng, conflicts):
    base = gen.gen_lgr(rng, refs=rng.random() < 0.7, comments=True, meta=True, rules=(0, 3), actions=(0, 3), context=0.4,
                       variants=0.5, tags=0.5)
    if rng.random() < 0.6:
        base = tricky_names(rng, base)
    langs = rng.sample(LANGS, rng.choice([2, 2, 3, 4]))
    out = []
    for i, l in enumerate(langs):
        s = base.clone()
        if i == 0 or rng.random() < 0.9:
            pairs.edit(rng, s, 'lgr%d' % i)
        # each in its own code points, more or less
        if rng.random() < 0.4:
            for cp in sorted(s.chars):
                if not s.chars[cp].rng and rng.random() < 0.4 and len(s.chars) > 2:
                    del s.chars[cp]
        s.meta['languages'] = [l] + [x for x in s.meta['languages'] if x != l]
        if rng.random() < 0.5:
            s.rules.insert(rng.randint(0, len(s.rules)), (MSR, [('start',), ('class', ('prop', 'gc:Mn'), None)]))
            if rng.random() < 0.7:
                s.actions.insert(0, Act('invalid', match=MSR))
            if rng.random() < 0.5:
                s.rules.append(('uses', [('ruleref', MSR, None), ('end',)]))
            if rng.random() < 0.3:
                c = rng.choice([s.chars[k] for k in sorted(s.chars)])
                if not c.rng:
                    c.when, c.not_when = rng.choice([(MSR, None), (None, MSR)])
                    if c.vars and rng.random() < 0.5:
                        v = Var(c.vars[0].cp, 'blocked', when=MSR)
                        if v.ident() not in [x.ident() for x in c.vars]:
                            c.vars.append(v)
        if rng.random() < 0.2:
            s.actions.insert(rng.randint(0, len(s.actions)), rng.choice(spec.DEFAULT_ACTS))
        # other ids for the references
        if s.refs and rng.random() < 0.5:
            ids = [r[0] for r in s.refs]
            new = ids[1:] + ids[:1] if rng.random() < 0.5 else ['Z%d' % k for k in range(len(ids))]
            m = dict(zip(ids, new))
            s.refs = [(m[r[0]],) + tuple(r[1:]) for r in s.refs]
            for c in s.chars.values():
                for x in [c] + c.vars:
                    x.ref = [m[r] for r in x.ref]
            for a in s.actions:
                a.ref = [m[r] for r in a.ref]
        for c in s.chars.values():
            if len(c.cp) == 1 and not c.rng and rng.random() < 0.1:
                c.tag = c.tag + ['sc:Latn']
        out.append(s)
    out.sort(key=key)
    # context rules that cannot be merged
    if not conflicts:
        seen = {}
        for s in out:
            for cp, c in s.chars.items():
                w, n = seen.get(cp, (None, None))
                nw, nn = c.when or w, c.not_when or n
                if (c.when and w and c.when != w) or (c.not_when and n and c.not_when != n) or (nw and nn):
                    c.when = c.not_when = None
                    if c.rng:
                        for d in range(c.rng[0], c.rng[1] + 1):
                            s.chars[(d,)].when = s.chars[(d,)].not_when = None
                else:
                    seen[cp] = nw, nn
    return out


def document(rng, s):
    """Its document, with references in rules and in their elements."""
    xml = c15.doctored(rng, s)
    ids = [r[0] for r in s.refs]
    if ids:
        head, sep, tail = xml.partition(b'<rules>')
        tail = re.sub(br'<(rule|class|union|any|choice) (?=name)|<(class|any) (?![^>]*(?:name|by-ref)=)(?=[a-z])',
                      lambda m: m.group(0) + (b'ref="%s" ' % ' '.join(gen.subset(rng, ids, 1, 2)).encode()
                                              if rng.random() < 0.3 else b''), tail)
        xml = head + sep + tail
    return xml


def rule_name(n, script):
    return None if n is None else ('Common' if n == MSR else script) + '-' + n


def tag_name(t, script):
    return t if ':' in t else script + '-' + t


def element(e, script, refs):
    """A rule, class or action as it is in the merged LGR."""
    at = {}
    for k, v in e[1]:
        if k == 'name':
            v = rule_name(v, script) if e[0] == 'rule' else script + '-' + v
        elif k == 'by-ref':
            v = rule_name(v, script) if e[0] == 'rule' else script + '-' + v
        elif k == 'from-tag':
            v = tag_name(v, script)
        elif k in ('match', 'not-match'):
            v = rule_name(v, script)
        elif k == 'ref':
            v = [refs[x] for x in v.split()]
            v = tuple(x for i, x in enumerate(v) if x not in v[:i])
        at[k] = v
    return (e[0], tuple(sorted(at.items())), e[2], tuple(element(c, script, refs) for c in e[3]))


def plain(e, refs):
    at = {k: tuple(refs.get(x, '?' + x) for x in v.split()) if k == 'ref' else v for k, v in e[1]}
    return (e[0], tuple(sorted(at.items())), e[2], tuple(plain(c, refs) for c in e[3]))


def named(e, name):
    return (e[0], tuple(sorted(dict(e[1], name=name).items())), e[2], e[3])


class Conflict(Exception):
    pass


def expected(docs, with_db):
    """docs: (spec, document), in the order of the merge"""
    chars, classes, rules, alts, actions = {}, {}, {}, {}, []
    for s, xml in docs:
        script = s.meta['languages'][0]
        refs = {r[0]: r[1] for r in s.refs}
        doc = c09.read(xml)['rules']
        mine = {}
        for e in doc:
            n = dict(e[1]).get('name')
            x = element(e, script, refs)
            if e[0] == 'action':
                continue
            if e[0] == 'rule':
                mine[n] = x
                rules.setdefault(rule_name(n, script), x)
            else:
                classes[script + '-' + n] = x
        for a, e in zip(s.actions, [e for e in doc if e[0] == 'action']):
            if a.full()[:6] not in [x.full()[:6] for x in spec.DEFAULT_ACTS]:
                actions.append(element(e, script, refs))
        for cp, c in s.chars.items():
            tags = [tag_name(t, script) for t in c.tag] + (scx(cp) if with_db else [])
            x = chars.setdefault(cp, dict(comment=None, tags=[], refs=[], vars={}, bases={}, when=None, not_when=None,
                                          lgrs=[]))
            x['lgrs'].append(script)
            x['comment'] = pairs.both(x['comment'], c.comment)
            x['tags'] += tags
            x['refs'] += [refs[r] for r in c.ref]
            for v in c.vars:
                i = (v.cp, rule_name(v.when, script), rule_name(v.not_when, script))
                x['vars'].setdefault(i, (v.comment, {refs[r] for r in v.ref}))
            for k in ('when', 'not_when'):
                n = getattr(c, k)
                if n is None:
                    continue
                if x[k] is None or x[k] == rule_name(n, script):
                    x[k] = rule_name(n, script)
                    x['bases'][k] = n
                elif x['bases'][k] == n and n != MSR:
                    # the rule of one or the other
                    name = script + '-' + x[k]
                    alts.setdefault(name, [rules[x[k]]] if x[k] in rules else list(alts[x[k]]))
                    alts[name].append(mine[n])
                    x[k] = name
                else:
                    raise Conflict('different')
            if x['when'] and x['not_when']:
                raise Conflict('complementary')
    return chars, classes, rules, alts, actions


def components(chars):
    comp = {cp: {cp} for cp in chars}
    for cp, x in chars.items():
        for v in x['vars']:
            if v[0] in comp and comp[cp] is not comp[v[0]]:
                u = comp[cp] | comp[v[0]]
                for y in u:
                    comp[y] = u
    return comp


def check_variants(ctx, docs, chars, got, d):
    """got: {cp: {identity: (type, comment, refs)}}"""
    comp = components(chars)
    whole = all(set((o, x) for x, c in s.chars.items() for o in [v.cp for v in c.vars if v.cp != x]) ==
                set((x, v.cp) for x, c in s.chars.items() for v in c.vars if v.cp != x) and
                all({w.cp for w in s.chars[v.cp].vars} | {v.cp, x} == {w.cp for w in c.vars} | {v.cp, x}
                    for x, c in s.chars.items() for v in c.vars if v.cp in s.chars)
                for s, _ in docs)
    for cp in chars:
        base, vs = chars[cp]['vars'], got[cp]
        for i in vs:
            ctx.eq(vs[i][0], 'blocked', 'variant-type', lambda: '%s %s' % (cp, d()))
        ctx.check(set(base) <= set(vs), 'variant-lost', lambda: '%s %s %s' % (cp, set(base) - set(vs), d()))
        for i in base:
            if i in vs:
                # the comment of another LGR is not given to a variant that the merge needed before it
                ctx.check(vs[i][1:] in (base[i], (NEW, set())), 'variant-data',
                          lambda: '%r %r %s %s' % (vs[i], base[i], cp, d()))
        for i in set(vs) - set(base):
            # only what transitivity needs
            ctx.check(i[1:] == (None, None) and i[0] in comp[cp] and i[0] != cp, 'variant-added',
                      lambda: '%s %s %s' % (cp, i, d()))
            ctx.event('transitive')
        if whole:
            ctx.eq({i[0] for i in vs} - {cp}, comp[cp] - {cp} if vs else set(), 'transitivity',
                   lambda: '%s %s' % (cp, d()))
            ctx.check(len(comp[cp]) == 1 or vs, 'transitivity', d)
    if whole:
        ctx.event('whole')
    for a in chars:
        per = [{v.cp for v in s.chars[a].vars if v.cp in s.chars} for s, _ in docs if a in s.chars]
        anyway = [{v.cp for v in s.chars[a].vars} for s, _ in docs if a in s.chars]
        if len(per) < 2:
            continue
        all_ = set().union(*per) - {a}
        for b in all_:
            for c in all_:
                if b != c and b in chars and c in chars and not any(b in p and c in p for p in anyway):
                    ctx.check(any(i[0] == c for i in got[b]), 'transitivity-step', lambda: '%s %s %s %s' % (a, b, c, d()))


def compare(ctx, out, docs, exp, d):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    chars, classes, rules, alts, actions = exp
    specs = [s for s, _ in docs]
    refs = {}
    ids = set()
    for i, v, c in spec.snap_refs(out):
        ctx.check(i not in ids, 'reference-id', d)
        ids.add(i)
        refs[i] = v
    ctx.eq(sorted(set(refs.values())), sorted({r[1] for s in specs for r in s.refs}), 'references', d)
    val = lambda l: [refs.get(x, '?' + x) for x in l]
    got = {}
    for c in out.repertoire.all_repertoire():
        cp = tuple(c.cp)
        ctx.check(cp not in got, 'duplicate', d)
        vs = [((tuple(v.cp), v.when, v.not_when), (v.type, v.comment, set(val(v.references)))) for v in c.get_variants()]
        got[cp] = dict(vs)
        ctx.eq(len(vs), len(got[cp]), 'duplicate-variant', d)
        if not ctx.check(cp in chars, 'extra-code-point', lambda: '%s %s' % (cp, d())):
            continue
        x = chars[cp]
        dd = lambda: '%s %s' % (cp, d())
        ctx.eq((c.when, c.not_when), (x['when'], x['not_when']), 'context', dd)
        ctx.eq((sorted(c.tags)), sorted(set(x['tags'])), 'tags', dd)
        ctx.eq(c.comment, x['comment'], 'comment', dd)
        ctx.eq((sorted(val(c.references))), sorted(set(x['refs'])), 'char-references', dd)
    if not ctx.eq(set(got), set(chars), 'code-points', d):
        return
    check_variants(ctx, docs, chars, got, d)
    xml = serialize_lgr_xml(out)
    doc = c09.read(xml)
    els = [plain(e, refs) for e in doc['rules']]
    name = lambda e: dict(e[1]).get('name')
    ctx.eq([e for e in els if e[0] == 'action'], actions, 'actions', d)
    g = {name(e): e for e in els if e[0] not in ('rule', 'action')}
    ctx.eq(g, classes, 'classes', d)
    g = {name(e): e for e in els if e[0] == 'rule'}
    ctx.eq(len(g), len([e for e in els if e[0] == 'rule']), 'duplicate-rule', d)
    ctx.eq({n: e for n, e in g.items() if n not in alts}, rules, 'rules', d)
    for n in alts:
        if ctx.check(n in g, 'merged-rule', lambda: '%s %s' % (n, d())):
            ctx.check(g[n] in [named(e, n) for e in alts[n]], 'merged-rule', lambda: '%r %r %s' % (g[n], alts[n], d()))
            ctx.event('merged-rule')
    # what is used is defined
    ctx.eq((list(out.rules), len(out.rules_xml)), ([name(e) for e in els if e[0] == 'rule'], len(g)), 'rule-list', d)
    ctx.eq(sorted(map(str, out.rules_lookup)), sorted(g), 'rule-lookup', d)
    used = {x for c in out.repertoire.all_repertoire() for y in [c] + list(c.get_variants()) for x in (y.when, y.not_when)}
    ctx.check(used - {None} <= set(out.rules_lookup), 'dangling', d)
    # metadata
    m = spec.snap_meta(out)
    ms = [s.meta for s in specs]
    fold = lambda f, k: (lambda l: f(l) if l else None)([x[k] for x in ms if x[k] is not None])
    uniq = lambda l: [x for i, x in enumerate(l) if x not in l[:i]]
    ctx.eq(m['languages'], uniq([l for x in ms for l in x['languages']]), 'languages', d)
    ctx.eq(m['scopes'], uniq([l for x in ms for l in x['scopes']]), 'scopes', d)
    ctx.eq(m['validity_start'], fold(max, 'validity_start'), 'validity-start', d)
    ctx.eq(m['validity_end'], fold(min, 'validity_end'), 'validity-end', d)
    ctx.eq(m['unicode_version'], max([x['unicode_version'] for x in ms], key=pairs.vkey), 'unicode-version', d)
    ctx.check(m['date'] in c15.today(), 'date', d)
    v = m['version'] or ('', '')
    ctx.eq((v[0] or '', v[1] or ''), tuple('|'.join(uniq([x['version'][i] for x in ms if x['version'] and
                                                          x['version'][i]])) for i in (0, 1)), 'version', d)
    descs = [x['description'] for x in ms if x['description']]
    if descs:
        ctx.check(all(x[0] in m['description'][0] for x in descs), 'description', d)
        ctx.eq(m['description'][1], 'text/html' if all(x[1] == 'text/html' for x in descs) else 'text/plain',
               'description-type', d)
    # read back
    back = spec.load(xml, force=False, name=out.name)
    ctx.eq(spec.diff_snap(spec.snapshot(out), spec.snapshot(back)), '', 'read-back', d)


def merge(ctx, conflicts=False):
    from lgr.tools.merge_set import merge_lgr_set
    from lgr.exceptions import LGRException
    rng = ctx.rng
    specs = make_set(rng, conflicts)
    docs = [(s, document(rng, s)) for s in specs]
    db = env.unidb() if rng.random() < 0.5 else None
    lgrs = [spec.load(x, db, name='lgr%d' % i) for i, (_, x) in enumerate(docs)]
    before = [spec.snapshot(x) for x in lgrs]
    d = lambda: '\n'.join(x.decode() for _, x in docs)
    given = list(lgrs)
    rng.shuffle(given)
    try:
        exp = expected(docs, db is not None)
    except Conflict as e:
        ctx.raises(LGRException, 'conflict-' + str(e), merge_lgr_set, given, 'merged')
        ctx.event(str(e))
        ctx.seen(d())
        return
    out = merge_lgr_set(given, 'merged')
    ctx.eq(out.name, 'merged', 'name', d)
    compare(ctx, out, docs, exp, d)
    for l, s, b in zip(lgrs, specs, before):
        c15.same_but_ranges(ctx, l, s, b, d)
    # other order, same result
    again = merge_lgr_set([spec.load(x, db, name='x') for _, x in docs], 'merged')
    ctx.eq(spec.diff_snap(spec.snapshot(out), spec.snapshot(again)), '', 'order', d)
    ctx.event('merged')
    if any(len(x['lgrs']) > 1 and x['tags'] and x['vars'] for x in exp[0].values()):
        ctx.seen(d())
        ctx.show(d()[:1500])


def conflict(ctx):
    merge(ctx, True)


def variant_sets(ctx):
    """LGRs with symmetric and transitive variants."""
    from lgr.tools.merge_set import merge_lgr_set
    rng = ctx.rng
    pool = [(c,) for c in gen.LATIN + gen.OTHERS[:4]] + [(0x61, 0x62), (0x63, 0x301)]
    docs = []
    for l in rng.sample(LANGS, rng.choice([2, 2, 3, 3, 4, 5])):
        s = Spec()
        s.meta['languages'] = [l]
        cps = rng.sample(pool, rng.randint(2, 8))
        i = 0
        while i < len(cps):
            n = rng.choice([1, 2, 2, 3])
            group = cps[i:i + n]
            i += n
            refl = rng.random() < 0.2
            for x in group:
                s.add(Ch(x, vars=[Var(y, rng.choice(['blocked', 'allocatable'])) for y in group if y != x or refl]))
        docs.append((s, spec.to_xml(s)))
    docs.sort(key=lambda x: key(x[0]))
    d = lambda: '\n'.join(x.decode() for _, x in docs)
    out = merge_lgr_set([spec.load(x) for _, x in docs], 'm')
    chars = expected(docs, False)[0]
    got = {tuple(c.cp): {(tuple(v.cp), v.when, v.not_when): (v.type, None, set()) for v in c.get_variants()}
           for c in out.repertoire}
    ctx.eq(set(got), set(chars), 'code-points', d)
    check_variants(ctx, docs, chars, got, d)
    ctx.seen(d())


CHILD = r'''
import sys, json, random
sys.path.insert(0, %(verif)r)
from mon import env, gen, pairs, spec
from mon.props import c18
from lgr.tools.merge_set import merge_lgr_set
from lgr.parser.xml_serializer import serialize_lgr_xml
rng = random.Random(%(seed)r)
out = []
c18.prepare()
for i in range(%(n)r):
    l = [spec.load(c18.document(rng, s), env.unidb()) for s in c18.make_set(rng, False)]
    out.append(serialize_lgr_xml(merge_lgr_set(l, 'm')).decode())
print(json.dumps(out))
'''


def hash_seeds(ctx):
    rng = ctx.rng
    seed = rng.randrange(10 ** 9)
    outs, procs = [], []
    for hs in ['0'] + [str(rng.randrange(1, 4000000)) for _ in range(2)]:
        procs.append(subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c',
                                       CHILD % {'verif': env.VERIF, 'seed': seed, 'n': 20}],
                                      env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE,
                                      stderr=subprocess.PIPE))
    for p in procs:
        o, err = p.communicate()
        if p.returncode != 0:
            raise RuntimeError(err.decode()[-2000:])
        outs.append(json.loads(o.decode()))
    for i, o in enumerate(outs[0]):
        for other in outs[1:]:
            ctx.eq(other[i], o, 'hash-seed', lambda: 'seed %s' % seed)
        ctx.event('compared')
    ctx.seen(seed)


SCENARIOS = [Scenario('merge', merge, 800, 16000, need=('merged', 'merged-rule', 'transitive')),
             Scenario('conflict', conflict, 300, 4000, need=('different', 'complementary')),
             Scenario('variant_sets', variant_sets, 1500, 30000, need=('whole', 'transitive')),
             Scenario('hash_seeds', hash_seeds, 8, 160, need=('compared',))]
