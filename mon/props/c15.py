"""C15: union of two LGRs."""
import datetime
import io
import json
import os
import subprocess
import sys

from ..core import Scenario, Skip
from .. import env, gen, pairs, spec
from . import c09

RULE = ('pairs of random LGRs made from a common one by random edits (code points, ranges, tags, context rules, variants, '
        'classes, rules, actions, references, metadata), united; non-trivial: each LGR has something the other has not')


def prepare():
    gen.COMP = 0.1
    env.unidb()


def bare(c, vars=True):
    return (c.cp, c.when, c.not_when, frozenset(c.tag), c.comment,
            frozenset((v.cp, v.type, v.when, v.not_when) for v in c.vars))


def expected(a, b):
    data = {}
    for cp in set(a.chars) | set(b.chars):
        x, y = a.chars.get(cp), b.chars.get(cp)
        if x is None or y is None:
            data[cp] = bare(x or y)
            continue
        vs = list(x.vars) + [v for v in y.vars if v.ident() not in [w.ident() for w in x.vars]]
        data[cp] = (cp, x.when if x.when == y.when else None, x.not_when if x.not_when == y.not_when else None,
                    frozenset(x.tag) | frozenset(y.tag), pairs.both(x.comment, y.comment),
                    frozenset((v.cp, v.type, v.when, v.not_when) for v in vs))
    ref = lambda f, x, y: f(x, y)
    m, n = a.meta, b.meta
    meta = dict(languages=pairs.ounion(m['languages'], n['languages']), scopes=pairs.ounion(m['scopes'], n['scopes']),
                validity_start=pairs.pick(max, m['validity_start'], n['validity_start']),
                validity_end=pairs.pick(min, m['validity_end'], n['validity_end']),
                unicode_version=max(m['unicode_version'], n['unicode_version'], key=pairs.vkey))
    acts = list(a.actions) + [x for x in b.actions if x.full()[:6] not in [y.full()[:6] for y in a.actions]]
    # comments of variants: of the first one that has it
    comments = {(cp, v.cp, v.when, v.not_when): v.comment for s in (b, a) for cp, c in s.chars.items() for v in c.vars}
    return dict(data=data, meta=meta, refs={r[1] for r in a.refs} | {r[1] for r in b.refs}, comments=comments,
                classes=dict(a.classes, **dict(b.classes)), rules=dict(a.rules, **dict(b.rules)),
                actions=[x.full()[:6] for x in acts])


def check_version(ctx, m, n, got, d):
    if m is None or n is None:
        ctx.eq(got, m or n, 'version', d)
    else:
        ctx.eq(got, (pairs.both(m[0], n[0]), pairs.both(m[1], n[1])), 'version', d)


def check_description(ctx, m, n, got, d):
    """The texts of both, as HTML only if both are, or both of the only one that tells."""
    if m is None or n is None or m == n:
        ctx.eq(got, m or n, 'description', d)
        return
    ctx.event('descriptions')
    ctx.check(got is not None, 'description', d)
    ctx.check(got[0].find(m[0]) >= 0 and got[0].find(n[0], got[0].find(m[0]) if m[0] not in n[0] else 0) >= 0,
              'description-text', lambda: '%r %s' % (got, d()))
    kinds = [x[1] for x in (m, n)]
    if kinds == ['text/html'] * 2:
        ctx.eq(got[1], 'text/html', 'description-type', d)
    elif 'text/html' in kinds:
        ctx.check(got[1] != 'text/html', 'description-type', lambda: '%r %s' % (got, d()))
        ctx.check(all(str(k) in got[0] for k in kinds), 'description-types', lambda: '%r %s' % (got, d()))


def compare(ctx, out, a, b, exp, xml, d):
    """out: the resulting LGR; xml: its document."""
    got = {}
    for c in out.repertoire.all_repertoire():
        ctx.check(not hasattr(c, 'first_cp'), 'range', d)
        ctx.check(tuple(c.cp) not in got, 'duplicate', d)
        ctx.eq(len(set(c.tags)), len(c.tags), 'duplicate-tag', d)
        vs = [(tuple(v.cp), v.type, v.when, v.not_when) for v in c.get_variants()]
        ctx.eq(len({(v[0], v[2], v[3]) for v in vs}), len(vs), 'duplicate-variant', d)
        got[tuple(c.cp)] = (tuple(c.cp), c.when, c.not_when, frozenset(c.tags), c.comment, frozenset(vs))
    ctx.eq(set(got), set(exp['data']), 'code-points', d)
    for cp in sorted(set(got) & set(exp['data'])):
        for i, k in enumerate(('cp', 'when', 'not-when', 'tags', 'comment', 'variants')):
            ctx.eq(got[cp][i], exp['data'][cp][i], k, lambda: '%s %s' % (cp, d()))
    m = spec.snap_meta(out)
    for k, v in exp['meta'].items():
        ctx.eq(m[k], v, 'meta-' + k, d)
    ctx.check(m['date'] in today(), 'date', d)
    check_version(ctx, a.meta['version'], b.meta['version'], m['version'], d)
    check_description(ctx, a.meta['description'], b.meta['description'], m['description'], d)
    if 'comments' in exp:
        for c in out.repertoire.all_repertoire():
            for v in c.get_variants():
                k = (tuple(c.cp), tuple(v.cp), v.when, v.not_when)
                ctx.eq(v.comment, exp['comments'].get(k), 'variant-comment', lambda: '%s %s' % (k, d()))
    refs = spec.snap_refs(out)
    ctx.eq(sorted(r[1] for r in refs), sorted(exp['refs']), 'references', d)
    # in the order of the first one, then of the second one
    order = lambda x, y, names: [n for n in pairs.ounion([n for n, _ in x], [n for n, _ in y]) if n in names]
    ctx.eq(list(out.classes), order(a.classes, b.classes, exp['classes']), 'classes', d)
    ctx.eq(list(out.rules), order(a.rules, b.rules, exp['rules']), 'rules', d)
    ctx.eq([spec.snap_action(x)[:6] for x in out.actions], exp['actions'], 'actions', d)
    # its document says the same
    doc = c09.read(xml)
    ctx.eq({c[0] for c in doc['chars']}, set(exp['data']), 'document-code-points', d)
    # ... with the definitions of the rules
    defs = {}
    for e in doc['rules']:
        defs.setdefault(e[0] if e[0] in ('rule', 'action') else 'class', []).append(e)
    canon = lambda x: strip(c09.canon(x))
    ctx.eq([strip(e) for e in defs.get('class', [])],
           [canon(spec.class_xml(exp['classes'][n], name=n)) for n in out.classes if n in exp['classes']],
           'class-definitions', d)
    ctx.eq([strip(e) for e in defs.get('rule', [])],
           [canon(spec.rule_xml(n, exp['rules'][n])) for n in out.rules if n in exp['rules']], 'rule-definitions', d)
    # references of the document exist
    ids = {r[0] for r in doc['refs']}
    ctx.check(all(set(x) <= ids for c in doc['chars'] for x in [c[5]] + [v[5] for v in c[7]]), 'dangling-reference', d)
    for e in doc['rules']:
        ctx.check(set((dict(e[1]).get('ref') or '').split()) <= ids, 'dangling-reference', d)
    # read back
    back = spec.load(xml, force=False, name=out.name)
    ctx.eq(spec.diff_snap(dict(spec.snap_data(out)), spec.snap_data(back)), '', 'read-back-data', d)
    ctx.eq([spec.snap_action(x)[:6] for x in back.actions], exp['actions'], 'read-back-actions', d)
    ctx.eq((list(back.rules), list(back.classes)), (list(out.rules), list(out.classes)), 'read-back-rules', d)
    ctx.eq(spec.snap_meta(back), spec.snap_meta(out), 'read-back-meta', d)
    return back


def today():
    t = datetime.date.today()
    return {(t - datetime.timedelta(days=k)).isoformat() for k in (0, 1)} | {t.isoformat()}


def strip(e):
    return (e[0], tuple(x for x in e[1] if x[0] not in ('comment',)), e[2], tuple(strip(c) for c in e[3]))


def expand(s):
    s = s.clone()
    s.ranges = []
    for c in s.chars.values():
        c.rng = None
    return s


def same_but_ranges(ctx, lgr, s, before, d):
    """An operand is left as it was, its ranges expanded."""
    after = spec.snapshot(lgr)
    for k in before:
        if k not in ('data', 'ranges'):
            ctx.eq(after[k], before[k], 'operand-' + k, d)
    ctx.eq({k: v[:6] + v[7:] for k, v in after['data'].items()}, {k: v[:6] + v[7:] for k, v in before['data'].items()},
           'operand-data', d)


def doctored(rng, s):
    """Its document, pretty printed or not (the XML of the rules then has other whitespaces after it)."""
    xml = spec.to_xml(s)
    if rng.random() < 0.3:
        for tag in (b'<rule name', b'<class name', b'<action', b'<union name', b'<difference name'):
            xml = xml.replace(tag, b'\n    ' + tag)
    return xml


def run(ctx, fn, expect, what):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    rng = ctx.rng
    a, b = pairs.pair(rng)
    if rng.random() < 0.3:
        # no context rule, no redefinition: everything is common
        pass
    res = pairs.resolve(a, b)
    if res is None:
        raise Skip()
    ra, rb, renamed = res
    xa, xb = doctored(rng, a), doctored(rng, b)
    unidb = env.unidb() if rng.random() < 0.2 else None
    la, lb = spec.load(xa, unidb, name='A'), spec.load(xb, unidb, name='B')
    d = lambda: 'first %s\nsecond %s' % (xa.decode(), xb.decode())
    before = [spec.snapshot(x) for x in (la, lb)]
    out = fn(la, lb)
    exp = expect(ra, rb) if expect is expected else expect(ra, rb, renamed)
    xml = serialize_lgr_xml(out, pretty_print=rng.random() < 0.5)
    back = compare(ctx, out, ra, rb, exp, xml, d)
    same_but_ranges(ctx, la, a, before[0], d)
    same_but_ranges(ctx, lb, b, before[1], d)
    # the result has a life of its own
    mid = [spec.snapshot(x) for x in (la, lb)]
    for t in list(out.get_tag_classes()):
        out.del_tag(t)
    for c in list(out.repertoire.all_repertoire()):
        for v in list(c.get_variants()):
            out.del_variant(c.cp, v.cp, when=v.when, not_when=v.not_when)
    out.metadata.languages.append('x')
    out.metadata.scopes.append('x')
    for x in out.metadata.version, out.metadata.description:
        if x is not None:
            x.value = 'changed'
    if out.metadata.version is not None:
        out.metadata.version.comment = 'changed'
    for x in out.metadata.scopes[:-1]:
        x.value = 'changed'
    out.actions.append(None)
    ctx.eq([spec.diff_snap(m, spec.snapshot(x)) for m, x in zip(mid, (la, lb))], ['', ''], 'shared-state', d)
    if renamed:
        ctx.event('renamed')
    if any(a.chars[c].when != b.chars[c].when or a.chars[c].not_when != b.chars[c].not_when
           for c in set(a.chars) & set(b.chars)):
        ctx.event('context-differs')
    if len(exp['actions']) > 1:
        ctx.event('actions')
    if set(a.chars) - set(b.chars) and set(b.chars) - set(a.chars):
        ctx.event(what)
        ctx.seen(xa, xb)
        ctx.show(d()[:1500])
    return la, lb


def union(ctx):
    from lgr.tools.compare import union_lgrs
    run(ctx, union_lgrs, expected, 'united')


def algebra(ctx):
    """With itself: the same content. Both orders: the same content, but for the order and choices."""
    from lgr.tools.compare import union_lgrs
    rng = ctx.rng
    a, b = pairs.pair(rng)
    d = lambda: 'first %s\nsecond %s' % (spec.to_xml(a).decode(), spec.to_xml(b).decode())
    u = union_lgrs(spec.load(a), spec.load(a))
    e = expected(a, a)
    ctx.eq({tuple(c.cp): (c.when, c.not_when, frozenset(c.tags), c.comment,
                          frozenset((v.cp, v.type, v.when, v.not_when) for v in c.get_variants()))
            for c in u.repertoire.all_repertoire()}, {cp: bare(c)[1:] for cp, c in a.chars.items()}, 'with-itself', d)
    ctx.eq([c for c in u.classes], [n for n, _ in a.classes], 'with-itself', d)
    ctx.eq([c for c in u.rules], [n for n, _ in a.rules], 'with-itself', d)
    m = spec.snap_meta(u)
    for k in ('version', 'description', 'languages', 'validity_start', 'validity_end', 'unicode_version'):
        ctx.eq(m[k], a.meta[k], 'with-itself-' + k, d)
    if not pairs.conflicts(a, b):
        u, v = union_lgrs(spec.load(a), spec.load(b)), union_lgrs(spec.load(b), spec.load(a))
        flat = lambda l: {tuple(c.cp): (c.when, c.not_when, frozenset(c.tags),
                                        frozenset((x.cp, x.when, x.not_when) for x in c.get_variants()))
                          for c in l.repertoire.all_repertoire()}
        ctx.eq(flat(u), flat(v), 'commutative', d)
        ctx.event('commuted')
    ctx.seen(spec.to_xml(a))


CHILD = r'''
import sys, json, random
sys.path.insert(0, %(verif)r)
from mon import env, gen, pairs, spec
from lgr.tools.compare import union_lgrs, intersect_lgrs
from lgr.parser.xml_serializer import serialize_lgr_xml
rng = random.Random(%(seed)r)
out = []
for i in range(%(n)r):
    a, b = [spec.to_xml(x) for x in pairs.pair(rng)]
    for f in (union_lgrs, intersect_lgrs):
        r = f(spec.load(a), spec.load(b))
        out.append([serialize_lgr_xml(r).decode(), [repr(c.cp) for c in r.repertoire]])
print(json.dumps(out))
'''


def hash_seeds(ctx):
    rng = ctx.rng
    seed = rng.randrange(10 ** 9)
    outs = []
    procs = []
    for hs in ['0'] + [str(rng.randrange(1, 4000000)) for _ in range(2)]:
        procs.append(subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c',
                                       CHILD % {'verif': env.VERIF, 'seed': seed, 'n': 25}],
                                      env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE,
                                      stderr=subprocess.PIPE))
    for p in procs:
        o, err = p.communicate()
        if p.returncode != 0:
            raise RuntimeError(err.decode()[-2000:])
        outs.append(json.loads(o.decode()))
    for i, o in enumerate(outs[0]):
        for other in outs[1:]:
            ctx.eq(other[i], o, 'hash-seed', lambda: 'seed %s' % seed)
        ctx.event('compared')
    ctx.seen(seed)


SCENARIOS = [Scenario('union', union, 1600, 30000, need=('united', 'renamed', 'context-differs', 'actions', 'descriptions')),
             Scenario('algebra', algebra, 400, 6000, need=('commuted',)),
             Scenario('hash_seeds', hash_seeds, 8, 160, need=('compared',))]
