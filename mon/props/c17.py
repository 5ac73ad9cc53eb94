"""C17: textual comparison of two LGRs."""
import re

from ..core import Scenario, Skip
from .. import env, gen, pairs, spec
from . import c09, c15

RULE = ('pairs of random LGRs made from a common one by random edits, compared with and without their common values; '
        'non-trivial: the LGRs have a common code point with a difference')
prepare = c15.prepare

fmt = lambda cp: ' '.join('U+%04X' % c for c in cp)


def vtext(v):
    return 'Variant %s: type=%s - when=%s - not-when=%s - comment=%s' % (fmt(v.cp), v.type, v.when, v.not_when,
                                                                         v.comment)


def parse(text):
    """{(section, item): {name: ('diff', first, second) | ('set', first, second) | ('same', value)}}, other lines"""
    res = {}
    rest = []
    where = ('', '')
    pat = re.compile(
        r"(?P<sec>\*\* Compare [^\n]*? \*\*)\n|"
        r"    \+ Compare (?P<item>code point|rule|class) (?P<id>[^\n]*)\n|"
        r"    \+ Compare code point (?P<id0>[^\n]*)$|"
        r"(?P<n1>[A-Z][a-z -]*) values differ:\nFirst LGR: '(?P<a>.*?)'\.\nSecond LGR: '(?P<b>.*?)'\.\n|"
        r"(?P<n2>[A-Z][a-z -]*) values differ:\nValues only in first LGR: (?P<c>.*?)\.\nValues only in second LGR: "
        r"(?P<d>.*?)\.\n|"
        r"Same (?P<n3>[a-z -]*) value for both LGR: '(?P<e>.*?)'\.(?=\n|$)|"
        r"(?P<line>[^\n]*)(\n|$)", re.S)
    pos = 0
    while pos < len(text):
        m = pat.match(text, pos)
        pos = m.end()
        if m.group('sec'):
            where = (m.group('sec').strip('* '), '')
            res.setdefault(where, {})
        elif m.group('item') or m.group('id0') is not None:
            k = (where[0], (m.group('item') or 'code point', m.group('id') or m.group('id0')))
            if k in res:
                rest.append('repeated %r' % (k,))
            where = k
            res[where] = {}
        else:
            for g, n in (('diff', 'n1'), ('set', 'n2'), ('same', 'n3')):
                if m.group(n):
                    name = m.group(n).lower()
                    if name in res.setdefault(where, {}):
                        rest.append('repeated %s %r' % (name, where))
                    res[where][name] = {'diff': ('diff', m.group('a'), m.group('b')),
                                        'set': ('set', m.group('c'), m.group('d')),
                                        'same': ('same', m.group('e'))}[g]
                    break
            else:
                if m.group('line') and m.group('line').strip():
                    rest.append(m.group('line').strip())
        if m.end() == m.start():
            break
    return res, rest


class Exp(object):
    def __init__(self, same):
        self.same = same
        self.out = {}
        self.rest = []

    def plain(self, where, name, a, b, same=True):
        if a != b:
            self.out.setdefault(where, {})[name] = ('diff', str(a), str(b))
        elif self.same and same:
            self.out.setdefault(where, {})[name] = ('same', str(a))

    def sets(self, where, name, a, b, f, same=True):
        if set(a) != set(b):
            self.out.setdefault(where, {})[name] = ('set', f(set(a) - set(b)), f(set(b) - set(a)))
        elif self.same and same:
            self.out.setdefault(where, {})[name] = ('same', f(set(a)))


strs = lambda l: str(sorted(l, key=str))


def expected(a, b, same):
    e = Exp(same)
    M = ('Compare Metadata', '')
    m, n = a.meta, b.meta
    for k, names in (('version', ('version', 'version comment')), ('description', ('description', 'description type'))):
        if m[k] is None or n[k] is None:
            e.rest += ['First LGR has no ' + k] * (m[k] is None) + ['Second LGR has no ' + k] * (n[k] is None)
            continue
        for i, name in enumerate(names):
            e.plain(M, name, m[k][i], n[k][i])
    e.sets(M, 'scopes', m['scopes'], n['scopes'], lambda l: ', '.join(sorted('%s: %s' % (t, v) for v, t in l)))
    e.sets(M, 'languages', m['languages'], n['languages'], strs)
    for k in ('date', 'validity_start', 'validity_end', 'unicode_version'):
        e.plain(M, k.replace('_', ' '), m[k], n[k])
    refs = [r[1] for r in a.refs], [r[1] for r in b.refs]
    e.refs = refs
    R = ('Compare repertoire', '')
    e.sets(R, 'repertoire', a.chars, b.chars, lambda l: ' '.join(sorted(' '.join(map(fmt, l)).split(' '))) if l else '')
    identical = 0
    for cp in sorted(set(a.chars) & set(b.chars)):
        x, y = a.chars[cp], b.chars[cp]
        w = ('Compare common code points in repertoire', ('code point', fmt(cp)))
        c = Exp(same)
        c.plain(w, 'comment', x.comment, y.comment)
        c.plain(w, 'when', x.when, y.when)
        c.plain(w, 'not-when', x.not_when, y.not_when)
        c.plain(w, 'tags', x.tag, y.tag)
        c.sets(w, 'variants', [vtext(v) for v in x.vars], [vtext(v) for v in y.vars], lambda l: ', '.join(sorted(l)))
        if c.out:
            e.out.update(c.out)
        else:
            identical += 1
    if identical:
        e.rest.append('%d code points are identical' % identical)
    W = ('Compare WLE', '')
    e.sets(W, 'actions', [x.disp for x in a.actions], [x.disp for x in b.actions], strs, False)
    e.sets(W, 'rules', dict(a.rules), dict(b.rules), strs, False)
    e.sets(W, 'classes', dict(a.classes), dict(b.classes), strs, False)
    xa, xb = [[c09.canon(spec.action_xml(x)) for x in s.actions] for s in (a, b)]
    e.actions = xa != xb
    da, db = pairs.definitions(a), pairs.definitions(b)
    e.defs = {k for k in set(da) & set(db) if (spec.class_xml if k[0] == 'class' else lambda x: spec.rule_xml('', x))
              (da[k]) != (spec.class_xml if k[0] == 'class' else lambda x: spec.rule_xml('', x))(db[k])}
    return e


def norm_words(x):
    return ' '.join(sorted(x.split(' ')))


def compare(ctx, text, a, b, same, d):
    got, rest = parse(text)
    e = expected(a, b, same)
    # references may be repeated; they are reported before or after the sections
    ra, rb = set(e.refs[0]), set(e.refs[1])
    for k in list(got):
        r = got[k].pop('references', None)
        if r is not None:
            if ra == rb:
                ctx.eq(r, ('same', strs(ra)), 'references', d)
            else:
                ctx.eq(r, ('set', strs(ra - rb), strs(rb - ra)), 'references', d)
            ra = None
    ctx.check(ra is None or (ra == rb and not same), 'references', d)
    # definitions
    W = 'Compare WLE'
    defs = {k[1] for k in got if k[0] == W and k[1]}
    ctx.eq(defs, e.defs, 'definitions', d)
    acts = None
    for k in list(got):
        if k[0] == W:
            if 'action list' in got[k]:
                acts = got[k].pop('action list')
            got[k].pop('definition', None)
            if k[1]:
                # what follows a definition belongs to the section
                got.setdefault((W, ''), {}).update(got.pop(k))
    ctx.eq(acts is not None, e.actions, 'actions', d)
    for k in got:
        for n, v in got[k].items():
            if n == 'repertoire':
                v = (v[0],) + tuple(norm_words(x) for x in v[1:])
            elif n in ('scopes', 'variants'):
                v = (v[0],) + tuple(', '.join(sorted(x.split(', '))) for x in v[1:])
            got[k][n] = v
    for k in e.out:
        for n, v in e.out[k].items():
            if n in ('scopes', 'variants'):
                v = (v[0],) + tuple(', '.join(sorted(x.split(', '))) for x in v[1:])
            e.out[k][n] = v
    flat = lambda x: {(k, n): v for k, dd in x.items() for n, v in dd.items()}
    g, w = flat(got), flat(e.out)
    for k in sorted(set(g) | set(w), key=repr):
        ctx.eq(g.get(k), w.get(k), 'diff-%s' % k[1].replace(' ', '-'), lambda: '%s %s' % (k, d()))
    rest = [x for x in rest if x not in ('Compare Version:', 'Compare Description:')]
    ctx.eq(sorted(rest), sorted(e.rest), 'other-lines', d)
    return e


def diff(ctx):
    from lgr.tools.compare import diff_lgrs
    rng = ctx.rng
    a, b = pairs.pair(rng)
    xa, xb = c15.doctored(rng, a), c15.doctored(rng, b)
    d0 = lambda: 'first %s\nsecond %s' % (xa.decode(), xb.decode())
    la, lb = spec.load(xa, name='A'), spec.load(xb, name='B')
    before = [spec.snapshot(x) for x in (la, lb)]
    for same in (False, True):
        text = diff_lgrs(la, lb, show_same=same)
        e = compare(ctx, text, a, b, same, lambda: '%s\nreport: %s' % (d0(), text))
        ctx.eq(diff_lgrs(la, lb, show_same=same), text, 'stable', d0)
    c15.same_but_ranges(ctx, la, a, before[0], d0)
    c15.same_but_ranges(ctx, lb, b, before[1], d0)
    if e.defs:
        ctx.event('definitions')
    if e.actions:
        ctx.event('actions')
    n = [k for k in e.out if k[1] and any(v[0] != 'same' for v in e.out[k].values())]
    for k in n:
        for name, v in e.out[k].items():
            if v[0] != 'same':
                ctx.event(name)
    if n:
        ctx.seen(xa, xb)
        ctx.show(d0()[:1000])
    # with itself: no difference at all
    got, rest = parse(diff_lgrs(la, spec.load(xa, name='C'), show_same=False))
    ctx.check(not any(got.values()), 'with-itself', lambda: '%s %s' % (got, d0()))
    ctx.check(all('identical' in x or 'has no' in x or x.startswith('Compare ') for x in rest), 'with-itself',
              lambda: '%s %s' % (rest, d0()))


def sets(ctx):
    """LGR sets: by script."""
    from lgr.tools.compare import diff_lgr_sets, diff_lgrs
    rng = ctx.rng
    pool = ['und-Latn', 'und-Grek', 'und-Cyrl', 'ar', 'sr-Cyrl']
    la, lb = [], []
    for lst, who in ((la, 'a'), (lb, 'b')):
        for i in range(rng.randint(1, 4)):
            s = gen.gen_lgr(rng, rules=(0, 1), actions=(0, 1), seqs=(0, 1), variants=0.3)
            s.meta['languages'] = gen.subset(rng, pool, 0, 2)
            lst.append((s, '%s%d' % (who, i)))
    load = lambda l: [spec.load(s, name=n) for s, n in l]
    s1, s2 = load(la), load(lb)
    m1, m2 = spec.load(la[0][0], name='set1'), spec.load(lb[0][0], name='set2')
    same = rng.random() < 0.5
    text = diff_lgr_sets(m1, m2, s1, s2, show_same=same)
    d = lambda: '%s %s\n%s' % ([(n, s.meta['languages']) for s, n in la], [(n, s.meta['languages']) for s, n in lb], text)
    lang = lambda l: {s.meta['languages'][0] for s, _ in l if s.meta['languages']}
    byscript = lambda l, x: [(s, n) for s, n in l if s.meta['languages'][:1] == [x]]
    got = set(re.findall(r"^### Compare LGRs for script (\S+): (\S+) - (\S+) ###$", text, re.M))
    exp = {(x, p[1], q[1]) for x in lang(la) & lang(lb) for p in byscript(la, x) for q in byscript(lb, x)}
    ctx.eq(got, exp, 'compared', d)
    got = set(re.findall(r"^Script '(\S+)' is available in LGR set '(\S+)' with LGR '(.*?)' but not in LGR set '(\S+)'\.$",
                         text, re.M))
    exp = {(x, 'set1', "', '".join(n for _, n in byscript(la, x)), 'set2') for x in lang(la) - lang(lb)} | \
          {(x, 'set2', "', '".join(n for _, n in byscript(lb, x)), 'set1') for x in lang(lb) - lang(la)}
    ctx.eq(got, exp, 'missing-scripts', d)
    got = re.findall(r"More than one LGR in set '(\S+?)' match script '(\S+?)'", text)
    exp = [(n, x) for l, n in ((la, 'set1'), (lb, 'set2')) for x in lang(l) for _ in byscript(l, x)[1:]]
    ctx.eq(sorted(got), sorted(exp), 'repeated-scripts', d)
    for x in lang(la) & lang(lb):
        for s, n in byscript(la, x):
            for t, o in byscript(lb, x):
                part = diff_lgrs(spec.load(s, name=n), spec.load(t, name=o), show_same=same)
                ctx.check(part in text, 'part', d)
                ctx.event('part')
    ctx.seen(d())


SCENARIOS = [Scenario('diff', diff, 1200, 25000, need=('definitions', 'actions', 'when', 'not-when', 'tags', 'comment',
                                                       'variants')),
             Scenario('sets', sets, 300, 5000, need=('part',))]
