"""C28: review of IDN tables against a reference LGR."""
import unicodedata

from ..core import Scenario, Skip
from .. import env, gen, pairs, spec
from ..model import Model, Wle
from ..spec import Ch, Var
from . import c15

RULE = ('tables and references made from a common LGR by random edits, or variant sets drawn together; each part of the '
        'report is compared with the one computed from the descriptions; a table reviewed against itself matches; '
        'non-trivial: results of several kinds')
ASSUMPTIONS = ['the table and the reference have the Unicode database',
               'at most one variant mapping for each pair of code points in variant set rows',
               'a variant set meets at most one set of the other table, and a code point reaches its whole set']
prepare = c15.prepare


def u(cp):
    return ''.join(map(chr, cp))


def name_of(cp):
    return ' '.join(env.unidb().get_char_name(c) for c in cp)


def cp_rows(cps):
    db = env.unidb()
    return [dict(cp=cp, glyph=u(cp), name=name_of(cp), idna_property=' '.join(db.get_idna_prop(c) for c in cp),
                 category=' '.join(db.get_prop_value(c, 'General_Category') for c in cp)) for cp in cps]


def order(rows, key='cp'):
    return sorted(rows, key=lambda r: r[key])


# ------------------------------------------------------------------ models of the parts

def rule_key(c):
    return ('when', c.when) if c.when else ('not-when', c.not_when) if c.not_when else None


def repertoire(a, b):
    rows = []
    for cp in sorted(set(a.chars) | set(b.chars)):
        x, y = a.chars.get(cp), b.chars.get(cp)
        if x is None:
            res = 'SUBSET', 'Match as a subset of repertoire'
        elif y is None:
            res = 'MANUAL CHECK', 'The code point only exists in the IDN Table but not in the reference LGR'
        else:
            tx, ty = ({t for t in o.tag if not t.startswith('sc:')} for o in (x, y))
            kx, ky = rule_key(x), rule_key(y)
            tags = 'REVIEW' if ty - tx else 'NOTE' if tx - ty else None
            if kx == ky:
                rules = None
            elif kx and not ky and tags != 'REVIEW':
                rules = 'NOTE'
            else:
                rules = 'REVIEW'
            text = []
            if tags == 'REVIEW':
                text.append('Tags do not match')
            elif tags == 'NOTE' and rules != 'REVIEW':
                text.append('Tags not required in Reference LGR')
            if rules:
                text.append('Rules do not match' if rules == 'REVIEW' else 'Rules not required in Reference LGR')
            kind = 'REVIEW' if 'REVIEW' in (tags, rules) else 'NOTE' if text else 'MATCH'
            res = kind, '\n'.join(text) or 'Matches code point (including tags, context rule)'
        rows.append(dict(cp=cp, glyph=u(cp), name=name_of(cp), idn_table=x is not None, reference_lgr=y is not None,
                         result=res[0], remark=res[1]))
    return rows


def in_sequences(a, b):
    rows = []
    for seq in b.chars:
        if len(seq) > 1:
            for c in seq:
                if (c,) not in b.chars and (c,) in a.chars:
                    rows.append(dict(idn_cp=(c,), idn_glyph=chr(c), idn_name=name_of((c,)), ref_cp=seq, ref_glyph=u(seq),
                                     ref_name=name_of(seq)))
    return rows


def members(s):
    wle = Wle(s, lambda cp: env.unidb().get_script(cp, alpha4=True))
    single = {cp[0] for cp in s.chars if len(cp) == 1}
    tags = {}
    for cp, c in s.chars.items():
        for t in c.tag:
            tags.setdefault(t, set())
            if len(cp) == 1:
                tags[t].add(cp[0])
    res = {n: {c for c in single if wle.in_class(ast, c)} for n, ast in s.classes}
    return res, tags, single


def classes(a, b):
    """{name: (members, members, result, remark)}; without the implicit classes of tags"""
    (ma, _, sa), (mb, _, sb) = members(a), members(b)
    rows = {}
    for n in set(ma) | set(mb):
        x, y = ma.get(n, set()), mb.get(n, set())
        if not x and not y & sa:
            continue
        if x == y:
            res = 'MATCH', 'Classes and their members are matched'
        elif not x:
            res = 'MANUAL CHECK', 'Mismatch class (class does not exist in IDN Table; check for different class names)'
        elif not y and x & sb:
            res = 'MANUAL CHECK', 'Mismatch class (class does not exist in ref. LGR; check for different class names)'
        elif not y:
            res = 'MANUAL CHECK', 'Mismatch class with only additional code points.'
        else:
            text = []
            if (x - y) & sb:
                text.append('Mismatch class members (extra member(s) in IDN Table)')
            if (y - x) & sa:
                text.append('Mismatch class members (missing member(s) in IDN Table)')
            if text:
                res = 'REVIEW', '\n'.join(text)
            elif x - y:
                res = 'MANUAL CHECK', ('Mismatch class members (extra member(s) in IDN Table which are not in Ref. LGR '
                                       'repertoire)')
            else:
                res = 'SUBSET', 'Extra members in Ref. LGR not in IDN Table'
        rows[n] = (sorted(map(chr, x)), sorted(map(chr, y))) + res
    return rows


def contexts(s):
    res = {}
    for cp, c in s.chars.items():
        k = c.when or c.not_when
        if k:
            res.setdefault(k, set()).add(cp)
    return res


def rules(a, b, la, lb):
    ca, cb = contexts(a), contexts(b)
    ra, rb = dict(a.rules), dict(b.rules)
    rows = []
    for n in sorted(set(ra) | set(rb)):
        res = 'MANUAL CHECK', 'Check the content of the rule'
        if n not in ra:
            res = 'MANUAL CHECK', 'Mismatch (WLE rule only exists in Ref. LGR)'
            if n in cb and not cb[n] & set(a.chars):
                res = 'SUBSET', ('Match as a subset (for the rules missing in IDN Table, applicable code points in Ref. LGR '
                                 'are not in IDN Table)')
        elif n not in rb:
            res = 'MANUAL CHECK', 'Mismatch (WLE rule only exists in IDN Table)'
        elif (spec.rule_xml(n, ra[n]) == spec.rule_xml(n, rb[n]) or str(la.rules_lookup[n]) == str(lb.rules_lookup[n])) \
                and ca.get(n, set()) == cb.get(n, set()):
            res = 'MATCH', 'Exact Match (matched names and content)'
        rows.append(dict(name=n, idn_table=n in ra, reference_lgr=n in rb, result=res[0], remark=res[1]))
    return rows


def actions(a, b):
    ka, kb = ([x.full()[:6] for x in s.actions] for s in (a, b))
    both = set(ka) & set(kb)
    rows = []
    label = lambda t, i, x: '%s-%d%s' % (t, i + 1, ' (%s)' % x.comment if x.comment else '')
    for i, x in enumerate(a.actions):
        if ka[i] in both:
            rows.append((label('IDN Table', i, x), True, True, 'MATCH',
                         'Exact Match (action name and content are the same)'))
        else:
            rows.append((label('IDN Table', i, x), True, False, 'MANUAL CHECK', 'Mismatch (additional action)'))
    for i, x in enumerate(b.actions):
        if kb[i] not in both:
            rows.append((label('Ref. LGR', i, x), False, True, 'MANUAL CHECK', 'Mismatch (missing action)'))
    same = [x for x in ka if x in both] == [x for x in kb if x in both]
    return dict(comparison=[dict(name=r[0], idn_table=r[1], reference_lgr=r[2], result=r[3], remark=r[4]) for r in rows],
                sequence='MATCH' if ka and same else 'MANUAL CHECK')


# tag -> (language, script, script of the language)
TAGS = {'fr': ('fr', '', 'Latn'), 'fr-Latn': ('fr', 'Latn', 'Latn'), 'und-Latn': ('', 'Latn', None),
        'el': ('el', '', 'Grek'), 'und-Grek': ('', 'Grek', None), 'ru': ('ru', '', 'Cyrl'), 'ru-Cyrl': ('ru', 'Cyrl', 'Cyrl'),
        'und-Cyrl': ('', 'Cyrl', None), 'ar': ('ar', '', 'Arab'), 'und-Arab': ('', 'Arab', None), 'ja': ('ja', '', 'Jpan'),
        'und-Jpan': ('', 'Jpan', None), 'sr': ('sr', '', None), 'sr-Cyrl': ('sr', 'Cyrl', None),
        'sr-Latn': ('sr', 'Latn', None), 'zh': ('zh', 'Hani', None), 'zh-Hani': ('zh', 'Hani', None),
        'und-Hani': ('', 'Hani', None), 'he': ('he', '', 'Hebr'), 'und-Hebr': ('', 'Hebr', None), 'de': ('de', '', 'Latn')}


def languages(a, b):
    out = []
    for x in sorted(a) or [None]:
        rows = []
        for y in sorted(b):
            if x is None:
                res = 'MANUAL CHECK', 'Language tag may be included in the comment'
            else:
                (lx, sx, default), (ly, sy, _) = TAGS[x], TAGS[y]
                if (lx, sx) == (ly, sy):
                    res = 'MATCH', 'Exact match'
                elif lx and lx == ly:
                    res = 'MATCH', ('Consider minimizing the tag as per the RFC5646 and IANA subtag registry'
                                    if '-' in x and sx == default else 'Language match')
                elif default and default == sy:
                    res = 'MATCH', 'The language tag in IDN Table relevant to the script tag in Reference LGR'
                else:
                    res = 'REVIEW', 'The language tag in IDN Table and Reference LGR are mismatched'
            rows.append(dict(reference_lgr_language_tag=y, result=res[0], remark=res[1]))
        out.append(dict(idn_table_language_tag=x or '-', comparison=rows))
    return out


LEVEL = ['MATCH', 'SUBSET', 'NOTE', 'MANUAL CHECK', 'REVIEW']


def check_summary(ctx, report, d):
    parts = dict(language_tag=[(c['result'], c['remark']) for r in report['language_tags'] for c in r['comparison']],
                 repertoire=[(r['result'], r['remark']) for r in report['repertoire']['reports']],
                 variant_sets=[(c['result_' + k], c['remark_' + k]) for r in report['variant_sets']['reports']
                               for c in r['report'] for k in ('fwd', 'rev')],
                 classes=[(r['result'], r['remark']) for r in report['classes']],
                 wle=[(r['result'], r['remark']) for r in report['wle']['comparison']],
                 actions=[(r['result'], r['remark']) for r in report['actions']['comparison']])
    ctx.eq(set(report['summary']), set(parts), 'summary-parts', d)
    for k, rows in parts.items():
        got = report['summary'][k]
        ctx.eq(got['overall'], max([r for r, _ in rows] or ['MATCH'], key=LEVEL.index), 'summary-overall', d)
        count = {}
        for r in rows:
            count[r] = count.get(r, 0) + 1
        ctx.eq(sorted((x['result'], x['remark'], x['count']) for x in got['results']),
               sorted(k + (n,) for k, n in count.items()), 'summary-counts', d)
    return parts


def load(s, name):
    return spec.load(s, env.unidb(), name=name)


def draw_pair(rng):
    a, b = pairs.pair(rng)
    if rng.random() < 0.15:
        a = b
    if a is not b and rng.random() < 0.2:
        b.rules.append(('only-here', [('behind', [('char', (0x3B1,), None)]), ('anchor',)]))
        for cp in rng.sample([(0x3B2,), (0x3B3,), (0x3B4, 0x3B1)], 2):
            if cp not in b.chars:
                b.add(Ch(cp, when='only-here'))
                if rng.random() < 0.2 and cp not in a.chars:
                    a.add(Ch(cp))
    for s in (a, b):
        s.meta['languages'] = gen.subset(rng, sorted(TAGS), 0, 3)
        if rng.random() < 0.5:
            for c in rng.sample([c for c in s.chars.values() if not c.rng], 1):
                if len(c.cp) == 1:
                    c.tag = c.tag + ['sc:' + rng.choice(['Latn', 'Zyyy'])]
    return a, b


def pair(ctx):
    """Every part but variant sets."""
    from lgr.tools.idn_review.review import review_lgr
    rng = ctx.rng
    a, b = draw_pair(rng)
    la, lb = load(a, 'table'), load(b, 'reference')
    before = spec.snapshot(la), spec.snapshot(lb)
    d = lambda: '\n'.join(spec.to_xml(x).decode() for x in (a, b))
    ctx.show(dict(table=spec.to_xml(a).decode(), reference=spec.to_xml(b).decode()))
    for _ in range(rng.choice([1, 1, 2])):
        r = review_lgr(la, lb)
        ctx.eq(spec.diff_snap(before[0], spec.snapshot(la)), '', 'table-modified', d)
        ctx.eq(spec.diff_snap(before[1], spec.snapshot(lb)), '', 'reference-modified', d)
    ctx.eq(set(r), {'header', 'language_tags', 'repertoire', 'variant_sets', 'classes', 'wle', 'actions', 'summary'},
           'parts', d)
    version = lambda s: s.meta['version'] and s.meta['version'][0]
    ctx.eq(r['header']['idn_table'], dict(filename='table', version=version(a)), 'header', d)
    ctx.eq(r['header']['reference_lgr'], dict(name='reference', version=version(b)), 'header', d)
    ctx.eq(r['language_tags'], languages(a.meta['languages'], b.meta['languages']), 'language-tags', d)
    exp = repertoire(a, b)
    ctx.eq(r['repertoire']['reports'], exp, 'repertoire', d)
    key = lambda x: sorted(map(repr, x))
    ctx.eq(key(r['repertoire']['cp_in_sequences']), key(in_sequences(a, b)), 'in-sequences', d)
    named = {n for s in (a, b) for n, _ in s.classes}
    got = {x['name']: (x['idn_members'], x['ref_members'], x['result'], x['remark']) for x in r['classes']}
    ctx.eq({k: v for k, v in got.items() if k in named}, classes(a, b), 'classes', d)
    wle = rules(a, b, la, lb)
    ctx.eq(r['wle']['comparison'], wle, 'wle', d)
    free = sorted(cp for cp, c in a.chars.items() if not c.when and not c.not_when and cp not in b.chars)
    ctx.eq(r['wle']['additional_cp'], cp_rows(free), 'additional-cp', d)
    ctx.eq(r['actions'], actions(a, b), 'actions', d)
    in_set = {cp for st in r['variant_sets']['reports'] for cp in st['idn_table']}
    parts = check_summary(ctx, r, d)
    for k, rows in parts.items():
        for kind in {x for x, _ in rows}:
            ctx.event('%s-%s' % (k, kind.replace(' ', '-').lower()))
    if len({x for rows in parts.values() for x, _ in rows}) > 2:
        ctx.seen(spec.to_xml(a), spec.to_xml(b))


def itself(ctx):
    """An LGR reviewed against itself, or against an equal one, matches."""
    from lgr.tools.idn_review.review import review_lgr
    rng = ctx.rng
    s = gen.gen_lgr(rng, refs=True, comments=True, meta=True, context=rng.choice([0, 0.4]), tags=0.5, ranges=0.5,
                    variants=rng.choice([0.3, 0.8]))
    s.meta['languages'] = gen.subset(rng, sorted(TAGS), 0, 1)
    one = load(s, 'table')
    two = one if rng.random() < 0.3 else load(s, 'table')
    d = lambda: spec.to_xml(s).decode()
    ctx.show(dict(xml=d()))
    r = review_lgr(one, two)
    parts = check_summary(ctx, r, d)
    for k, rows in parts.items():
        bad = [x for x in rows if x[0] != 'MATCH']
        ctx.eq(bad, [], 'itself-' + k, d)
        if rows:
            ctx.event(k)
    ctx.eq(r['actions']['sequence'], 'MATCH' if s.actions else 'MANUAL CHECK', 'itself-sequence', d)
    ctx.eq(r['wle']['additional_cp'], [], 'itself-additional', d)
    ctx.eq(r['variant_sets']['additional'], [], 'itself-additional', d)
    ctx.eq(r['repertoire']['cp_in_sequences'], [], 'itself-in-sequences', d)
    if parts['variant_sets'] and parts['wle']:
        ctx.seen(d())


# ------------------------------------------------------------------ variant sets

ORDER = ['activated', 'optionally-activated', 'allocatable', 'optionally-allocatable', 'blocked']


def set_rows(a, b, sa, sb):
    """Rows of the report on a set of the table and one of the reference: {(source, dest): row}"""
    rows = {}
    maps = []
    for s in (a, b):
        maps.append({(cp, v.cp): v for cp, c in s.chars.items() for v in c.vars})
    none = not sa
    missing = None
    if none:
        singles = {x for cp in a.chars for x in cp}
        for cp in sb:
            if len(cp) > 1 and set(cp) & singles:
                missing = u(cp)
                break
    inside = set(sa) | set(sb)
    for x in sorted(inside):
        for y in sorted({y for m in maps for p, y in m if p == x}):
            if x > y and y in inside:
                continue
            i, r = maps[0].get((x, y)), maps[1].get((x, y))
            ib, rb = maps[0].get((y, x)), maps[1].get((y, x))
            if i is None and r is None:
                continue
            t = lambda v: (v.type or '') if v else ''
            results = []
            for iv, rv in ((i, r), (ib, rb)):
                if (i and not ib) or (r and not rb):
                    # the result for a variant without reverse is not specified
                    res = None
                elif none:
                    res = 'REVIEW', 'Variant set exists in the reference LGR'
                elif not sb:
                    res = 'MANUAL CHECK', 'Variant set only exists in the IDN Table'
                elif i is None:
                    res = ('REVIEW', 'Variant member exists in the reference LGR') if x in a.chars and y in a.chars else \
                        ('NOTE', 'Not applicable')
                elif r is None:
                    res = 'MANUAL CHECK', 'Variant member exists in IDN Table but not in the reference LGR'
                else:
                    res = compare(iv, rv)
                if missing and res:
                    res = res[0], res[1] + '.\nThe sequence "%s" may be missing.' % missing
                results.append(res)
            sym = all(t(v) == t(w) for v, w in ((i, ib), (r, rb)) if v is not None)
            rows[(x, y)] = dict(source_cp=x, source_glyph=u(x), dest_cp=y, dest_glyph=u(y), fwd_type_idn=t(i),
                                fwd_type_ref=t(r), reverse=bool(ib or rb), rev_type_idn=t(ib), rev_type_ref=t(rb),
                                dest_in_idn=i is not None and y in a.chars, dest_in_ref=r is not None and y in b.chars,
                                symmetric=sym)
            for k, res in zip(('fwd', 'rev'), results):
                if res:
                    rows[(x, y)]['result_' + k], rows[(x, y)]['remark_' + k] = res
    return rows


def compare(i, r):
    """A variant of the table and the one of the reference."""
    ki, kr = rule_key(i), rule_key(r)
    kind = lambda k: k and k[0]
    rule = 'match' if ki == kr else 'less' if ki and not kr else 'missing' if kr and not ki else 'different'
    types = None
    if kind(ki) == kind(kr):
        if i.type == r.type:
            types = 'match'
        elif i.type in ORDER and r.type in ORDER:
            types = 'less' if ORDER.index(i.type) < ORDER.index(r.type) else 'more'
        else:
            types = 'unknown'
    less = 'Variant type in the IDN Table is less conservative compared to the Ref. LGR'
    if rule == 'less':
        return 'REVIEW', 'IDN Table variant generation is less conservative as it only applies with some conditions'
    if types == 'less':
        return 'REVIEW', less
    if types == 'unknown':
        return 'REVIEW', 'Unknown variant type'
    if rule == 'missing':
        return ('MANUAL CHECK', 'Variant condition rules are mismatched. The IDN Table misses the rule. If the rule is not '
                                'needed for the proper variant index calculation, then this is ok')
    if rule == 'different':
        return 'MANUAL CHECK', 'Variant contextual rules are different'
    if types == 'more':
        return 'NOTE', 'Variant types are mismatched. IDN Table is more conservative compared to the Reference LGR'
    return 'MATCH', 'Exact match (including type, conditional variant rule)'


def is_symmetric(s, st):
    rel = {(cp, v.cp) for cp in st for v in s.chars[cp].vars}
    return all((y, x) in rel for x, y in rel)


def is_transitive(s, st):
    rel = {(cp, v.cp) for cp in st for v in s.chars[cp].vars}
    return all((x, z) in rel for x, y in rel for w, z in rel if w == y and x != z)


def variants(ctx):
    from lgr.tools.idn_review.variant_sets import generate_variant_sets_report
    rng = ctx.rng
    pool = [(c,) for c in rng.sample(range(0x61, 0x7B), 12)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        cp = tuple(rng.choice(pool[:12])[0] for _ in range(2))
        if cp not in pool:
            pool.append(cp)
    rng.shuffle(pool)
    todo, groups = list(pool), []
    while todo and len(groups) < 4:
        n = rng.choice([2, 2, 3, 4])
        if len(todo) < n:
            break
        groups.append([todo.pop() for _ in range(n)])
    a, b = spec.Spec(), spec.Spec()
    for s in (a, b):
        s.rules = [(n, [('behind', [('char', (0x61,), None)]), ('anchor',)]) for n in ('ctx-0', 'ctx-1')]
    sets = [[], []]
    types = ORDER + ['other', None]
    same_type = rng.random() < 0.3

    def conn(s, members, asym):
        """maps every member to the others; some mappings may be missing when the set stays connected"""
        rel = {(x, y) for x in members for y in members if x != y}
        if asym and len(members) > 2:
            # drop one direction, or both, of a pair: the others still connect the set
            x, y = rng.sample(sorted(members), 2)
            rel.discard((x, y))
            if rng.random() < 0.5:
                rel.discard((y, x))
        if rng.random() < 0.2:
            x = rng.choice(sorted(members))
            rel.add((x, x))
        return rel

    for g in groups:
        r = rng.random()
        ga = gb = g
        if r < 0.25 and len(g) > 2:
            ga = rng.sample(g, rng.randint(2, len(g)))
        elif r < 0.5 and len(g) > 2:
            gb = rng.sample(g, rng.randint(2, len(g)))
        elif r < 0.6:
            ga = []
        elif r < 0.7:
            gb = []
        elif r < 0.8 and len(g) > 3:
            ga, gb = g[:3], g[1:]      # overlapping only
        base = {}
        for n, (s, m) in enumerate(((a, ga), (b, gb))):
            for cp in m:
                s.add(Ch(cp))
            for x, y in sorted(conn(s, m, rng.random() < 0.15)) if m else []:
                if (x, y) in base and rng.random() < 0.6:
                    t, w = base[x, y]
                else:
                    t = 'blocked' if same_type else rng.choice(types)
                    w = rng.choice([None, None, None, None, ('when', 'ctx-0'), ('when', 'ctx-1'), ('not_when', 'ctx-0')])
                if x == y and t is None:
                    t = 'blocked'
                base.setdefault((x, y), (t, w))
                v = Var(y, t)
                if w:
                    setattr(v, w[0], w[1])
                s.chars[x].vars.append(v)
            if m:
                sets[n].append(tuple(sorted(m)))
    for cp in pool:
        for s in (a, b):
            if cp not in s.chars and rng.random() < 0.5:
                s.add(Ch(cp))
    if rng.random() < 0.3:
        first = rng.choice([0x430, 0x561])
        a.add_range(first, first + 3)
        if rng.random() < 0.3:
            b.add_range(first, first + 3)
    if rng.random() < 0.2:
        # an LGR may have lost members of its variant sets
        s = rng.choice([a, b])
        if sets[0 if s is a else 1]:
            x = rng.choice(rng.choice(sets[0 if s is a else 1]))
            n = len([1 for st in sets[0 if s is a else 1] if x in st and len(st) > 2])
            others = [st for st in sets[0 if s is a else 1] if x in st]
            # the others must stay connected among themselves
            rest = [m for m in others[0] if m != x]
            full = all((p, q) in {(p, v.cp) for v in s.chars[p].vars} for p in rest for q in rest if p != q)
            to = any(v.cp == x for p in rest for v in s.chars[p].vars)
            if n and full and to and not all(v.cp == x for v in s.chars[x].vars):
                reach = {p for p in rest if any(v.cp == x for v in s.chars[p].vars)}
                if reach:
                    del s.chars[x]
                    ctx.event('dangling')
    la, lb = load(a, 'table'), load(b, 'reference')
    d = lambda: '%s\n%s' % (sets, '\n'.join(spec.to_xml(x).decode() for x in (a, b)))
    ctx.show(dict(sets=sets, table=spec.to_xml(a).decode(), reference=spec.to_xml(b).decode()))
    before = spec.snapshot(la), spec.snapshot(lb)
    report = generate_variant_sets_report(la, lb)
    ctx.eq(spec.diff_snap(before[0], spec.snapshot(la)) + spec.diff_snap(before[1], spec.snapshot(lb)), '', 'read-only', d)
    # pair the sets
    left, pairing = list(sets[1]), []
    for x in sets[0]:
        y = [z for z in left if min(z) == min(x) or set(z) <= set(x) or set(x) <= set(z)]
        pairing.append((x, y[0] if y else ()))
        if y:
            left.remove(y[0])
    pairing += [((), y) for y in left]
    exp = {}
    maps = [{(cp, v.cp) for cp, c in s.chars.items() for v in c.vars} for s in (a, b)]
    for x, y in pairing:
        rel = {cp for cp in set(x) | set(y) if cp in a.chars}
        if not x:
            for cp in y:
                hit = set(cp) & {c for m in a.chars for c in m} if len(cp) > 1 else ()
                if hit:
                    rel |= {(c,) for c in hit if (c,) in a.chars}
                    ctx.event('missing-sequence')
                    break
        if not rel:
            ctx.event('out-of-table')
            continue
        whole = bool(x) and all(cp in a.chars for cp in x)
        exp[(x, y)] = (tuple(sorted(rel)), None if not x else whole and is_symmetric(a, x),
                       None if not x else whole and is_transitive(a, x), set_rows(a, b, x, y))
    got = {}
    for r in report['reports']:
        k = (tuple(r['idn_table']), tuple(r['ref_lgr']))
        ctx.check(k not in got, 'set-twice', d)
        got[k] = r
    ctx.eq(sorted(got), sorted(exp), 'sets', d)
    for k in set(got) & set(exp):
        rel, sym, trans, rows = exp[k]
        r = got[k]
        ctx.eq(r['relevant_idn_table_repertoire'], rel, 'relevant', d)
        ctx.eq((r['symmetry_check'], r['transitivity_check']), (sym, trans), 'set-checks', d)
        if sym is not None:
            ctx.event('sym-%s' % sym)
            ctx.event('trans-%s' % trans)
        # a pair that only one way maps: which row shows it is not specified
        one_way = {(y, x) for m in maps for x, y in m if (y, x) not in m}
        one_way = {(x, y) for x, y in one_way if x < y or y not in set(k[0]) | set(k[1])}
        g = {(x['source_cp'], x['dest_cp']): x for x in r['report']}
        ctx.eq(len(g), len(r['report']), 'rows-twice', d)
        for x, y in one_way:
            for p in ((x, y), (y, x)):
                if g.pop(p, None) or rows.pop(p, None):
                    ctx.event('one-way')
                rows.pop(p, None)
        ctx.eq([x['dest_cp'] for x in r['report']], sorted(x['dest_cp'] for x in r['report']), 'rows-order', d)
        ctx.eq(sorted(g), sorted(rows), 'rows', d)
        for p in set(g) & set(rows):
            ctx.eq({f: (g[p][f], rows[p][f]) for f in rows[p] if g[p].get(f) != rows[p][f]}, {}, 'row', lambda: '%s %s' % (p, d()))
            if 'result_fwd' not in rows[p]:
                ctx.event('no-reverse')
                continue
            ctx.event(rows[p]['result_fwd'].replace(' ', '-').lower())
            if 'rules are different' in rows[p]['remark_fwd']:
                ctx.event('different-rules')
            if 'misses' in rows[p]['remark_fwd']:
                ctx.event('misses-rule')
    inside = {cp for x, _ in pairing for cp in x}
    ctx.eq(report['additional'], cp_rows(sorted(cp for cp in a.chars if cp not in inside and cp not in b.chars)),
           'additional', d)
    if len(got) > 1:
        ctx.seen(d())


# ------------------------------------------------------------------ general rules and core requirements

SCRIPTS = {
    # tag: (rtl, language tags of the label tables, letters, marks, digits)
    'und-Arab': (True, ['Arab'], [0x62A, 0x628], [0x64E], [0x660, 0x662, 0x6F5]),
    'ar': (True, ['Arab'], [0x62A, 0x628], [0x64E], [0x660, 0x662, 0x6F5]),
    'und-Hebr': (True, ['Hebr'], [0x5D1, 0x5D0], [0x5B0], []),
    'und-Latn': (False, ['Latn'], [0x6D, 0x61, 0x62], [0x301], []),
    'und-Beng': (False, ['Beng'], [0x9AE, 0x995], [0x9C1], [0x9E9, 0x9E6]),
    'und-Deva': (False, ['Deva'], [0x92C, 0x92D], [0x948], [0x966, 0x967]),
    'und-Thai': (False, ['Thai'], [0xE01, 0xE02], [0xE37], [0xE53]),
    'und-Thaa': (True, ['Thaa'], [0x786, 0x787], [0x7A6], []),
    'und-Jpan': (False, ['ja'], [0x3064, 0x61, 0x62], [0x3099], []),
    'und-Cyrl': (False, ['Cyrl'], [0x434, 0x430], [0x301], []),
}
TABLES = dict(
    combining_mark={'Beng': [[0x9C1, 0x9AE, 0x9AE]], 'Deva': [[0x948, 0x92C, 0x92C]], 'Thai': [[0xE37, 0xE01]],
                    'Thaa': [[0x7A6, 0x786]]},
    consecutive_hyphens={k: [[0x2D, c, c], [c, c, 0x2D], [c, c, 0x2D, 0x2D, c, c]] for k, c in
                         dict(Arab=0x62A, Hebr=0x5D1, Latn=0x6D, Beng=0x9AE, Deva=0x92C, Thai=0xE01, Thaa=0x786, ja=0x3064,
                              Cyrl=0x434).items()},
    rtl={'Arab': [[0x32, 0x62A, 0x62A], [0x660, 0x62A, 0x62A], [0x6F5, 0x62A, 0x62A]], 'Hebr': [[0x33, 0x5D1, 0x5D1]],
         'Thaa': [[0x34, 0x786]]},
    digits_set={'Arab': [[0x62A, 0x62A, 0x32, 0x662], [0x62A, 0x62A, 0x32, 0x6F5], [0x62A, 0x62A, 0x662, 0x6F5]],
                'Beng': [[0x9AE, 0x9AE, 0x32, 0x9E9]], 'Deva': [[0x92D, 0x32, 0x966]], 'Thai': [[0xE01, 0xE53, 0x33]]},
    japanese_contextj={'ja': [[0x62, 0x30FB, 0x61]]})


def covered(s, label):
    """The label can be cut in elements of the repertoire."""
    ends = {0}
    for i in range(len(label)):
        if i in ends:
            ends |= {i + len(cp) for cp in s.chars if tuple(label[i:i + len(cp)]) == cp}
    return len(label) in ends


def general(ctx):
    from lgr.tools.idn_review.review import review_lgr, review_with_core_requirements
    rng = ctx.rng
    tag = rng.choice(sorted(SCRIPTS))
    rtl, keys, letters, marks, digits = SCRIPTS[tag]
    s = spec.Spec()
    for c in letters:
        if rng.random() < 0.9:
            s.add(Ch((c,)))
    few = rng.random() < 0.4
    want = {'m': marks, 'd': digits, 'a': list(range(0x30, 0x3A)) if not few else [0x32, 0x33, 0x34], 'h': [0x2D],
            'k': [0x30FB]}
    for k, l in want.items():
        if rng.random() < (0.6 if k != 'k' else 0.3):
            for c in l:
                if rng.random() < 0.95:
                    s.add(Ch((c,)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        cp = tuple(rng.choice(letters[:1] + letters + [0x2D]) for _ in range(2))
        if cp not in s.chars:
            s.add(Ch(cp))
            ctx.event('sequence')
    if not s.chars:
        raise Skip()
    if few and len(s.chars) > 2 and rng.random() < 0.3:
        s.add_range(0x664, 0x667)
    L = ('class', ('cps', sorted({c for cp in s.chars for c in cp})[:1] + [0x10FFFD]), None)
    known = [('hyphen-start', [('start',), ('char', (0x2D,), None)], 1), ('hyphen-end', [('char', (0x2D,), None), ('end',)], 1),
             ('hyphens', [('char', (0x2D,), '2+')], 1),
             ('leading-mark', [('start',), ('class', ('prop', 'gc:Mn'), None)], 1),
             ('leading-digit', [('start',), ('class', ('prop', 'gc:Nd'), None)], 1),
             ('mixed-digits', [('class', ('cps', list(range(0x30, 0x3A))), None),
                               ('class', ('diff', ('prop', 'gc:Nd'), ('cps', list(range(0x30, 0x3A)))), None)], 1)]
    for n, body, _ in known:
        if rng.random() < 0.5:
            s.rules.append((n, body))
            s.actions.append(spec.Act(rng.choice(['invalid', 'invalid', 'invalid', 'blocked']), match=n))
    languages = [tag] if rng.random() < 0.8 else []
    s.meta['languages'] = languages
    core = rng.random() < 0.4
    lgr = load(s, 'table')
    if core:
        r = review_with_core_requirements(lgr)
        ref_tags = []
        wle = r['wle']
    else:
        b = spec.Spec()
        b.add(Ch((0x61,)))
        ref_tags = [rng.choice(sorted(SCRIPTS))] if rng.random() < 0.5 else []
        b.meta['languages'] = ref_tags
        wle = review_lgr(lgr, load(b, 'reference'))['wle']
    d = lambda: '%s %s %s\n%s' % (core, languages, ref_tags, spec.to_xml(s).decode())
    ctx.show(dict(xml=spec.to_xml(s).decode(), core=core, reference=ref_tags))
    singles = [cp[0] for cp in s.chars if len(cp) == 1]
    ndigits = sum(unicodedata.category(chr(c)) == 'Nd' for c in singles)
    mark = any(unicodedata.category(chr(c))[0] == 'M' for c in singles)
    if languages:
        tables, is_rtl = keys, rtl
    elif ref_tags:
        tables, is_rtl = SCRIPTS[ref_tags[0]][1], None
    else:
        tables, is_rtl = [], any(env.unidb().is_rtl(c) for c in singles)
    model = Model(s)
    rejected = lambda l: not model.eligible(tuple(l))[0]
    for k, table in TABLES.items():
        got = wle['additional_general_rules'][k]
        applicable = {'combining_mark': mark, 'consecutive_hyphens': (0x2D,) in s.chars,
                      'rtl': None if is_rtl is None else is_rtl and ndigits > 0, 'digits_set': ndigits > 10,
                      'japanese_contextj': (0x30FB,) in s.chars}[k]
        if applicable is None:
            applicable = got['applicable']
        ctx.eq(bool(got['applicable']), applicable, 'applicable-' + k, d)
        exists = None
        if applicable:
            for t in tables:
                for l in table.get(t, []):
                    if not covered(s, l):
                        exists = None
                        break
                    exists = rejected(l)
                    if not exists:
                        break
        ctx.eq(got['exists'], exists, 'exists-' + k, d)
        if applicable:
            ctx.event('%s-%s' % (k, exists))
    if core:
        ctx.event('core')
        rows = cp_rows(sorted(s.chars))
        ctx.eq(order(r['repertoire']['report']), rows, 'core-repertoire', d)
        bad = sum(set(x['idna_property'].split()) != {'PVALID'} for x in rows)
        ctx.eq((r['repertoire']['pvalid_cp_nbr'], r['repertoire']['invalid_cp_nbr']), (len(rows) - bad, bad), 'core-count', d)
        ctx.eq(r['variant_sets'], {'report': {'multiple_digit_sets': ndigits > 10}}, 'core-digits', d)
        ctx.eq('reference_lgr' in r['header'], False, 'core-header', d)
    ctx.seen(d())


PAIR = ('repertoire-match', 'repertoire-subset', 'repertoire-note', 'repertoire-manual-check', 'repertoire-review',
        'classes-match', 'classes-subset', 'classes-review', 'classes-manual-check', 'wle-match', 'wle-subset',
        'wle-manual-check', 'actions-match', 'actions-manual-check', 'language_tag-match', 'language_tag-review',
        'language_tag-manual-check')
SCENARIOS = [Scenario('pair', pair, 500, 6000, need=PAIR),
             Scenario('itself', itself, 300, 4000, need=('variant_sets', 'wle', 'classes', 'actions', 'repertoire')),
             Scenario('variants', variants, 700, 10000,
                      need=('match', 'review', 'manual-check', 'note', 'sym-True', 'sym-False', 'trans-False',
                            'out-of-table', 'missing-sequence', 'different-rules', 'misses-rule')),
             Scenario('general', general, 600, 8000,
                      need=('combining_mark-True', 'combining_mark-False', 'consecutive_hyphens-True',
                            'consecutive_hyphens-False', 'rtl-True', 'rtl-False', 'digits_set-True', 'digits_set-False',
                            'japanese_contextj-False', 'sequence', 'core'))]
