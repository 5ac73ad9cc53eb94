"""C32: the command line tools answer what the library and the model answer."""
import contextlib
import io
import json
import os
import re
import sys
import tempfile

from ..core import Scenario, Skip
from .. import env, gen, pairs, spec
from ..model import Model, TooMany, derivations
from . import c06, c20, c25

RULE = ('random LGR documents in files, given with labels to each command line tool run in the process; labels and '
        'collisions against the models, documents re-parsed and compared with what the library computes from the same '
        'inputs; non-trivial: a label rejected or colliding, a document that differs from the input')
ASSUMPTIONS = ['labels are in the BMP', 'symmetric and transitive variants for collisions']
prepare = c20.prepare
u, fmt = c20.u, c20.fmt


def hexs(cp):
    return ' '.join('%04X' % c for c in cp)


def run(name, argv, stdin='', patch=None):
    import importlib.machinery
    import importlib.util
    path = os.path.join(env.REPO, 'tools', name if name == 'lgr_harmonize' else name + '.py')
    loader = importlib.machinery.SourceFileLoader('tool_' + name, path)
    mod = importlib.util.module_from_spec(importlib.util.spec_from_loader('tool_' + name, loader))
    loader.exec_module(mod)
    if patch:
        patch(mod)
    out, err, old, old_in = io.StringIO(), io.StringIO(), sys.argv, sys.stdin
    sys.argv, sys.stdin = [path] + argv, io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                mod.main()
            except SystemExit as e:
                raise RuntimeError('exit %s: %s' % (e.code, err.getvalue()))
    finally:
        sys.argv, sys.stdin = old, old_in
    return out.getvalue()


def put(tmp, name, xml):
    path = os.path.join(tmp, name)
    with open(path, 'wb') as f:
        f.write(xml if isinstance(xml, bytes) else xml.encode('utf-8'))
    return path


LIBS = lambda rng: [rng.choice(['-l', '--libs']), c25.libs()] + (['-q'] if rng.random() < 0.3 else [])


def draw(rng):
    s = gen.gen_lgr(rng, rules=(0, 2), actions=(0, 3), seqs=(0, 2), context=rng.choice([0, 0.3, 0.6]), reflexive=0.4)
    for a in s.actions:
        if rng.random() < 0.3:
            a.disp = 'invalid'
    for c in s.chars.values():
        for v in c.vars:
            if rng.random() < 0.1:
                v.type = 'invalid'
    return s


def labels(ctx):
    """lgr_cli, lgr_validate and lgr_annotate on one LGR."""
    rng = ctx.rng
    s = draw(rng)
    lgr = spec.load(s, env.unidb())
    model = Model(s)
    todo = [gen.gen_label(rng, s, 4) for _ in range(5)]
    for l in todo:
        try:
            derivations(model, l, limit=60)
        except TooMany:
            raise Skip()
    d = lambda: 'labels %s\n%s' % (todo, spec.to_xml(s).decode())
    ctx.show(dict(labels=todo, xml=spec.to_xml(s).decode()))
    invalid = rng.random() < 0.5
    variants = rng.random() < 0.6
    cli, val, ann = [], [], []
    n = len(s.actions)
    act = lambda i: '%s[%d]' % (('Action', i) if i < n else ('DefaultAction', i - n))
    for l in todo:
        ok, bad, disp, idx = model.eligible(l)
        parts = model.preliminary(l)[1]
        cli.append('Validation: %s (%s): Result: %s' % (u(l), hexs(l), 'valid' if ok else 'INVALID'))
        val += ['', 'Label: %s [%s]' % (u(l), fmt(l)), '\tEligible: %s' % ok, '\tDisposition: %s' % disp]
        ann.append('%s: %s' % (u(l), disp))
        if ok:
            cli.append('Disposition: %s (%s): Result: %s due to %s' % (u(l), hexs(l), disp, act(idx)))
            _, vs = lgr.compute_label_disposition_summary(l, include_invalid=invalid)
            for cp, vd, _, i, types, _ in vs:
                cli.append('Variant: (%s): [{%s}] ==> %s due to %s' % (hexs(cp), ','.join(sorted(types)), vd,
                                                                       act(i) if i >= 0 else '*'))
                ctx.event('first-default' if i == n else 'variant')
            if variants:
                val.append('Variants:')
                for cp, vd, _, _, _, _ in lgr.compute_label_disposition_summary(l)[1]:
                    val += ['\tVariant %s [%s]' % (u(cp), fmt(cp)), "\t- Disposition: '%s'" % vd]
            ctx.event('custom-action' if idx < n else 'default')
        else:
            val.append('- Valid code points from label: ' + (hexs(parts) if bad else ''))
            if bad:
                val.append('- Invalid code points from label: ' + ' '.join(
                    '%04X (%s)' % (c, 'not in repertoire' if r is None else ','.join(r)) for c, r in bad))
            if idx >= 0:
                ann.append(' Rule %d: %s' % (idx, lgr.effective_actions[idx]))
            for c, r in bad:
                ann.append(' Code point U+%04X %s' % (c, 'not in repertoire' if r is None else
                                                      "does not comply with rules '%s'" % ','.join(r)))
            ctx.event('rejected')
            ctx.seen(l, spec.to_xml(s))
    text = ''.join(u(l) + '\n' for l in todo)
    with tempfile.TemporaryDirectory() as tmp:
        doc = put(tmp, 'doc.xml', spec.to_xml(s))
        alone = rng.random() < 0.2
        argv = LIBS(rng) + ['-c', '-t'] + (['-i'] if invalid else []) + [doc]
        if alone:
            out = ''.join(run('lgr_cli', argv + [hexs(l)]) for l in todo)
        else:
            out = run('lgr_cli', argv, text)
        got = []
        for x in out.split('\n')[:-1]:
            m = re.match(r'(Variant: \(.*?\): \[\{)(.*?)(\}\] ==> .*)', x)
            if m:
                x = m.group(1) + ','.join(sorted(m.group(2).split(','))) + m.group(3)
                x = re.sub(r'(due to )\w+\[-\d+\]$', r'\1*', x)
            got.append(x)
        ctx.eq(got, cli, 'lgr_cli', d)
        out = run('lgr_validate', LIBS(rng) + (['-g'] if variants else []) + ['-x', doc], text)
        ctx.eq(out.split('\n')[:-1], val, 'lgr_validate', d)
        listed, to = put(tmp, 'labels.txt', text), os.path.join(tmp, 'out.txt')
        ctx.eq(run('lgr_annotate', LIBS(rng) + ['-x', doc, '-o', to, listed]), '', 'lgr_annotate', d)
        with open(to, encoding='utf-8') as f:
            ctx.eq(f.read().split('\n')[:-1], ann, 'lgr_annotate', d)


def of_set(ctx):
    """lgr_validate with a set of LGRs."""
    from lgr.tools.merge_set import merge_lgr_set
    rng = ctx.rng
    specs, rel, langs = [], {}, rng.sample(['und-Latn', 'und-Grek', 'und-Cyrl', 'fr'], rng.choice([2, 2, 3]))
    for lang in langs:
        s, sets = c20.draw(rng, actions=True)
        for a in s.actions:
            if rng.random() < 0.3:
                a.disp = 'invalid'
        s.meta['languages'] = [lang]
        specs.append(s)
        for st in sets:
            for e in st:
                rel.setdefault(e, set()).update(st)
    comp = {}
    for e in rel:
        if e not in comp:
            todo, seen = [e], {e}
            while todo:
                for x in rel[todo.pop()]:
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
            for x in seen:
                comp[x] = frozenset(seen)
    key = lambda l: tuple(comp[(c,)] for c in l)
    i = rng.randrange(len(specs))
    s, model, lgr = specs[i], Model(specs[i]), spec.load(specs[i], env.unidb())
    mine = [gen.gen_label(rng, s, 4, noise=0.02) for _ in range(5)]
    existing = [gen.gen_label(rng, rng.choice(specs), 4, noise=0.02) for _ in range(rng.randint(0, 4))]
    existing += rng.sample(mine, rng.choice([0, 0, 1]))
    existing += [tuple(rng.choice(sorted(comp.get((c,), [(c,)])))[0] for c in l)
                 for l in rng.sample(mine + existing, rng.choice([0, 1, 2]))]
    rng.shuffle(existing)
    keep = [l for l in existing if all((c,) in comp for c in l)]
    variants = rng.random() < 0.4
    d = lambda: 'labels %s existing %s\n%s\n%s' % (mine, existing, i, '\n'.join(spec.to_xml(x).decode() for x in specs))
    ctx.show(dict(labels=mine, existing=existing))
    exp = []
    for l in mine:
        ok, bad, disp, idx = model.eligible(l)
        exp += ['', 'Label: %s [%s]' % (u(l), fmt(l)), '\tEligible: %s' % ok, '\tDisposition: %s' % disp]
        if not ok:
            exp.append('- Valid code points from label: ' + (hexs(model.preliminary(l)[1]) if bad else ''))
            if bad:
                exp.append('- Invalid code points from label: ' + ' '.join(
                    '%04X (%s)' % (c, 'not in repertoire' if r is None else ','.join(r)) for c, r in bad))
            continue
        exp.append('Collisions:')
        others = {x for x in keep if x != l and key(x) == key(l)}
        if l in keep:
            exp.append('Labels is in the LGR set labels')
            ctx.event('in-set')
        elif others:
            exp += sorted("Label collides with LGR set label '%s'" % u(x) for x in others)
            ctx.event('collides')
            ctx.seen(l, others, spec.to_xml(s))
        else:
            exp.append('\tNone')
            ctx.event('free')
            if len({key(x) for x in keep}) < len(set(keep)):
                ctx.event('free-among-colliding')
        if variants:
            exp.append('Variants:')
            for cp, vd, _, _, _, _ in lgr.compute_label_disposition_summary(l)[1]:
                exp += ['\tVariant %s [%s]' % (u(cp), fmt(cp)), "\t- Disposition: '%s'" % vd]
    with tempfile.TemporaryDirectory() as tmp:
        docs = [put(tmp, 'lgr-%d.xml' % n, spec.to_xml(x)) for n, x in enumerate(specs)]
        argv = LIBS(rng) + (['-g'] if variants else []) + [a for x in docs for a in ('-x', x)] + ['-s', langs[i]]
        if existing or rng.random() < 0.5:
            argv += ['-f', put(tmp, 'set.txt', ''.join(u(l) + '\n' for l in existing))]
        got = run('lgr_validate', argv, ''.join(u(l) + '\n' for l in mine)).split('\n')[:-1]
        end = got.index('# End of filtered set labels')
        ctx.eq(got[0], '# The following labels from the set labels are invalid', 'header', d)
        ctx.eq([x.split(': ')[0] for x in got[1:end] if x], [u(l) for l in existing if l not in keep],
               'invalid-set-labels', d)
        got = got[end + 1:]
        while exp[:1] == [''] and got[:2] == ['', '']:
            got = got[1:]
        if not keep:
            got, exp = ([x for x in l if x not in ('Collisions:', '\tNone')] for l in (got, exp))
        j = [x for x in got if x.startswith('Label collides')]
        ctx.eq(j, [x for x in exp if x.startswith('Label collides')], 'set-collisions', d)
        ctx.eq(got, exp, 'lgr_validate-set', d)


def collisions(ctx):
    """lgr_collision and lgr_diff_collisions"""
    from lgr.tools.diff_collisions import collision, diff
    rng = ctx.rng
    s, sets = c20.draw(rng)
    model = Model(s)
    todo = c20.draw_labels(rng, s, sets, (1, 5))
    ref = rng.sample(todo, rng.randint(0, len(todo)))
    by = {}
    for l in ref:
        if model.preliminary(l)[0]:
            by.setdefault(c06.index_of(model, l), []).append(l)
    d = lambda: 'labels %s reference %s\n%s' % (todo, ref, spec.to_xml(s).decode())
    ctx.show(dict(labels=todo, reference=ref, xml=spec.to_xml(s).decode()))
    with tempfile.TemporaryDirectory() as tmp:
        doc = put(tmp, 'doc.xml', spec.to_xml(s))
        listed = put(tmp, 'ref.txt', ''.join(u(l) + '\n' for l in ref))
        out = run('lgr_collision', LIBS(rng) + (['-g'] if rng.random() < 0.3 else []) + ['-s', listed, doc],
                  ''.join(u(l) + '\n' for l in todo))
        got = [x for x in out.split('\n')[:-1] if not x.startswith('Variant ')]
        ctx.eq(len(got), 2 * len(todo), 'lgr_collision-lines', d)
        for l, a, b in zip(todo, got[::2], got[1::2]):
            ctx.eq(a, "Check label '%s'" % u(l), 'lgr_collision', d)
            if not model.preliminary(l)[0]:
                ctx.check('ollision' not in b and u(l) in b and 'not in' in b, 'lgr_collision', lambda: b + d())
                ctx.event('not-in-lgr')
                continue
            hit = by.get(c06.index_of(model, l), [])
            if hit:
                ctx.check(b in ["Collision for label '%s' [%s] with '%s' [%s]" % (u(l), fmt(l), u(x), fmt(x))
                                for x in hit], 'lgr_collision', lambda: b + d())
                ctx.event('collision')
                ctx.seen(l, hit, spec.to_xml(s))
            else:
                ctx.eq(b, 'No collision for label %s [%s]' % (u(l), fmt(l)), 'lgr_collision', d)
                ctx.event('no-collision')
        two = rng.random() < 0.5
        other, _ = c20.draw(rng)
        other = s if rng.random() < 0.3 else other
        full, no_rules = rng.random() < 0.4, rng.random() < 0.4
        doc2 = put(tmp, 'doc2.xml', spec.to_xml(other))
        lines, _, _ = c20.write(rng, todo)
        listed = put(tmp, 'labels.txt', ''.join(lines))
        argv = LIBS(rng) + ['-1', doc, '-s', listed] + (['-2', doc2] if two else [])
        argv += (['-g'] if full else []) + (['-n'] if no_rules else [])
        out = run('lgr_diff_collisions', argv)
        a = spec.load(s, env.unidb(), name=doc)
        b = spec.load(other, env.unidb(), name=doc2)
        if two:
            exp = list(diff(a, b, list(lines), True, full, no_rules))
            ctx.event('diff')
        else:
            exp = ['No second LGR, will only output collisions'] + list(collision(a, list(lines), None, full, no_rules))
        # the reports of groups may come in any order
        norm = lambda t: sorted(x for x in re.sub(r'doc2?\.xml', 'doc', t.replace(tmp + os.sep, '')).split('\n') if x)
        ctx.eq(norm(out), norm('\n'.join(exp)), 'lgr_diff_collisions', d)


def parse(text):
    from lgr.parser.xml_parser import XMLParser
    data = text if isinstance(text, bytes) else text.encode('utf-8')
    p = XMLParser(io.BytesIO(data), 'doc')
    return p.parse_document()


def again(lgr, pretty=True):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    return spec.snapshot(parse(serialize_lgr_xml(lgr, pretty_print=pretty)))


def documents(ctx):
    """xml_dump, lgr_populate_variants, lgr_compare, lgr_merge_set, lgr_harmonize"""
    from lgr.tools.compare import diff_lgr_sets, diff_lgrs, intersect_lgrs, union_lgrs
    from lgr.tools.harmonize import harmonize
    from lgr.tools.merge_set import merge_lgr_set
    rng = ctx.rng
    a, b = pairs.pair(rng)
    tool = rng.choice(['dump', 'populate', 'compare', 'compare', 'merge', 'harmonize', 'diff-sets'])
    xml = [spec.to_xml(x) for x in (a, b)]
    d = lambda: '%s\n%s' % (tool, '\n'.join(x.decode() for x in xml))
    ctx.show(dict(tool=tool, xml=[x.decode() for x in xml]))
    with tempfile.TemporaryDirectory() as tmp:
        first, second = put(tmp, 'first.xml', xml[0]), put(tmp, 'second.xml', xml[1])
        db = env.unidb() if tool in ('populate', 'harmonize') else None
        one, two = (spec.load(x, db, name='%s.xml' % n) for x, n in ((a, 'first'), (b, 'second')))
        opts = LIBS(rng) if db else (['-q'] if rng.random() < 0.3 else [])
        before = (again(one), again(two))

        def same(text, lgr, what):
            exp = again(lgr, tool != 'harmonize')
            ctx.eq(spec.diff_snap(spec.snapshot(parse(text)), exp), '', what, d)
            if exp not in before:
                ctx.seen(tool, *xml)
            ctx.event(tool)

        if tool == 'dump':
            to = os.path.join(tmp, 'out.xml')
            if rng.random() < 0.4:
                ctx.eq(run('xml_dump', opts + ['-o', to, first]), '', 'dump-output', d)
                with open(to, 'rb') as f:
                    same(f.read(), one, 'dump-file')
            else:
                same(run('xml_dump', opts + [first]), one, 'dump')
        elif tool == 'populate':
            text = run('lgr_populate_variants', opts + ['-x', first])
            one.populate_variants()
            same(text, one, 'populate')
        elif tool == 'compare':
            act = rng.choice(['INTERSECT', 'UNION', 'DIFF'])
            full = rng.random() < 0.5
            argv = opts + ['-1', first, '-2', second, act] + (['-g'] if full else [])
            try:
                exp = (intersect_lgrs(one, two) if act == 'INTERSECT' else union_lgrs(one, two) if act == 'UNION' else
                       diff_lgrs(one, two, show_same=full))
            except Exception as e:
                ctx.raises(type(e), 'compare-error', lambda: run('lgr_compare', argv))
                ctx.event('compare-error')
                return
            text = run('lgr_compare', argv)
            if act == 'DIFF':
                norm = lambda t: sorted(t.replace(tmp + os.sep, '').split('\n'))
                ctx.eq(norm(text), norm(exp + '\n'), 'compare-diff', d)
                ctx.event('diff')
            else:
                same(text, exp, 'compare')
        elif tool == 'diff-sets':
            x, y = [first, second], [second, first] if rng.random() < 0.5 else [first, first]
            argv = opts + ['-1', x[0], '-1', x[1], '-2', y[0], '-2', y[1], '-n1', 'n1', '-n2', 'n2', 'DIFF']
            try:
                sets = [[spec.load(a if p == first else b, name=os.path.basename(p)) for p in l] for l in (x, y)]
                merged = [merge_lgr_set(list(l), n) for l, n in zip(sets, ('n1', 'n2'))]
                exp = diff_lgr_sets(merged[0], merged[1], sets[0], sets[1])
            except Exception as e:
                ctx.raises(type(e), 'sets-error', lambda: run('lgr_compare', argv))
                return
            text = run('lgr_compare', argv)
            norm = lambda t: sorted(t.replace(tmp + os.sep, '').split('\n'))
            ctx.eq(norm(text), norm(exp + '\n'), 'diff-sets', d)
            ctx.event(tool)
        elif tool == 'merge':
            try:
                exp = merge_lgr_set([one, two], 'a name')
            except Exception as e:
                ctx.raises(type(e), 'merge-error', lambda: run('lgr_merge_set', opts + ['-s', first, '-s', second]))
                return
            text = run('lgr_merge_set', opts + ['-n', 'a name', '-s', first, '-s', second])
            same(text, exp, 'merge')
        else:
            out = os.path.join(tmp, 'out')
            os.mkdir(out)
            try:
                h1, h2, (l1, l2) = harmonize(one, two, None)
            except Exception as e:
                ctx.raises(type(e), 'harmonize-error', lambda: run('lgr_harmonize', opts + ['-1', first, '-2', second, out]))
                ctx.event('harmonize-error')
                return
            text = run('lgr_harmonize', opts + ['-1', first, '-2', second, out])
            ctx.eq(len(os.listdir(out)), 2, 'harmonize-files', d)
            for h in (h1, h2):
                n = [x for x in os.listdir(out) if x.startswith(os.path.basename(h.name)[:5])]
                with open(os.path.join(out, n[0]), 'rb') as f:
                    same(f.read(), h, 'harmonize')
            i = text.split('\n').index('Manual review needed for code points from second LGR:')
            lines = text.split('\n')[:-1]
            for got, l in ((lines[1:i], l1), (lines[i + 1:], l2)):
                ctx.eq(sorted(got), sorted('- %s (%s)' % (fmt(cp), u(cp)) for cp in l), 'harmonize-log', d)


def tables(ctx):
    """The dump tools of the text formats, and make_idna_repertoire."""
    import importlib
    from . import c11
    rng = ctx.rng
    kind = rng.choice(['rfc4290', 'rfc3743', 'line', 'idna'])
    with tempfile.TemporaryDirectory() as tmp:
        if kind == 'idna':
            idna(ctx, rng, tmp)
            return
        t = {'rfc4290': c11.Rfc4290, 'rfc3743': c11.Rfc3743, 'line': c11.Line}[kind](rng)
        path = put(tmp, 'table.txt', '\n'.join(t.lines) + '\n')
        d = lambda: '%s\n%s' % (kind, '\n'.join(t.lines))
        ctx.show(dict(kind=kind, lines=t.lines))
        tool = {'line': 'one_per_line_dump'}.get(kind, kind + '_dump')
        to = os.path.join(tmp, 'out.xml') if rng.random() < 0.4 else None
        argv = (['-q'] if rng.random() < 0.3 else []) + (['-o', to] if to else []) + [path]
        try:
            exp = getattr(importlib.import_module('lgr.parser.%s_parser' % kind), t.name)(path).parse_document()
        except Exception as e:
            ctx.raises(type(e), 'table-error', lambda: run(tool, argv))
            ctx.event('error')
            return
        text = run(tool, argv)
        if to:
            ctx.eq(text, '', 'table-output', d)
            with open(to, 'rb') as f:
                text = f.read()
        ctx.eq(spec.diff_snap(spec.snapshot(parse(text)), again(exp)), '', 'table', d)
        ctx.event(kind)
        ctx.seen(d())


def idna(ctx, rng, tmp):
    from lxml import etree
    version = rng.choice(['5.2.0', '6.0.0', '6.3.0', '10.0.0', '12.0.0', '11.0.0'])
    major = [int(x) for x in version.split('.')]
    cp, recs, exp = rng.randrange(0x100), [], set()
    for _ in range(rng.randint(1, 12)):
        cp += rng.randint(1, 0x400)
        last = cp + rng.choice([0, 0, 1, 5, 40])
        prop = rng.choice(['PVALID', 'PVALID', 'CONTEXTO', 'CONTEXTJ', 'DISALLOWED', 'UNASSIGNED'])
        recs.append(('%04X' % cp if cp == last else '%04X-%04X' % (cp, last), prop))
        if prop not in ('DISALLOWED', 'UNASSIGNED'):
            exp |= set(range(cp, last + 1))
        cp = last
    rec = ''.join('<record><codepoint>%s</codepoint><property>%s</property><description>x</description></record>' % r
                  for r in recs)
    ident = 'idna-tables-%s-properties' % version if major <= [6, 0, 0] else 'idna-tables-properties'
    xml = ('<registry xmlns="http://www.iana.org/assignments" id="idna-tables-%s"><title>t</title>'
           '<registry id="x"><record><codepoint>0000</codepoint><property>PVALID</property></record></registry>'
           '<registry id="%s">%s</registry></registry>' % (version, ident, rec))
    path = put(tmp, 'registry.xml', xml)
    asked = []

    def stand_in(mod):
        class Etree(object):
            @staticmethod
            def parse(url):
                asked.append(url)
                return etree.parse(path)
        mod.etree = Etree
    text = run('make_idna_repertoire', [version], patch=stand_in)
    d = lambda: xml
    ctx.show(dict(xml=xml))
    ctx.eq(asked, ['http://www.iana.org/assignments/idna-tables-%s/idna-tables-%s.xml' % (version, version)], 'idna-url', d)
    got = parse(text)
    ctx.eq({c.cp for c in got.repertoire.all_repertoire()}, {(c,) for c in exp}, 'idna', d)
    ctx.event('idna')
    ctx.seen(xml)


def reviews(ctx):
    """lgr_idn_table_review"""
    from lgr.tools.idn_review.review import review_lgr
    rng = ctx.rng
    tabs, refs = [], []
    for _ in range(rng.randint(1, 2)):
        a, b = pairs.pair(rng)
        tabs.append(a)
        refs.append(b)
    bad = rng.choice([None, None, tabs, refs])
    schema = os.path.join(env.REPO, 'resources', 'lgr.rng')
    strict = bad is not None
    d = lambda: '\n'.join(spec.to_xml(s).decode() for s in tabs + refs)
    ctx.show(dict(tables=[spec.to_xml(s).decode() for s in tabs], references=[spec.to_xml(s).decode() for s in refs]))
    with tempfile.TemporaryDirectory() as tmp:
        names = [], []
        for to, ss, k in ((names[0], tabs, 'table'), (names[1], refs, 'reference')):
            for i, s in enumerate(ss):
                to.append(put(tmp, '%s-%d.xml' % (k, i), spec.to_xml(s)))
        paths = [list(x) for x in names]
        if strict:
            extra = put(tmp, 'bad.xml', b'<lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><data><chr cp="0061"/></data></lgr>')
            paths[bad is refs].append(extra)
        for x in paths:
            rng.shuffle(x)
            if rng.random() < 0.2:
                x.append(x[0])
        to = os.path.join(tmp, 'out', 'deep')
        old, tempfile.tempdir = tempfile.tempdir, tmp
        try:
            run('lgr_idn_table_review', ['-l', c25.libs(), '-o', to] + (['-r', schema] if strict else []) +
                ['-t'] + paths[0] + ['-x'] + paths[1])
        finally:
            tempfile.tempdir = old
        if strict:
            from lxml import etree
            relax = etree.RelaxNG(etree.parse(schema))
            ctx.check(not relax.validate(etree.parse(extra)), 'schema', d)
            keep = lambda path: relax.validate(etree.parse(path))
        else:
            keep = lambda path: True
        exp = {}
        for p, s in zip(names[0], tabs):
            for q, z in zip(names[1], refs):
                if not keep(p) or not keep(q):
                    ctx.event('off-schema')
                    continue
                x, y = os.path.basename(p), os.path.basename(q)
                r = review_lgr(spec.load(s, env.unidb(), name=x), spec.load(z, env.unidb(), name=y))
                exp['%s_%s.json' % (x, y)] = json.loads(json.dumps(r, default=str))
        ctx.eq(sorted(os.listdir(to)), sorted(exp), 'review-files', d)
        for n, r in exp.items():
            with open(os.path.join(to, n)) as f:
                got = json.load(f)
            for x in (got, r):
                for st in x['variant_sets']['reports']:
                    st['report'].sort(key=lambda w: (w['dest_cp'], w['source_cp']))
                for k in ('classes',):
                    x[k].sort(key=lambda w: w['name'])
            ctx.eq({k for k in set(got) | set(r) if got.get(k) != r.get(k)}, set(), 'review', d)
    ctx.event('skipped' if strict else 'reviewed')
    ctx.seen(d())


SCENARIOS = [Scenario('labels', labels, 220, 2500, need=('rejected', 'custom-action', 'first-default', 'default', 'variant')),
             Scenario('set', of_set, 120, 1500, need=('in-set', 'collides', 'free', 'free-among-colliding')),
             Scenario('collisions', collisions, 200, 2500, need=('collision', 'no-collision', 'not-in-lgr', 'diff')),
             Scenario('documents', documents, 240, 3000,
                      need=('dump', 'populate', 'compare', 'diff', 'merge', 'harmonize', 'diff-sets')),
             Scenario('tables', tables, 300, 5000, need=('rfc4290', 'rfc3743', 'line', 'idna')),
             Scenario('reviews', reviews, 100, 1200, need=('reviewed', 'skipped'))]
