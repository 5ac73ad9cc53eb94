"""C25: RFC 7940 compliance checks of metadata, data and rules, and the final verdict."""
import contextlib
import datetime
import io
import mimetypes
import os
import re
import sys
import tempfile

from ..core import Scenario, Skip
from .. import env, gen, spec
from . import c12, c13

RULE = ('random metadata (dates around today, media types, scopes, versions), variant types, references, dispositions '
        'and code points; random series of results and policies; the command line tool on documents; non-trivial: at '
        'least one failed check')
ASSUMPTIONS = ['the date does not change during a check (checked)']

STANDARD = ('invalid', 'blocked', 'allocatable', 'activated', 'valid')
TESTS = ['validity_end_expiry', 'validity_start_end', 'validity_started', 'metadata_description_type',
         'metadata_scope_type', 'metadata_version_integer']
UV = '15.1.0'


def prepare():
    gen.COMP = 0
    db = env.unidb()
    global UV
    UV = db.get_unicode_version()
    mimetypes.init()


def day(rng):
    today = datetime.date.today()
    n = rng.choice([0, 0, 1, -1, 1, -1, 2, -30, 30, -400, 400, 4000, -4000])
    return (today + datetime.timedelta(days=n)).isoformat()


def fill_meta(rng, s, valid=0.5):
    m = s.meta
    ok = rng.random() < valid
    today = datetime.date.today()
    if rng.random() < 0.6:
        m['validity_start'] = (today - datetime.timedelta(days=rng.choice([0, 1, 40]))).isoformat() if ok else day(rng)
    if rng.random() < 0.6:
        m['validity_end'] = (today + datetime.timedelta(days=rng.choice([0, 1, 40]))).isoformat() if ok else day(rng)
    if rng.random() < 0.6:
        m['description'] = ('Some text', rng.choice(['text/plain', 'text/html', None] if ok else
                                                    ['text/plain', 'text/plan', 'html', 'TEXT', 'text/', 'x']))
    m['scopes'] = [(rng.choice(['.', 'example']), rng.choice(['domain'] if ok else ['domain', 'Domain', 'zone', '']))
                   for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.7:
        m['version'] = (rng.choice(['1', '12', '305'] if ok else ['1', '0', '01', '1.0', '-1', 'v1', '', '1a', ' 2']), None)


def meta_model(m, today):
    """name of test -> True/False"""
    s, e = m.get('validity_start'), m.get('validity_end')
    d, v = m.get('description'), m.get('version')
    return {
        'validity_end_expiry': not (e is not None and e < today),
        'validity_start_end': not (s is not None and e is not None and s > e),
        'validity_started': not (s is not None and s > today),
        'metadata_description_type': d is None or d[1] is None or d[1] in mimetypes.types_map.values(),
        'metadata_scope_type': all(t in (None, 'domain') for _, t in m.get('scopes', [])),
        'metadata_version_integer': v is None or (v[0] or '')[:1] in tuple('123456789') and (v[0] or '').isdecimal()
        and (v[0] or '').isascii(),
    }


def metadata(ctx):
    from lgr.core import LGR
    from lgr.metadata import Description, Scope, Version
    from lgr.validate.metadata import check_metadata
    rng = ctx.rng
    lgr = LGR()
    failed = set()
    log = []
    d = lambda: repr(log)
    for _ in range(rng.randint(1, 4)):
        s = spec.Spec()
        fill_meta(rng, s, 0.3)
        m = s.meta
        log.append(dict(m))
        md = lgr.metadata
        md.validity_start, md.validity_end = m.get('validity_start'), m.get('validity_end')
        md.description = m.get('description') and Description(*m['description'])
        md.scopes = [Scope(v, t) for v, t in m['scopes']]
        md.version = m.get('version') and Version(*m['version'])
        before = spec.snapshot(lgr)
        today = datetime.date.today().isoformat()
        ok, res = check_metadata(lgr, rng.choice([{}, None]))
        if datetime.date.today().isoformat() != today:
            raise Skip()
        exp = meta_model(m, today)
        ctx.eq(ok, all(exp.values()), 'metadata-verdict', d)
        failed |= {t for t, v in exp.items() if not v}
        ctx.eq(lgr.metadata.rfc7940_checks.test_result, {t: t not in failed for t in TESTS}, 'metadata-results', d)
        ctx.eq(spec.diff_snap(before, spec.snapshot(lgr)), '', 'read-only', d)
        for t, v in exp.items():
            ctx.event('%s-%s' % (t, 'ok' if v else 'nok'))
        if not all(exp.values()):
            ctx.seen(repr(m))


BAD_TYPES = ['a b', '_x', ' x', 'x ', '_', '', 'blocked allocatable']


def fill_data(rng, s):
    own = [c for c in s.chars.values() if not c.rng]
    if rng.random() < 0.4:
        for c in rng.sample(own, 1):
            v = spec.Var(rng.choice(own).cp, rng.choice(BAD_TYPES + ['x_y', 'r-both']))
            if v.ident() not in [x.ident() for x in c.vars]:
                c.vars.append(v)
    s.refs = [(str(i), 'value %d' % i, None) for i in range(rng.choice([0, 3, 12]))]
    if s.refs and rng.random() < 0.3:
        s.refs += [('A', 'value A', None), ('B-1', 'value B', None)]
    nums = [r[0] for r in s.refs if r[0].isdigit()]
    texts = [r[0] for r in s.refs if not r[0].isdigit()]
    for o in own + [v for c in own for v in c.vars]:
        o.ref = []
        if not s.refs or rng.random() < 0.5:
            continue
        if texts and rng.random() < 0.3:
            o.ref = rng.sample(texts, rng.randint(1, len(texts)))
        else:
            o.ref = rng.sample(nums, rng.randint(1, 3))
            if rng.random() < 0.9:
                o.ref.sort(key=int)
    if rng.random() < 0.3:
        a = spec.Act(rng.choice(['custom', 'Valid', 'block', 'valid ', 'invalid']))
        a.any_variant = ['blocked']
        s.actions.append(a)


def ascending(l):
    return all(r.isdigit() for r in l) and all(int(a) < int(b) for a, b in zip(l, l[1:])) or not any(
        r.isdigit() for r in l)


def data_model(s, version):
    """(verdict, name of test -> True/False), tests not run are absent"""
    own = [(cp, c) for cp, c in s.chars.items() if not c.rng]
    res = {
        'standard_dispositions': all(a.disp in STANDARD for a in s.actions),
        'data_variant_type': all(v.type is None or v.type != '' and ' ' not in v.type and not v.type.startswith('_')
                                 for _, c in own for v in c.vars),
        'ref_attribute_ascending': all(ascending(o.ref) for o in
                                       [c for c in s.chars.values()] + [v for _, c in own for v in c.vars]),
    }
    if version is not None and version == s.meta.get('unicode_version', '6.3.0'):
        db = env.unidb()
        cps = {x for cp, c in s.chars.items() for e in [cp] + [v.cp for v in c.vars] for x in e}
        res['codepoint_valid'] = all(db.get_idna_prop(x) in ('PVALID', 'CONTEXTJ', 'CONTEXTO') for x in cps)
    return res


def data(ctx):
    from lgr.validate.miscellaneous import check_miscellaneous
    rng = ctx.rng
    s = c12.mk(rng)
    s.actions = [a for a in s.actions if rng.random() < 0.5 or a.disp in STANDARD]
    for a in s.actions:
        if rng.random() < 0.7:
            a.disp = rng.choice(STANDARD)
    fill_data(rng, s)
    if rng.random() < 0.7:
        s.meta['unicode_version'] = UV
    bad = gen.subset(rng, [0x41, 0x2200, 0x378, 0xFF41], 0, 1) if rng.random() < 0.3 else []
    for cp in bad:
        if rng.random() < 0.5:
            s.add(spec.Ch((cp,)))
        else:
            c = rng.choice([c for c in s.chars.values() if not c.rng])
            if (((cp,), None, None)) not in [v.ident() for v in c.vars]:
                c.vars.append(spec.Var((cp,), 'blocked'))
    first, last = rng.choice([(0x58, 0x5B), (0xF6, 0xF8), (0x2D, 0x31), (0x37B, 0x37E), (0x38E, 0x390)])
    if rng.random() < 0.25 and not any((c,) in s.chars for c in range(first, last + 1)):
        s.add_range(first, last)
    lgr = spec.load(s)
    db = rng.choice([None, env.unidb(), env.unidb()])
    if db is not None:
        lgr.unicode_database = db
    base = dict(lgr.metadata.rfc7940_checks.test_result)
    exp = data_model(s, db and UV)
    before = spec.snapshot(lgr)
    d = lambda: '%s db %s\n%s' % (exp, db, spec.to_xml(s))
    for _ in range(rng.randint(1, 2)):
        ok, res = check_miscellaneous(lgr, {})
        ctx.eq(ok, all(exp.values()), 'data-verdict', d)
        got = dict(lgr.metadata.rfc7940_checks.test_result)
        for k, v in exp.items():
            ctx.eq(got.get(k), v and base.get(k, True), 'data-' + k, d)
            ctx.event('%s-%s' % (k, 'ok' if v else 'nok'))
        if 'codepoint_valid' not in exp:
            ctx.eq(got.get('codepoint_valid'), base.get('codepoint_valid'), 'data-not-run', d)
            ctx.event('no-codepoint-check')
        ctx.eq({k: v for k, v in got.items() if k not in exp and k not in base},
               {'valid_unicode_version': True} if 'codepoint_valid' in exp and 'valid_unicode_version' not in base else {},
               'data-other', d)
        ctx.eq(spec.diff_snap(before, spec.snapshot(lgr)), '', 'read-only', d)
    if not all(exp.values()):
        ctx.seen(spec.to_xml(s))


LEVELS = ['IGNORE', 'WARNING', 'ERROR', 'ERROR', 'other']


def verdict(results, policy, descriptions):
    lines, worst = [], 'PASS'
    for t in policy:
        desc = descriptions.get(t, t)
        p = policy[t] if policy[t] in ('IGNORE', 'WARNING') else 'ERROR'
        if t not in results:
            lines.append('ERROR: %s - NOT EXECUTED' % desc)
            worst = 'FAIL'
        elif results[t]:
            lines.append('PASS: %s - OK' % desc)
        else:
            lines.append('%s: %s - NOK' % (p, desc))
            if p == 'ERROR':
                worst = 'FAIL'
            elif p == 'WARNING' and worst == 'PASS':
                worst = 'WARN'
    return worst, lines + ['Validation result: ' + worst]


def results(ctx):
    """Series of results, then policies."""
    from lgr.core import LGR
    from lgr.rfc7940 import LGRFormatTestResults
    rng = ctx.rng
    desc = LGRFormatTestResults.test_desciption
    pool = sorted(desc) + ['schema', 'my own test']
    lgr, other = LGR(), LGR()
    model = {}
    log = []
    d = lambda: repr(log)
    for _ in range(rng.randint(0, 25)):
        t = rng.choice(pool)
        op = rng.choice(['error', 'tested', 'tested', 'tested', 'result'])
        r = rng.random() < 0.6
        log.append((op, t, r))
        if op == 'error':
            lgr.notify_error(t)
            model[t] = False
        elif op == 'tested':
            lgr.notify_tested(t)
            model.setdefault(t, True)
        else:
            lgr.metadata.rfc7940_checks.add_test_result(t, r)
            model[t] = model.get(t, True) and r
        ctx.eq(lgr.metadata.rfc7940_checks.test_result, model, 'results', d)
        ctx.eq(lgr.get_rfc7940_validation(), 'FAIL' if False in model.values() else 'PASS', 'no-policy', d)
    ctx.eq(other.metadata.rfc7940_checks.test_result, {}, 'other-lgr', d)
    for _ in range(rng.randint(1, 4)):
        known = [t for t in pool if t in model]
        if known and rng.random() < 0.7:
            keys = gen.subset(rng, known, 1, len(known)) + (gen.subset(rng, pool, 0, 1) if rng.random() < 0.3 else [])
        else:
            keys = gen.subset(rng, pool, 0, len(pool))
        lv = gen.subset(rng, LEVELS, 1, 5)
        policy = {k: rng.choice(lv) for k in dict.fromkeys(keys)}
        worst, lines = verdict(model, policy, desc)
        log.append(policy)
        copy = dict(policy)
        ctx.eq(lgr.get_rfc7940_validation(policy), worst, 'verdict', d)
        ctx.eq(lgr.get_rfc7940_validation(policy, verbose=True).split('\n'), lines, 'report', d)
        ctx.eq(policy, copy, 'policy', d)
        ctx.event(worst)
    if False in model.values():
        ctx.seen(repr(log))


POLICY = dict(validity_end_expiry='ERROR', validity_start_end='ERROR', validity_started='ERROR',
              metadata_description_type='ERROR', metadata_scope_type='ERROR', metadata_language='ERROR',
              metadata_version_integer='WARNING', data_variant_type='ERROR', codepoint_valid='ERROR',
              char_ascending_order='WARNING', char_strict_ascending_order='IGNORE', ref_attribute_ascending='WARNING',
              standard_dispositions='ERROR', basic_symmetry='WARNING', strict_symmetry='WARNING',
              basic_transitivity='WARNING', parse_xml='ERROR', schema='ERROR')


def libs():
    for v in ('74', '76', '72', '70'):
        uc = '/usr/lib/x86_64-linux-gnu/libicuuc.so.%s' % v
        if os.path.exists(uc):
            return '%s#%s#%s' % (uc, uc.replace('libicuuc', 'libicui18n'), v)


def run_tool(name, argv):
    """stdout of a command line tool, run in this process"""
    import importlib.util
    sp = importlib.util.spec_from_file_location('tool_' + name, os.path.join(env.REPO, 'tools', name + '.py'))
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    out, err, old = io.StringIO(), io.StringIO(), sys.argv
    sys.argv = [name + '.py'] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            mod.main()
    finally:
        sys.argv = old
    return out.getvalue()


def tool(ctx):
    from lxml import etree
    rng = ctx.rng
    good = rng.random() < 0.5
    s = c12.mk(rng)
    if good or rng.random() < 0.3:
        # symmetric and transitive
        from lgr.parser.xml_serializer import serialize_lgr_xml
        for c in s.chars.values():
            c.vars = []
        cps = [cp for cp, c in s.chars.items() if not c.rng]
        group = gen.subset(rng, cps, 2, 4)
        for a in group:
            s.chars[a].vars += [spec.Var(b, 'blocked') for b in group if a != b]
    s.actions = []
    if rng.random() < 0.8:
        # random rules are often out of the schema
        s.classes = []
        s.rules = [(n, [('behind', [('char', (0x61,), None)]), ('anchor',)] if n.startswith('ctx') else
                    [('char', (0x61,), '1+')]) for n, _ in s.rules]
    s.meta['unicode_version'] = UV if good or rng.random() < 0.8 else '6.3.0'
    fill_meta(rng, s, 0.9 if good else 0.4)
    s.meta['languages'] = rng.choice([['und-Latn'], ['fr', 'und-Latn'], []]) if not good else ['und-Latn']
    s.meta['scopes'] = [(v, t) for v, t in s.meta['scopes'] if t == 'domain']     # the schema knows no other
    if not good:
        fill_data(rng, s)
    order = None
    if rng.random() < 0.3:
        order = list(s.chars)
        rng.shuffle(order)
    xml = spec.to_xml(s, order=order) if order else spec.to_xml(s)
    xml = xml if isinstance(xml, bytes) else xml.encode('utf-8')
    schema = os.path.join(env.REPO, c13.RNG)
    root = etree.fromstring(xml)
    quiet = rng.random() < 0.4
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'doc.xml')
        with open(path, 'wb') as f:
            f.write(xml)
        today = datetime.date.today().isoformat()
        argv = ['-l', libs(), '-r', schema] + (['-q'] if quiet else []) + [path]
        out = run_tool('rfc7940_validate', argv)
        if datetime.date.today().isoformat() != today:
            raise Skip()
    if not etree.RelaxNG(file=schema).validate(root):
        ctx.eq(out, 'FAIL\n', 'tool-schema', lambda: xml.decode())
        ctx.event('schema')
        return
    from lgr.rfc7940 import LGRFormatTestResults
    res = dict(meta_model(s.meta, today))
    res.update(data_model(s, UV))
    if s.meta['languages']:
        res['metadata_language'] = True
    prev, strict, asc = [], True, True
    for el in root.find('{*}data').findall('{*}char'):
        cp = [int(x, 16) for x in el.get('cp').split()]
        if cp <= prev:
            if prev[:len(cp)] == cp:
                strict = False
            else:
                asc = False
        prev = cp
    res.update(char_ascending_order=asc, char_strict_ascending_order=strict, parse_xml=True, schema=True)
    checks = c13.symmetry(s, False)[1]
    res.update(basic_symmetry='basic_symmetry' not in checks, strict_symmetry='strict_symmetry' not in checks,
               basic_transitivity=not c13.transitivity(s)[1])
    worst, lines = verdict(res, POLICY, LGRFormatTestResults.test_desciption)
    exp = worst + '\n' if quiet else '\n'.join(lines) + '\n'
    g, e = out.split('\n'), exp.split('\n')
    ctx.eq([x for x in g if x not in e], [x for x in e if x not in g], 'tool-verdict', lambda: xml.decode())
    ctx.eq(out, exp, 'tool-verdict', lambda: xml.decode())
    ctx.event(worst)
    if worst != 'PASS':
        ctx.seen(xml)


SCENARIOS = [Scenario('metadata', metadata, 1500, 30000,
                      need=tuple('%s-%s' % (t, k) for t in TESTS for k in ('ok', 'nok'))),
             Scenario('data', data, 1000, 12000,
                      need=tuple('%s-%s' % (t, k) for t in ('standard_dispositions', 'data_variant_type',
                                                            'ref_attribute_ascending', 'codepoint_valid')
                                 for k in ('ok', 'nok'))),
             Scenario('results', results, 1200, 30000, need=('PASS', 'WARN', 'FAIL')),
             Scenario('tool', tool, 240, 3000, need=('PASS', 'WARN', 'FAIL'))]
