"""C13: verdicts of the validators."""
import io
import os

from ..core import Scenario, Skip
from .. import env, gen, spec
from .c07 import Model, Refused
from . import c12

RULE = ('random LGRs (partial variant relations, missing code points and rules, conditions, code points that are not '
        'IDNA2008 valid or out of a validating repertoire or of the scripts), validated alone and by series; '
        'non-trivial: at least one reported problem')
ASSUMPTIONS = ['the Unicode database gives the right properties and scripts']

LANGS = {'und-Latn': {'Latn'}, 'und-Grek': {'Grek'}, 'und-Cyrl': {'Cyrl'}, 'und-Jpan': {'Hani', 'Hira', 'Kana'},
         'und-Hans': {'Hani'}, 'und-Kore': {'Hani', 'Hang'}, 'fr': {'Latn'}, 'el': {'Grek'}}
RNG = os.path.join('resources', 'lgr.rng')


def prepare():
    gen.COMP = 0
    env.unidb()


def mk(rng):
    s = c12.mk(rng)
    names = [r[0] for r in s.rules] + ['no-such-rule']
    for c in list(s.chars.values()):
        for v in c.vars:
            if rng.random() < 0.08:
                v.when, v.not_when = rng.choice([(rng.choice(names), None), (None, rng.choice(names))])
        if len({v.ident() for v in c.vars}) != len(c.vars):
            raise Skip()
    return s


def own(s, rng):
    """(element, variants) in the order of the repertoire, ranges once"""
    return [(cp, s.chars[cp]) for cp in sorted(s.chars) if not s.chars[cp].rng or s.chars[cp].rng[0] == cp[0]]


def symmetry(s, ignore):
    out, checks = [], set()
    for cp, c in own(s, None):
        if c.rng:
            continue
        for v in c.vars:
            t = s.chars.get(v.cp)
            if t is None:
                out.append((cp, v.ident(), None, None, 'not-in-repertoire'))
                checks.add('basic_symmetry')
                continue
            rev = [w for w in t.vars if w.cp == cp]
            if not rev:
                out.append((cp, v.ident(), None, None, 'missing-symmetric-variant'))
                checks.add('basic_symmetry')
            elif not ignore:
                for kind, rule, rules in (('when', v.when, [w.when for w in rev]),
                                          ('not-when', v.not_when, [w.not_when for w in rev])):
                    if rule and rule not in rules:
                        out.append((cp, v.ident(), kind, rule, 'variant-contextual-rule-missing'))
                        checks.add('strict_symmetry')
                        break
    return out, checks


def transitivity(s):
    out, ok = [], True
    for cp, c in own(s, None):
        for v in c.vars:
            t = s.chars.get(v.cp)
            if t is None:
                ok = False
                continue
            for w in t.vars:
                if w.cp != cp and w.cp not in [x.cp for x in c.vars]:
                    out.append((cp, w.ident()))
    return ok and not out, out


def conditional(s):
    names = {r[0] for r in s.rules}
    return [(cp, v.ident(), kind, rule) for cp, c in own(s, None) for v in c.vars
            for kind, rule in (('when', v.when), ('not-when', v.not_when)) if rule is not None and rule not in names]


def vid(v):
    return (tuple(v.cp), v.when, v.not_when)


def observed(name, result):
    if name == 'symmetry':
        return sorted([(tuple(r['char'].cp), vid(r['variant']), r['rule_type'], r['rule'], r['type'])
                       for r in result['repertoire']], key=repr)
    if name == 'transitivity':
        return sorted([(tuple(r['char'].cp), vid(r['variant'])) for r in result['repertoire']], key=repr)
    return sorted([(tuple(r['char'].cp), vid(r['variant']), r['rule_type'], r['rule']) for r in result['repertoire']],
                  key=repr)


def verdicts(ctx):
    from lgr.validate.conditional_variants import check_conditional_variants
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    rng = ctx.rng
    s = mk(rng)
    lgr = spec.load(s, env.unidb() if rng.random() < 0.3 else None)
    before = spec.snapshot(lgr)
    xml = spec.to_xml(s)
    d = lambda: '%s %s' % (log, xml if isinstance(xml, str) else xml.decode())
    log = []
    failed = set()
    problems = 0
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(['symmetry', 'basic-symmetry', 'transitivity', 'conditional'])
        log.append(op)
        results = lgr.metadata.rfc7940_checks.test_result
        if op.endswith('symmetry'):
            ignore = op == 'basic-symmetry'
            ok, res = check_symmetry(lgr, {'ignore_rules': True} if ignore else rng.choice(
                [{}, None, {'ignore_rules': False}]))
            exp, checks = symmetry(s, ignore)
            ctx.eq(observed('symmetry', res), sorted(exp, key=repr), 'symmetry', d)
            ctx.eq(ok, not exp, 'symmetry-verdict', d)
            failed |= checks
            for k in ('basic_symmetry', 'strict_symmetry'):
                ctx.eq(results.get(k), k not in failed, 'recorded-' + k, d)
        elif op == 'transitivity':
            ok, res = check_transitivity(lgr, rng.choice([None, {}]))
            good, exp = transitivity(s)
            ctx.eq(observed('transitivity', res), sorted(exp, key=repr), 'transitivity', d)
            ctx.eq(ok, good, 'transitivity-verdict', d)
            if exp:
                failed.add('basic_transitivity')
            ctx.eq(results.get('basic_transitivity'), 'basic_transitivity' not in failed, 'recorded-transitivity', d)
        else:
            ok, res = check_conditional_variants(lgr, {})
            exp = conditional(s)
            ctx.eq(observed('conditional', res), sorted(exp, key=repr), 'conditional', d)
            ctx.eq(ok, not exp, 'conditional-verdict', d)
        ctx.event(op + ('-bad' if exp else '-good'))
        problems += len(exp)
    ctx.eq(spec.diff_snap(before, spec.snapshot(lgr)), '', 'read-only', d)
    if problems:
        ctx.seen(xml)


def in_script(db, scripts, cp):
    try:
        sc = db.get_script(cp, alpha4=True)
    except NotImplementedError:
        return True
    return not scripts or sc in scripts or sc in ('Zyyy', 'Zinh')


def rebuild_model(s, unidb, validating, db, scripts):
    """What the documentation of the editing API says of each element inserted again."""
    valid = ('PVALID', 'CONTEXTJ', 'CONTEXTO')
    cps = {c for k, ch in s.chars.items() for x in [k] + [v.cp for v in ch.vars] for c in x}
    idna = None if unidb is None else {c for c in cps if unidb.get_idna_prop(c) not in valid}
    m = Model(idna, False, validating if validating is not None else ())
    m.refs = [r[0] for r in s.refs]
    use = validating is not None
    report = {}
    for cp, c in own(s, None):
        errors, warnings, variants = [], [], {}
        if c.rng:
            ok = True
            for x in range(c.rng[0], c.rng[1] + 1):
                st = m.status(x, use)
                if st:
                    errors.append(st)
                if db is not None and not in_script(db, scripts, x):
                    warnings.append('CharNotInScript')
            if not errors and not warnings:
                try:
                    m.add_range(c.rng[0], c.rng[1], c.comment, c.ref, c.tag, c.when, c.not_when, use, False, False)
                except Refused as e:
                    errors.append(e.name)
        else:
            if db is not None and not all(in_script(db, scripts, x) for x in cp):
                warnings.append('CharNotInScript')
            for force in (False, True):
                try:
                    m.add_cp(cp, c.comment, c.ref, c.tag, c.when, c.not_when, use, False, force)
                    break
                except Refused as e:
                    errors.append(e.name)
                    if e.name == 'CharInvalidIdnaProperty':
                        break
            for v in c.vars:
                try:
                    m.add_variant(cp, v.cp, v.type, v.when, v.not_when, v.comment, v.ref, use, True, False)
                except Refused as e:
                    variants[v.ident()] = [e.name]
        entry = {}
        if errors:
            entry['errors'] = errors
        if warnings:
            entry['warnings'] = warnings
        if variants:
            entry['variants'] = variants
        if entry:
            report[cp] = entry
    return report


def rebuild(ctx):
    from lgr.core import LGR
    from lgr.validate.rebuild_lgr import rebuild_lgr
    rng = ctx.rng
    s = mk(rng)
    # code points that are not valid for IDNA2008
    for cp in gen.subset(rng, [0x41, 0x42, 0xAA, 0x2200, 0x387, 0xB7, 0x660], 0, 3):
        if (cp,) not in s.chars:
            s.add(spec.Ch((cp,)))
        if rng.random() < 0.5:
            c = s.chars[rng.choice([k for k, c in s.chars.items() if not c.rng])]
            v = spec.Var(rng.choice([(cp,), (cp, 0x61), (0x61, cp)]), 'blocked')
            if v.ident() not in [x.ident() for x in c.vars]:
                c.vars.append(v)
    if rng.random() < 0.2 and (0x58,) not in s.chars:
        s.add_range(0x58, 0x63) if not any((c,) in s.chars for c in range(0x58, 0x64)) else None
    if s.refs and rng.random() < 0.3:
        r = s.refs[0][0]
        s.chars[rng.choice([k for k, c in s.chars.items() if not c.rng])].ref = [r, r]
    langs = gen.subset(rng, sorted(LANGS), 0, 2)
    scripts = set().union(*[LANGS[l] for l in langs]) if langs else set()
    lgr = spec.load(s)
    lgr.metadata.languages = list(langs)
    db = rng.choice([None, env.idnadb('6.3.0'), env.unidb(), env.unidb()])
    if db is not None:
        lgr.unicode_database = db
    options = {}
    unidb = None
    if rng.random() < 0.7:
        unidb = options['unidb'] = rng.choice([env.unidb(), env.idnadb('6.3.0'), env.idnadb('6.2.0'), None])
    vset = vlgr = None
    if rng.random() < 0.4:
        singles = sorted({c for k in s.chars for c in k})
        vset = set(gen.subset(rng, singles, 1, len(singles)))
        vlgr = options['validating_repertoire'] = LGR('validating')
        for c in vset:
            vlgr.add_cp(c)
    version = lgr.metadata.unicode_version
    if rng.random() < 0.3:
        version = options['unicode_version'] = rng.choice(['6.2.0', '15.1.0', '5.2.0'])
    before = spec.snapshot(lgr)
    vbefore = vlgr and spec.snapshot(vlgr)
    xml = spec.to_xml(s)
    d = lambda: 'options %s langs %s db %s\n%s' % (options, langs, db, xml if isinstance(xml, str) else xml.decode())
    exp = rebuild_model(s, unidb, vset, db, scripts)
    ok, res = rebuild_lgr(lgr, options)
    ctx.eq(ok, True, 'rebuild-result', d)
    ctx.eq({k: v for k, v in res.items() if k != 'repertoire'},
           {'description': 'Rebuilding LGR', 'unicode_version': version, 'validating_repertoire': vlgr,
            'unidb_version': unidb.get_unicode_version() if unidb is not None else None}, 'rebuild-header', d)
    got = {}
    for ch, e in res['repertoire'].items():
        entry = {k: [type(x).__name__ for x in e[k]] for k in ('errors', 'warnings') if k in e}
        if 'variants' in e:
            entry['variants'] = {vid(v): [type(x).__name__ for x in l] for v, l in e['variants'].items()}
        ctx.check(set(e) <= {'errors', 'warnings', 'variants'}, 'rebuild-keys', d)
        got[tuple(ch.cp)] = entry
        for k in entry:
            ctx.event(k)
    if got != exp:
        keys = sorted(k for k in set(got) | set(exp) if got.get(k) != exp.get(k))[:3]
        ctx.fail('rebuild', 'at %s: got %s expected %s; %s' % (keys, [got.get(k) for k in keys],
                                                              [exp.get(k) for k in keys], d()))
    ctx.evaluated()
    ctx.eq(spec.diff_snap(before, spec.snapshot(lgr)), '', 'read-only', d)
    if vlgr is not None:
        ctx.eq(spec.diff_snap(vbefore, spec.snapshot(vlgr)), '', 'read-only-validating', d)
    if got:
        ctx.seen(xml, tuple(langs), repr(sorted(options)))


NAMES = ['check_xml_validity', 'check_symmetry', 'check_transitivity', 'check_conditional_variants', 'rebuild_lgr',
         'compute_stats']
EXTRA = ['check_metadata', 'check_miscellaneous']


def series(ctx):
    """Validations by series: each is independent of the ones before it."""
    from lxml import etree
    from lgr.parser.xml_serializer import serialize_lgr_xml
    from lgr.validate import validate_lgr
    from lgr.validate.lgr_stats import generate_stats
    rng = ctx.rng
    schema_path = os.path.join(env.REPO, RNG)
    pool = []
    for _ in range(rng.randint(1, 3)):
        s = mk(rng)
        broken = rng.random() < 0.3
        if broken:
            next(c for c in s.chars.values() if not c.rng).comment = rng.choice([None, 'x'])
            s.refs.append(('BAD', '', None))
        lgr = spec.load(s, rng.choice([None, env.unidb()]))
        if rng.random() < 0.3:
            # the schema wants a scope type and well formed versions
            lgr.metadata.unicode_version = rng.choice(['x', '', '6.3'])
        pool.append((s, lgr, spec.snapshot(lgr)))
    log = []
    d = lambda: '%s %s' % (log, spec.to_xml(s))
    for _ in range(rng.randint(3, 7)):
        i = rng.randrange(len(pool))
        s, lgr, before = pool[i]
        options = {}
        if rng.random() < 0.4:
            options['rfc7940'] = rng.choice([True, True, False])
        if rng.random() < 0.5:
            options['rng_filepath'] = schema_path
        if rng.random() < 0.3:
            options['ignore_rules'] = True
        log.append((i, sorted(options.items())))
        res = lgr.validate(options) if rng.random() < 0.5 else validate_lgr(lgr, options)
        ctx.eq([n for n, _ in res], NAMES + (EXTRA if options.get('rfc7940') else []), 'checks-run', d)
        res = dict(res)
        x = res['check_xml_validity']
        if 'rng_filepath' in options:
            valid = etree.RelaxNG(file=schema_path).validate(etree.fromstring(serialize_lgr_xml(lgr)))
            ctx.eq(x['rng_result'], valid, 'rng', d)
            ctx.eq('validation_result' in x, not valid, 'rng-log', d)
            ctx.event('rng-valid' if valid else 'rng-invalid')
        else:
            ctx.eq(x, {}, 'rng-skipped', d)
        ctx.eq(observed('symmetry', res['check_symmetry']),
               sorted(symmetry(s, options.get('ignore_rules'))[0], key=repr), 'symmetry', d)
        ctx.eq(observed('transitivity', res['check_transitivity']), sorted(transitivity(s)[1], key=repr),
               'transitivity', d)
        ctx.eq(observed('conditional', res['check_conditional_variants']), sorted(conditional(s), key=repr),
               'conditional', d)
        ctx.eq(res['compute_stats']['stats'], generate_stats(lgr), 'stats', d)
        ctx.eq(spec.diff_snap(before, spec.snapshot(lgr)), '', 'read-only', d)
        ctx.event('rfc7940' if options.get('rfc7940') else 'plain')
    ctx.seen(repr(log), spec.to_xml(s))


SCENARIOS = [Scenario('verdicts', verdicts, 1600, 30000,
                      need=('symmetry-bad', 'symmetry-good', 'transitivity-bad', 'conditional-bad')),
             Scenario('rebuild', rebuild, 1600, 30000, need=('errors', 'warnings', 'variants')),
             Scenario('series', series, 500, 8000, need=('rfc7940', 'plain', 'rng-valid', 'rng-invalid'))]
