"""C10: strict and tolerant parsing of documents with faults."""
import io
import os
import random
import re
import tempfile
from pathlib import Path

from ..core import Scenario, Skip
from .. import env, gen, spec
from .c07 import Model, Refused, INVALID

RULE = ('valid random documents with one to three injected faults (metadata, references, code points, ranges, variants, '
        'classes, rules, actions, unknown elements), parsed in strict and tolerant modes with and without Unicode '
        'database; non-trivial: a faulty document whose tolerant content differs from nothing')
ASSUMPTIONS = ['code points are written in hexadecimal and mandatory attributes are present',
               'a faulty class or rule is not used to evaluate labels']


def prepare():
    gen.COMP = 0.15
    env.unidb()


CHECKS = ('parse_xml', 'codepoint_valid', 'char_ascending_order', 'char_strict_ascending_order', 'metadata_language',
          'valid_unicode_version', 'explicit_unicode_version')
META_FAULTS = ['date', 'validity-start', 'validity-end', 'language', 'unicode-version', 'no-unicode-version', 'unknown']
DATA_FAULTS = ['duplicate', 'swap', 'when-and-not-when', 'unknown-ref', 'duplicate-ref', 'duplicate-tag', 'sequence-tag',
               'not-idna', 'duplicate-variant', 'variant-contexts', 'variant-ref', 'overlap-range', 'reversed-range',
               'variant-not-idna', 'unknown', 'single-range', 'range-contexts', 'range-tag', 'orphan-order']
BAD_DATES = ['2015-13-01', '2015', '2015-1-1', '20150101', '', ' 2015-01-01', '2015-02-30', 'x', '2015-01-01T00:00:00']
BAD_LANGS = ['xx-zzzzzzzzzz', '123', '', 'und-Zzzzz', 'abcdefghij', 'é', 'en us']
BAD_UV = ['6.3', 'v6.3.0', '', '6.3.x', '6', '6.3.0b', '6..3.0', 'latest']
# xml, what strict does (reason of the LGRFormatException), what tolerant does ('kept', 'skipped' or 'refused')
RULE_FAULTS = [
    ('rule', 'f', '<rule name="f"><rule by-ref="nope"/></rule>', 'INVALID_BY_REF', 'kept'),
    ('rule', 'f', '<rule name="f"><choice><rule by-ref="nope"/><start/></choice></rule>', 'INVALID_BY_REF', 'kept'),
    ('rule', 'f', '<rule name="f"><class by-ref="nope"/></rule>', 'INVALID_BY_REF', 'kept'),
    ('rule', 'f', '<rule name="f"><rule><class by-ref="nope"/></rule></rule>', 'INVALID_BY_REF', 'kept'),
    ('rule', 'f', '<rule name="f"><look-behind><class by-ref="nope"/></look-behind><anchor/></rule>', 'INVALID_BY_REF',
     'kept'),
    ('rule', 'f', '<rule name="f"><union><class by-ref="nope"/><class>0061</class></union></rule>', 'INVALID_BY_REF',
     'kept'),
    ('class', 'f', '<union name="f"><class by-ref="nope"/><class>0061</class></union>', 'INVALID_BY_REF', 'kept'),
    ('class', 'f', '<complement name="f"><class by-ref="nope"/></complement>', 'INVALID_BY_REF', 'kept'),
    ('class', 'f', '<difference name="f"><union><class by-ref="nope"/><class>0062</class></union><class>0061</class>'
     '</difference>', 'INVALID_BY_REF', 'kept'),
    ('rule', None, '<rule><start/></rule>', 'INVALID_TOP_LEVEL_NAME', 'kept'),
    ('rule', 'f', '<rule name="f"><rule name="g"><start/></rule></rule>', 'INVALID_TOP_LEVEL_NAME', 'kept'),
    ('rule', 'f', '<rule name="f"><class name="g">0061</class></rule>', 'INVALID_TOP_LEVEL_NAME', 'kept'),
    ('class', None, '<class>0061</class>', 'INVALID_TOP_LEVEL_NAME', 'kept'),
    ('class', 'f', '<union name="f"><class name="g">0061</class><class>0062</class></union>', 'INVALID_TOP_LEVEL_NAME',
     'kept'),
    ('class', 'f', '<union name="f"><class>0061</class></union>', 'INVALID_CHILDREN_NUMBER', 'kept'),
    ('class', 'f', '<intersection name="f"><class>0061</class></intersection>', 'INVALID_CHILDREN_NUMBER', 'kept'),
    ('class', 'f', '<difference name="f"><class>0061</class></difference>', 'INVALID_CHILDREN_NUMBER', 'kept'),
    ('class', 'f', '<symmetric-difference name="f"/>', 'INVALID_CHILDREN_NUMBER', 'kept'),
    ('class', 'f', '<complement name="f"/>', 'INVALID_CHILDREN_NUMBER', 'kept'),
    ('rule', 'f', '<rule name="f"><intersection><class>0061</class></intersection></rule>', 'INVALID_CHILDREN_NUMBER',
     'kept'),
    ('class', 'f', '<complement name="f"><class>0061</class><class>0062</class></complement>', 'INVALID_CHILDREN_NUMBER',
     'refused'),
    ('class', 'f', '<intersection name="f"><class>0061</class><class>0061</class><class>0061</class></intersection>',
     'INVALID_CHILDREN_NUMBER', 'refused'),
    ('rule', 'f', '<rule name="f"><class by-ref="known" from-tag="t"/></rule>', 'BY_REF_AND_OTHER', 'refused'),
    ('rule', 'f', '<rule name="f"><class by-ref="known">0061</class></rule>', 'BY_REF_AND_OTHER', 'refused'),
    ('class', 'f', '<class name="f" by-ref="known"/>', 'BY_REF_AND_OTHER', 'refused'),
    ('action', None, '<action disp="valid" match="known-rule" not-match="known-rule"/>', 'MATCH_NOT_MATCH', 'refused'),
    ('unknown', None, '<foo name="f">0061</foo>', None, 'skipped'),
    ('unknown', None, '<char cp="0061"/>', None, 'skipped'),
    ('rule', 'f', '<rule name="f"><foo/><start/></rule>', None, 'kept+'),
    ('class', 'f', '<union name="f"><foo/><class>0061</class><class>0062</class></union>', None, 'kept+'),
    ('class', 'f', '<class name="f"><foo/></class>', None, 'kept+'),
]


def mk(rng):
    s = gen.gen_lgr(rng, refs=rng.random() < 0.8, comments=True, meta=True, rules=(0, 2), actions=(0, 3))
    if not s.refs:
        s.refs.append(('0', 'value', None))
    return s


class Doc(object):
    """A document as the list of its elements, in order."""

    def __init__(self, s):
        self.meta = []      # (tag, text, attrs)
        m = s.meta
        if m['version'] is not None:
            self.meta.append(('version', m['version'][0], [('comment', m['version'][1])]))
        if m['date'] is not None:
            self.meta.append(('date', m['date'], []))
        self.meta += [('language', l, []) for l in m['languages']]
        self.meta += [('scope', v, [('type', t)]) for v, t in m['scopes']]
        for k in ('validity_start', 'validity_end', 'unicode_version'):
            if m[k] is not None:
                self.meta.append((k.replace('_', '-'), m[k], []))
        if m['description'] is not None:
            self.meta.append(('description', m['description'][0], [('type', m['description'][1])]))
        self.refs = list(s.refs)
        self.data = []
        done = set()
        for cp in sorted(s.chars):
            c = s.chars[cp]
            if c.rng:
                if c.rng not in done:
                    done.add(c.rng)
                    self.data.append(c)
            else:
                self.data.append(c)
        self.rules = [('class', n, spec.class_xml(a, name=n), None, 'kept') for n, a in s.classes]
        self.rules += [('rule', n, spec.rule_xml(n, b), None, 'kept') for n, b in s.rules]
        self.rules += [('action', None, spec.action_xml(a), None, 'kept') for a in s.actions]

    def xml(self):
        out = ['<?xml version="1.0" encoding="utf-8"?>\n<lgr xmlns="%s">' % spec.NS, '<meta>']
        for tag, text, attrs in self.meta:
            out.append('<%s%s>%s</%s>' % (tag, spec.attrs(*attrs), spec.escape(text), tag))
        if self.refs:
            out.append('<references>%s</references>' % ''.join(
                '<reference%s>%s</reference>' % (spec.attrs(('id', i), ('comment', c)), spec.escape(v))
                for i, v, c in self.refs))
        out.append('</meta><data>')
        for c in self.data:
            out.append(c if isinstance(c, str) else spec.char_xml(c))
        out.append('</data><rules>')
        out += [r[2] for r in self.rules]
        out.append('</rules></lgr>')
        return ''.join(out).encode()


class Expected(Exception):
    pass


def expect(doc, force, db, allow):
    """Returns (exception name, reason, content): what parsing the document has to give."""
    fails = set()
    meta = spec.Spec().meta
    uv = False
    try:
        for tag, text, attrs in doc.meta:
            a = dict(attrs)
            if tag == 'version':
                meta['version'] = (text or None, a.get('comment'))
            elif tag in ('date', 'validity-start', 'validity-end'):
                if not force and text in BAD_DATES:
                    raise Expected('LGRFormatException', 'INVALID_DATE_TAG')
                meta[tag.replace('-', '_')] = text or None
            elif tag == 'language':
                if text in BAD_LANGS:
                    fails.add('metadata_language')
                    if not force:
                        raise Expected('LGRFormatException', 'INVALID_LANGUAGE_TAG')
                if (text or '') not in meta['languages']:
                    meta['languages'].append(text or '')
            elif tag == 'unicode-version':
                uv = True
                if text in BAD_UV:
                    fails.add('valid_unicode_version')
                    if not force:
                        raise Expected('LGRFormatException', 'INVALID_UNICODE_VERSION_TAG')
                meta['unicode_version'] = text or None
            elif tag == 'scope':
                meta['scopes'].append((text, a.get('type')))
            elif tag == 'description':
                meta['description'] = (text, a.get('type'))
            else:
                fails.add('parse_xml')
        if not uv:
            fails.add('explicit_unicode_version')
        m = Model(INVALID if db else None, allow)
        for i, v, c in doc.refs:
            if i in m.refs:
                raise Expected('ReferenceAlreadyExists', None)
            if any(x.islower() or x in ' /' for x in i):
                raise Expected('ReferenceInvalidId', None)
            m.refs.append(i)
        previous = ()

        def attempt(fn):
            try:
                fn()
            except Refused as exc:
                fails.update(('parse_xml', 'codepoint_valid'))
                if not force:
                    raise Expected(exc.name, None)

        for c in doc.data:
            if isinstance(c, str):
                fails.add('parse_xml')
                continue
            if c.rng:
                attempt(lambda: m.add_range(c.rng[0], c.rng[1], c.comment, c.ref, c.tag, c.when, c.not_when, False, False,
                                            force))
                continue
            if previous and c.cp <= previous:
                fails.add('char_strict_ascending_order' if previous[:len(c.cp)] == c.cp else 'char_ascending_order')
            previous = c.cp
            attempt(lambda: m.add_cp(c.cp, c.comment, c.ref, c.tag, c.when, c.not_when, False, False, force))
            for v in c.vars:
                attempt(lambda: m.add_variant(c.cp, v.cp, v.type, v.when, v.not_when, v.comment, v.ref, False, False,
                                              force))
        names = {'class': [], 'rule': [], 'action': []}
        for kind, name, xml, reason, tolerant in doc.rules:
            if reason is not None and (not force or tolerant == 'refused'):
                raise Expected('LGRFormatException', reason)
            if tolerant in ('skipped', 'kept+'):
                fails.add('parse_xml')
            if tolerant != 'skipped':
                names[kind].append(name)
    except Expected as e:
        return e.args[0], e.args[1], None
    return None, None, dict(meta=meta, data={cp: c.full() for cp, c in m.chars.items()}, ranges=sorted(m.ranges),
                            refs=list(doc.refs), tags={t: frozenset(v) for t, v in m.tag_classes().items() if v},
                            classes=names['class'], rules=names['rule'], actions=len(names['action']), fails=fails)


def inject(rng, doc, s):
    """Add a fault to a document; returns its name."""
    where = rng.choice(['meta', 'refs', 'data', 'data', 'data', 'rules'])
    chars = [c for c in doc.data if not isinstance(c, str) and not c.rng]
    ranges = [c for c in doc.data if not isinstance(c, str) and c.rng]
    ctx = [r[0] for r in s.rules] or ['nope']
    if where == 'meta':
        f = rng.choice(META_FAULTS)
        pos = rng.randint(0, len(doc.meta))
        bad = {'date': BAD_DATES, 'validity-start': BAD_DATES, 'validity-end': BAD_DATES, 'language': BAD_LANGS,
               'unicode-version': BAD_UV}
        if f == 'no-unicode-version':
            doc.meta = [m for m in doc.meta if m[0] != 'unicode-version']
        elif f == 'unknown':
            doc.meta.insert(pos, ('foo', 'bar', []))
        elif f == 'language':
            doc.meta.insert(pos, (f, rng.choice(bad[f]), []))
        else:
            doc.meta = [m for m in doc.meta if m[0] != f]
            doc.meta.insert(min(pos, len(doc.meta)), (f, rng.choice(bad[f]), []))
        return 'meta-' + f
    if where == 'refs':
        f = rng.choice(['duplicate', 'invalid'])
        rid = rng.choice(doc.refs)[0] if f == 'duplicate' else rng.choice(['ab', 'A B', 'A/B', 'REF-a'])
        doc.refs.insert(rng.randint(1, len(doc.refs)), (rid, 'again', None))
        return 'reference-' + f
    if where == 'rules':
        f = rng.choice(RULE_FAULTS)
        xml = f[2]
        known = [r for r in doc.rules if r[0] == 'class' and r[1] != 'f' and r[1]]
        if 'known"' in xml and 'known-rule' not in xml:
            if not known:
                doc.rules.insert(0, ('class', 'known', '<class name="known">0061</class>', None, 'kept'))
                pos = rng.randint(1, len(doc.rules))
            else:
                xml = xml.replace('"known"', '"%s"' % known[0][1])
                pos = rng.randint(doc.rules.index(known[0]) + 1, len(doc.rules))
        else:
            pos = rng.randint(0, len(doc.rules))
        doc.rules.insert(pos, (f[0], f[1], xml, f[3], f[4]))
        return 'rules-%s-%s' % (f[3], f[4])
    f = rng.choice(DATA_FAULTS)
    rids = [r[0] for r in doc.refs]
    c = rng.choice(chars) if chars else None
    pos = rng.randint(0, len(doc.data))

    def put(x):
        doc.data.insert(pos, x)
    if f == 'unknown':
        put(rng.choice(['<foo cp="0061"/>', '<foo/>', '<var cp="0062"/>']))
    elif f == 'reversed-range':
        r = spec.Ch((0x7A,))
        r.rng = (0x7A, 0x79)
        put(r)
    elif f == 'single-range':
        r = spec.Ch((0x7A,), tag=['t'])
        r.rng = (0x7A, 0x7A)
        put(r)
    elif f in ('overlap-range', 'range-contexts', 'range-tag'):
        a = rng.choice([0x61, 0x63, 0x6B, 0x6A, 0x75, 0x3B4])
        r = spec.Ch((a,), comment='over')
        r.rng = (a, a + rng.randint(1, 4))
        if f == 'range-contexts':
            r.when, r.not_when = ctx[0], ctx[-1]
        elif f == 'range-tag':
            r.tag = ['t', 't']
        put(r)
    elif f == 'not-idna':
        put(spec.Ch(rng.choice([(0x41,), (0x24,), (0x61, 0x41)]), vars=[spec.Var((0x61,), 'blocked')]))
    elif c is None:
        raise Skip()
    elif f == 'duplicate':
        put(spec.Ch(c.cp, comment='again', vars=[spec.Var((0x7A,), 't1')] + c.vars[:1]))
    elif f in ('swap', 'orphan-order'):
        doc.data.remove(c)
        put(c)
    elif f == 'when-and-not-when':
        c.when, c.not_when = ctx[0], ctx[-1]
    elif f == 'unknown-ref':
        c.ref = c.ref + ['NOPE']
    elif f == 'duplicate-ref':
        c.ref = [rids[0], rids[0]]
    elif f == 'duplicate-tag':
        c.tag = ['t', 'u', 't'] if len(c.cp) == 1 else []
    elif f == 'sequence-tag':
        put(spec.Ch((0x7A, 0x7A), tag=['t']))
    elif f in ('duplicate-variant', 'variant-contexts', 'variant-ref', 'variant-not-idna'):
        if not c.vars:
            c.vars.append(spec.Var((0x7A,), 't1'))
        v = rng.choice(c.vars)
        if f == 'duplicate-variant':
            c.vars.append(spec.Var(v.cp, 'other', v.when, v.not_when))
        elif f == 'variant-contexts':
            v.when, v.not_when = ctx[0], ctx[-1]
        elif f == 'variant-not-idna':
            c.vars.append(spec.Var((0x41,), 'blocked'))
        else:
            v.ref = rng.choice([['NOPE'], [rids[0], rids[0]]])
    return 'data-' + f


def content(lgr):
    sn = spec.snapshot(lgr)
    return dict(meta=sn['meta'], data=sn['data'], ranges=sn['ranges'], refs=sn['refs'],
                tags={t: v for t, v in sn['tags'].items() if v}, classes=list(lgr.classes), rules=list(lgr.rules),
                actions=len(lgr.actions))


def parse(xml, force, db, allow):
    from lgr.parser.xml_parser import XMLParser
    p = XMLParser(io.BytesIO(xml), 'faulty.xml', force=force, allow_invalid_property=allow)
    if db:
        p.unicode_database = env.unidb()
    return p, p.parse_document()


def faults(ctx):
    from lgr.exceptions import LGRException, LGRFormatException
    rng = ctx.rng
    s = mk(rng)
    doc = Doc(s)
    names = [inject(rng, doc, s) for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2, 3]))]
    xml = doc.xml()
    ctx.show(dict(faults=names, xml=xml.decode()))
    for n in names:
        ctx.event('fault')
    for force in (False, True):
        db, allow = rng.random() < 0.5, rng.random() < 0.15
        exc, reason, exp = expect(doc, force, db, allow)
        d = lambda: '%s force %s db %s allow %s\n%s' % (names, force, db, allow, xml.decode())
        mode = 'tolerant' if force else 'strict'
        try:
            p, lgr = parse(xml, force, db, allow)
        except LGRException as e:
            got = type(e).__name__
            ctx.eq(got, exc, mode + '-exception', d)
            if reason is not None and isinstance(e, LGRFormatException):
                ctx.eq(e.reason, getattr(LGRFormatException.LGRFormatReason, reason), mode + '-reason', d)
            ctx.event(mode + '-refused')
            ctx.seen(mode, sorted(names), exc, reason)
            continue
        except Exception as e:
            ctx.fail(mode + '-crash', '%r %s' % (e, d()))
            continue
        if exc is not None:
            ctx.fail(mode + '-accepted', 'expected %s %s: %s' % (exc, reason, d()))
            continue
        got = content(lgr)
        want = {k: v for k, v in exp.items() if k != 'fails'}
        ctx.eq(spec.diff_snap(want, got), '', mode + '-content', d)
        res = p.rfc7940_checks.test_result
        ctx.eq({k for k, v in res.items() if not v}, exp['fails'], mode + '-checks', d)
        for k in ('parse_xml', 'char_ascending_order', 'char_strict_ascending_order', 'explicit_unicode_version'):
            ctx.check(k in res, mode + '-checks', lambda: '%s was not checked: %s' % (k, d()))
        ctx.eq('metadata_language' in res, bool(exp['meta']['languages']), mode + '-checks', d)
        ctx.check(lgr.metadata.rfc7940_checks is p.rfc7940_checks, mode + '-checks', d)
        ctx.eq(lgr.get_rfc7940_validation(), 'FAIL' if exp['fails'] else 'PASS', mode + '-validation', d)
        ctx.event(mode + '-parsed')
        if names:
            ctx.seen(mode, sorted(names), xml)
        if force and exp['fails']:
            ctx.event('recorded')


def reuse(ctx):
    """A parser can be asked the Unicode version, the schema validity and the LGR, again and in any order."""
    from lgr.parser.xml_parser import XMLParser
    rng = ctx.rng
    s = mk(rng)
    doc = Doc(s)
    faulty = rng.random() < 0.5
    if faulty:
        f = rng.choice(['dup', 'uv', 'none'])
        if f == 'dup' and any(not c.rng for c in doc.data):
            doc.data.append(spec.Ch(rng.choice([c for c in doc.data if not c.rng]).cp, comment='again'))
        elif f == 'uv':
            doc.meta = [m for m in doc.meta if m[0] != 'unicode-version'] + [('unicode-version', '7.x.1', [])]
    xml = doc.xml()
    _, _, exp = expect(doc, True, False, False)
    want = {k: v for k, v in exp.items() if k != 'fails'}
    schema = os.path.join(env.REPO, 'resources', 'lgr.rng')
    from lxml import etree
    valid = etree.RelaxNG(file=schema).validate(etree.fromstring(xml))
    log = []
    d = lambda: '%s\n%s' % (log, xml.decode())
    with tempfile.TemporaryDirectory(prefix='verif-c10-') as tmp:
        path = os.path.join(tmp, 'some.xml')
        with open(path, 'wb') as f:
            f.write(xml)
        kind = rng.choice(['path', 'Path', 'bytes', 'file'])
        source = {'path': lambda: path, 'Path': lambda: Path(path), 'bytes': lambda: io.BytesIO(xml),
                  'file': lambda: open(path, 'rb')}[kind]()
        p = XMLParser(source, *(() if kind in ('path', 'Path') else ('some.xml',)))
        log.append(kind)
        try:
            for _ in range(rng.randint(2, 5)):
                op = rng.choice(['unicode_version', 'validate', 'parse'])
                log.append(op)
                if op == 'unicode_version':
                    ctx.eq(p.unicode_version(), exp['meta']['unicode_version'], 'unicode-version', d)
                elif op == 'validate':
                    ctx.eq(p.validate_document(schema) is None, valid, 'schema', d)
                    ctx.eq(p.rfc7940_checks.test_result.get('schema'), valid, 'schema-check', d)
                else:
                    lgr = p.parse_document()
                    ctx.eq(lgr.name, 'some.xml', 'name', d)
                    ctx.eq(spec.diff_snap(want, content(lgr)), '', 'content', d)
                    ctx.event('parsed')
        finally:
            if hasattr(source, 'close'):
                source.close()
    ctx.seen(kind, tuple(log), f if faulty else None)


def catalogue(ctx):
    """Each fault of the rules section alone, at each place of a document."""
    from lgr.exceptions import LGRFormatException
    f = RULE_FAULTS[ctx.index % len(RULE_FAULTS)]
    rng = random.Random(ctx.index)
    s = mk(rng)
    doc = Doc(s)
    doc.rules.insert(0, ('class', 'known', '<class name="known">0061</class>', None, 'kept'))
    doc.rules.insert(rng.randint(1, len(doc.rules)), f)
    xml = doc.xml()
    for db in (False, True):
        for force in (False, True):
            exc, reason, exp = expect(doc, force, db, False)
            d = lambda: 'force %s db %s\n%s' % (force, db, f[2])
            try:
                p, lgr = parse(xml, force, db, False)
            except LGRFormatException as e:
                if ctx.check(reason is not None, 'rule-refused', d):
                    ctx.eq(e.reason, getattr(LGRFormatException.LGRFormatReason, reason), 'rule-reason', d)
                continue
            except Exception as e:
                ctx.fail('rule-crash', '%r %s' % (e, d()))
                continue
            if ctx.check(exc is None, 'rule-accepted', d):
                ctx.eq(spec.diff_snap({k: v for k, v in exp.items() if k != 'fails'}, content(lgr)), '', 'rule-content', d)
    ctx.event('catalogue')
    ctx.seen(f[2])


LISTS = re.compile(r'(?<=\s)(ref|tag|any-variant|all-variants|only-variants)="([^"]*)"')
MEMBERS = re.compile(r'(<class(?:\s[^<>]*[^/<>])?>)([0-9A-F -]+)(</class>)')
CPS = re.compile(r'(\scp=")([0-9A-F ]+)(")')


def lists(ctx):
    """The lists of references, tags and types may be separated by any number of spaces."""
    rng = ctx.rng
    s = mk(rng)
    xml = spec.to_xml(s)
    text = xml.decode() if isinstance(xml, bytes) else xml
    n = [0]

    def spread(m):
        parts = m.group(2).split(' ')
        n[0] += len(parts) > 1
        return '%s="%s"' % (m.group(1), rng.choice(['', ' ']) + ''.join(
            p + ' ' * rng.choice([1, 1, 2, 3]) for p in parts[:-1]) + parts[-1] + rng.choice(['', ' ']))
    spaced = LISTS.sub(spread, text)

    def wide(m):
        parts = m.group(2).split(' ')
        n[0] += len(parts) > 1
        blank = lambda some: ''.join(rng.choice(' \t\n') if rng.random() < 0.4 else ' ' for _ in range(rng.choice(some)))
        return m.group(1) + blank([0, 1]) + ''.join(p + blank([1, 1, 2, 3]) for p in parts[:-1]) + parts[-1] + \
            blank([0, 1]) + m.group(3)
    if rng.random() < 0.6:
        spaced = MEMBERS.sub(wide, spaced)
        spaced = CPS.sub(wide, spaced)
    if not n[0]:
        raise Skip()
    a = parse(text.encode(), rng.random() < 0.5, False, False)[1]
    b = parse(spaced.encode(), rng.random() < 0.5, False, False)[1]
    d = lambda: spaced
    ctx.eq(spec.diff_snap(content(a), content(b)), '', 'spaced-lists', d)
    key = lambda l: [(x.match, x.not_match, x.any_variant, x.all_variants, x.only_variants) for x in l.actions]
    ctx.eq(key(b), key(a), 'spaced-actions', d)
    members = lambda l: {str(n): (str(c), sorted(getattr(c, 'codepoints', None) or ())) for n, c in l.classes_lookup.items()}
    ctx.eq(members(b), members(a), 'spaced-classes', d)
    ctx.eq([str(r) for r in b.rules_lookup.values()], [str(r) for r in a.rules_lookup.values()], 'spaced-rules', d)
    ctx.event('lists', n[0])
    ctx.seen(spaced)


SCENARIOS = [Scenario('lists', lists, 400, 4000, need=('lists',)),
             Scenario('faults', faults, 4000, 30000,
                      need=('strict-refused', 'tolerant-parsed', 'tolerant-refused', 'strict-parsed', 'recorded')),
             Scenario('catalogue', catalogue, 3 * len(RULE_FAULTS), 30 * len(RULE_FAULTS), need=('catalogue',)),
             Scenario('reuse', reuse, 600, 6000, need=('parsed',))]
