"""C11: tables in the RFC 3743, RFC 4290 and one-per-line formats."""
import datetime
import io
import os
import tempfile
from pathlib import Path

from ..core import Scenario
from .. import env, gen, spec
from .c07 import Model, Refused, INVALID

RULE = ('random tables in the three text formats (sequences, variants, references, comments, titles, duplicate, '
        'refused and malformed entries), read from paths and streams with any line separator, strict or not, with '
        'and without Unicode database; non-trivial: a table with at least one accepted entry')
ASSUMPTIONS = ['code points are at most U+10FFFF', 'text lines that are not entries do not start with four '
               'hexadecimal digits']

POOL = [0x61, 0x62, 0x63, 0x64, 0xe9, 0x3b1, 0x4e00, 0x4e01, 0x3447, 0x20000, 0x30, 0x2d, 0x41, 0x2200]
WORDS = ['HYPHEN', 'small letter', 'GREEK ALPHA', 'Note: ok', '']
TITLES = ['Table of the registry', 'Language: ja', 'Registry x', 'Script Latn', 'URI http://example.com', '%', '-- x']


def prepare():
    env.unidb()


class Entry(object):
    def __init__(self, cp, ref=(), pref=(), var=(), bad=None):
        self.cp, self.ref, self.pref, self.var, self.bad = cp, list(ref), list(pref), list(var), bad


def rcp(rng):
    n = rng.choice([1, 1, 1, 1, 2, 3])
    return tuple(rng.choice(POOL) for _ in range(n))


def hexa(rng, cp, prefix):
    s = '%04X' % cp
    if rng.random() < 0.3:
        s = s.lower()
    if rng.random() < 0.1:
        s = s.zfill(6)
    return prefix + s


class Rfc4290(object):
    name = 'RFC4290Parser'

    def __init__(self, rng):
        self.lines = []
        self.calls = []
        self.discriminated = False
        for _ in range(rng.randint(1, 8)):
            self.noise(rng)
            self.entry(rng)

    def noise(self, rng):
        for _ in range(rng.choice([0, 0, 1, 2])):
            self.lines.append(rng.choice(['', '# comment U+0078|U+0079', '# 0078;0079;', '   ', rng.choice(TITLES), '#']))

    def cp(self, rng, cp):
        return '-'.join(hexa(rng, c, 'U+') for c in cp)

    def entry(self, rng):
        cp = rcp(rng)
        variants = [rcp(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        s = self.cp(rng, cp)
        bad = rng.random()
        if bad < 0.12:
            s += rng.choice(['-', '-x', '-U+', '-0061', '-U+61'])
        else:
            self.calls.append(('cp', cp, None))
        if variants:
            self.discriminated = True
            parts = []
            for v in variants:
                t = self.cp(rng, v)
                if rng.random() < 0.1:
                    t = rng.choice(['', 'x', 'U+', 'U+12', t + '-', t + '-x', 'zz' + t])
                elif bad >= 0.12:
                    self.calls.append(('var', cp, v, None, None))
                parts.append(t)
            s += '|' + ':'.join(parts)
        if rng.random() < 0.4:
            s += rng.choice([' ', '\t', '  ']) + '#' + rng.choice(WORDS) + rng.choice(['', ' U+0064 | U+0063', ' # x', '; U+0064', ' ;'])
        self.lines.append(rng.choice(['', '', ' ']) + s)


class Rfc3743(Rfc4290):
    name = 'RFC3743Parser'

    def __init__(self, rng):
        self.refs = []
        self.prefix = rng.choice(['', 'U+', 'mix'])
        self.header = []
        lines = self.lines = []
        self.calls = []
        for _ in range(rng.choice([0, 1, 3, 12])):
            k = rng.choice([str(rng.randint(0, 9)), str(rng.randint(0, 120))])
            value, comment = rng.choice(['Unicode 3.2', 'CP936', 'x']), rng.choice([None, 'see [1]', 'a # b'])
            lines.append('Reference%s%s%s%s%s' % (rng.choice([' ', '  ', '\t']), k, rng.choice([' ', '\t']), value,
                                                 '' if comment is None else rng.choice([' ', '']) + '#' + rng.choice(
                                                     ['', ' ']) + comment))
            self.refs.append(k)
            self.calls.append(('ref', k, value, comment))
            self.noise(rng)
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                no = str(rng.choice([1, 2, 10, 123]))
                ok = rng.random() < 0.8
                y, m, d = rng.randint(1990, 2030), rng.randint(1, 12), rng.randint(1, 28)
                if not ok:
                    m = rng.choice([0, 13, 99])
                comment = rng.choice([None, 'first', ''])
                lines.append('Version %s %04d%02d%02d%s' % (no, y, m, d, '' if comment is None else ' # ' + comment))
                self.calls.append(('version', no, '%04d-%02d-%02d' % (y, m, d) if ok else None, comment))
        self.discriminated = False
        for _ in range(rng.randint(1, 8)):
            self.noise(rng)
            self.entry(rng)

    def cp(self, rng, cp):
        p = self.prefix if self.prefix != 'mix' else rng.choice(['', 'U+'])
        return ' '.join(hexa(rng, c, p) for c in cp)

    def rlist(self, rng):
        pool = self.refs + ['99']
        refs = [rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        if rng.random() < 0.7:
            refs = [r for i, r in enumerate(refs) if r != '99' and r not in refs[:i]]
        return refs

    def full(self, rng, cp, refs):
        sp = rng.choice(['', '', '', ' '])
        return self.cp(rng, cp) + (sp + '(%s)' % ','.join(refs) if refs else '')

    def field(self, rng, cp, type, bad):
        variants = [rcp(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        out = []
        for v in variants:
            if rng.random() < 0.08:
                out.append(rng.choice(['zz', '-', '', '12', 'U+']))
                continue
            refs = self.rlist(rng)
            out.append(self.full(rng, v, refs))
            if not bad:
                self.calls.append(('var', cp, v, type, refs))
        return rng.choice([',', ',', ', ', ' , ']).join(out)

    def entry(self, rng):
        cp = rcp(rng)
        refs = self.rlist(rng)
        s = self.full(rng, cp, refs)
        if not s.startswith('U+'):
            self.discriminated = True
        bad = rng.random() < 0.12
        if bad:
            # not exactly one code point or sequence
            s += ',' + self.full(rng, rcp(rng), [])
        else:
            self.calls.append(('cp', cp, refs))
        n = rng.choice([1, 2, 3, 3, 3])
        for type in (['activated', None])[:n - 1]:
            s += rng.choice(['', '', ' ']) + ';' + rng.choice(['', '', ' ']) + self.field(rng, cp, type, bad)
            self.discriminated = True
        if rng.random() < 0.3:
            s += rng.choice(['', ' ']) + ';'
            self.discriminated = True
        if rng.random() < 0.4:
            s += rng.choice([' ', '\t']) + '#' + rng.choice(WORDS) + rng.choice(['', ' ; 0064', ' # x', ' | U+0064'])
        self.lines.append(rng.choice(['', '', ' ']) + s)


class Line(Rfc4290):
    name = 'LineParser'

    def entry(self, rng):
        cp = rcp(rng)
        self.calls.append(('cp', cp, None))
        self.lines.append(rng.choice(['', ' ']) + rng.choice([' ', '', ', ', '-']).join(
            hexa(rng, c, 'U+').zfill(6) for c in cp) + rng.choice(['', ' # letter', ' LETTER']))


def expected(table, force, idna, allow):
    """(model, references, version, date)"""
    m = Model(idna, allow)
    refs, version, date = [], None, None
    ok = 0
    for call in table.calls:
        try:
            if call[0] == 'cp':
                m.add_cp(call[1], None, call[2], None, None, None, False, False, force)
                ok += 1
            elif call[0] == 'var':
                m.add_variant(call[1], call[2], call[3], None, None, None, call[4], False, False, force)
                ok += 1
            elif call[0] == 'ref':
                if call[1] not in m.refs:
                    m.refs.append(call[1])
                    refs.append(call[1:])
            else:
                version = (call[1], call[3])
                date = call[2] or date
        except Refused:
            pass
    return m, refs, version, date, ok


def observe(ctx, lgr, exp, d):
    m, refs, version, date, _ = exp
    got = spec.snap_data(lgr)
    want = {cp: c.full() for cp, c in m.chars.items()}
    if got != want:
        keys = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        ctx.fail('content', 'differs at %s: got %s expected %s; %s' % (keys[:3], [got.get(k) for k in keys[:3]],
                                                                       [want.get(k) for k in keys[:3]], d()))
    ctx.evaluated()
    ctx.eq([(k, v.strip(), c or None) for k, v, c in spec.snap_refs(lgr)], [(k, v, c or None) for k, v, c in refs],
           'references', d)
    got = lgr.metadata.version
    ctx.eq(None if got is None else (got.value, got.comment or None), version and (version[0], version[1] or None),
           'version', d)
    ctx.eq(lgr.metadata.date, date, 'date', d)


def table(ctx):
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.line_parser import LineParser
    from lgr.parser.rfc3743_parser import RFC3743Parser
    from lgr.parser.rfc4290_parser import RFC4290Parser
    rng = ctx.rng
    kind = rng.choice([Rfc4290, Rfc3743, Rfc3743, Line])
    t = kind(rng)
    cls = {'RFC4290Parser': RFC4290Parser, 'RFC3743Parser': RFC3743Parser, 'LineParser': LineParser}[t.name]
    force = rng.random() < 0.5
    db = rng.choice([None, None, env.idnadb('6.3.0'), env.unidb()])
    allow = db is not None and rng.random() < 0.3
    exp = expected(t, force and kind is not Line, None if db is None else INVALID | {0x2200}, allow)
    heuristic = kind is not Line and t.discriminated or (kind is Rfc4290)
    eol = rng.choice(['\n', '\r\n', '\r'])
    text = eol.join(t.lines) + rng.choice(['', eol])
    d = lambda: '%s force %s db %s allow %s\n%s' % (log, force, db is not None, allow, '\n'.join(t.lines))
    log = [t.name, repr(eol)]
    with tempfile.TemporaryDirectory(prefix='verif-c11-') as tmp:
        path = os.path.join(tmp, 'table.txt')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        sources = [('path', lambda: path), ('Path', lambda: Path(path)), ('file', lambda: open(path, encoding='utf-8')),
                   ('str', lambda: io.StringIO(text, newline=None))]
        todo = [(cls, rng.choice(sources))]
        if heuristic:
            todo.append((HeuristicParser, rng.choice(sources + [('bytes', lambda: io.BytesIO(text.encode())),
                                                               ('binary', lambda: open(path, 'rb'))])))
        content = []
        for parser, (sname, source) in todo:
            log[2:] = [parser.__name__, sname]
            src = source()
            try:
                p = parser(src, None if sname in ('path', 'Path') else 'table.txt', force=force,
                           allow_invalid_property=allow)
                if db is not None:
                    p.unicode_database = db
                ops = []
                for _ in range(rng.choice([0, 0, 1, 2]) if parser is HeuristicParser else 0):
                    ops.append(rng.choice(['validate', 'version']))
                    if ops[-1] == 'validate':
                        ctx.check(p.validate_document() in (None, True), 'validate', d)
                    else:
                        ctx.eq(p.unicode_version(), '', 'unicode-version', d)
                log.append(ops)
                lgr = p.parse_document()
            finally:
                if hasattr(src, 'close'):
                    src.close()
            if parser is HeuristicParser:
                ctx.eq(type(p.lgr_parser).__name__, t.name, 'parser-chosen', d)
                ctx.event('heuristic-' + t.name)
            ctx.eq(lgr.name, 'table.txt', 'name', d)
            ctx.check(lgr.unicode_database is db, 'unicode-database', d)
            observe(ctx, lgr, exp, d)
            content.append(lgr)
    if exp[-1]:
        ctx.event('accepted', exp[-1])
        ctx.seen(tuple(t.lines), force, db is None)
        ctx.show(t.lines[:10])
    if exp[-1] < sum(c[0] in ('cp', 'var') for c in t.calls):
        ctx.event('refused')
    if exp[-1] and len(content[0].repertoire) and rng.random() < 0.4:
        # the table can be published as an LGR document and used as such
        from lgr.parser.xml_serializer import serialize_lgr_xml
        from lgr.parser.xml_parser import XMLParser
        xml = serialize_lgr_xml(content[0])
        p = XMLParser(io.BytesIO(xml), 'table.txt', force=force)
        back = p.parse_document()
        observe(ctx, back, exp, lambda: 'published ' + d())
        ctx.event('published')


def dispatch(ctx):
    """An LGR document given to the heuristic parser is read as the XML parser does."""
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.xml_parser import XMLParser
    rng = ctx.rng
    s = gen.gen_lgr(rng)
    xml = spec.to_xml(s)
    if isinstance(xml, str):
        xml = xml.encode()
    decl = rng.choice([b'<?xml version="1.0" encoding="utf-8"?>\n', b'<?xml version="1.0"?>', b''])
    xml = xml[xml.index(b'<lgr'):]
    lead = rng.choice([b'', b'', b'\n', b'<!-- U+0061;U+0062 -->\n'])
    name = rng.choice(['doc.xml', 'doc.txt', 'doc'])
    if lead and not decl:
        # nothing on the first line says that it is XML
        name = 'doc.xml'
    doc = decl + (lead if decl or lead != b'\n' else b'') + xml
    ref = XMLParser(io.BytesIO(doc), name).parse_document()
    d = lambda: '%s %s\n%s' % (name, log, doc.decode())
    with tempfile.TemporaryDirectory(prefix='verif-c11-') as tmp:
        path = os.path.join(tmp, name)
        with open(path, 'wb') as f:
            f.write(doc)
        kind = rng.choice(['path', 'Path', 'bytes', 'file'])
        log = [kind]
        src = {'path': lambda: path, 'Path': lambda: Path(path), 'bytes': lambda: io.BytesIO(doc),
               'file': lambda: open(path, 'rb')}[kind]()
        try:
            p = HeuristicParser(src, None if kind in ('path', 'Path') else name)
            db = rng.choice([None, env.unidb()])
            if db is not None:
                p.unicode_database = db
            for _ in range(rng.choice([0, 0, 1, 2])):
                log.append(rng.choice(['validate', 'version']))
                if log[-1] == 'validate':
                    schema = os.path.join(env.REPO, 'resources', 'lgr.rng')
                    x = XMLParser(io.BytesIO(doc), name)
                    ctx.eq(p.validate_document(schema) is None, x.validate_document(schema) is None, 'xml-validate', d)
                else:
                    ctx.eq(p.unicode_version(), ref.metadata.unicode_version, 'xml-unicode-version', d)
            lgr = p.parse_document()
            ctx.check(lgr.unicode_database is db, 'unicode-database', d)
            ctx.check(type(p.lgr_parser) is XMLParser, 'parser-chosen', d)
            ctx.eq(spec.diff_snap(spec.snapshot(ref), spec.snapshot(lgr)), '', 'xml-content', d)
        finally:
            if hasattr(src, 'close'):
                src.close()
    ctx.event('dispatched')
    ctx.seen(doc)


def corpus(ctx):
    """The tables of the repository."""
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.xml_serializer import serialize_lgr_xml
    import re
    base = os.path.join(env.REPO, 'tests', 'inputs', 'parser')
    for f, n in (('rfc3743_jpan.txt', 'RFC3743Parser'), ('rfc3743_tw.txt', 'RFC3743Parser'),
                 ('rfc4290_de.txt', 'RFC4290Parser')):
        p = HeuristicParser(os.path.join(base, f), force=bool(ctx.index % 2))
        lgr = p.parse_document()
        ctx.eq(type(p.lgr_parser).__name__, n, 'parser-chosen', f)
        cps = set()
        with open(os.path.join(base, f), encoding='utf-8') as h:
            for line in h:
                m = re.match(r'\s*(?:U\+)?([0-9A-Fa-f]{4,6})(?=[|;(#\s]|$)', line)
                if m:
                    cps.add((int(m.group(1), 16),))
        ctx.eq({c.cp for c in lgr.repertoire}, cps, 'corpus-content', f)
        ctx.check(len(serialize_lgr_xml(lgr)) > 100, 'corpus-xml', f)
        ctx.event('corpus')
        ctx.seen(f)


SCENARIOS = [Scenario('table', table, 6000, 80000,
                      need=('accepted', 'refused', 'published', 'heuristic-RFC4290Parser', 'heuristic-RFC3743Parser')),
             Scenario('dispatch', dispatch, 400, 4000, need=('dispatched',)),
             Scenario('corpus', corpus, 2, 2, need=('corpus',))]
