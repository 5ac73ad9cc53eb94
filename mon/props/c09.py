"""C09: XML round trip."""
import glob
import io
import os
import xml.etree.ElementTree as ET

from ..core import Scenario, Skip
from .. import env, gen, spec

RULE = ('random LGRs (metadata, references, comments, tags, ranges, sequences, contextual variants, classes, rules, '
        'actions) loaded from XML or built through the API, and the XML documents of the repository, serialized with all '
        'the options and read back; non-trivial: a document with variants and rules')
ASSUMPTIONS = ['rules, classes and actions are kept by the LGR as XML text: an action or rule added through the API without '
               'its XML is not serialized, so rules come from documents']
NSP = '{%s}' % spec.NS


def prepare():
    gen.COMP = 0.15
    env.unidb()


def canon(xml):
    """An XML fragment, whitespace apart."""
    def rec(e):
        tag = e.tag.replace(NSP, '')
        return (tag, tuple(sorted(e.attrib.items())), ' '.join((e.text or '').split()), tuple(rec(c) for c in e))
    return rec(ET.fromstring(xml) if not isinstance(xml, ET.Element) else xml)


def snap(lgr):
    s = spec.snapshot(lgr)
    for k in ('rules_xml', 'classes_xml', 'actions_xml'):
        s[k] = [canon(x) for x in s[k]]
    # an empty tag class is left behind by deletions
    s['tags'] = {t: v for t, v in s['tags'].items() if v}
    return s


def read(data):
    """Independent reader of the data and meta sections."""
    root = ET.fromstring(data)
    assert root.tag == NSP + 'lgr', root.tag
    chars = []
    lst = lambda e, k: tuple(e.get(k).split(' ')) if e.get(k) else ()
    cps = lambda x: tuple(int(c, 16) for c in x.split())
    for e in root.find(NSP + 'data'):
        vs = tuple(sorted(((cps(v.get('cp')), v.get('type'), v.get('when'), v.get('not-when'), v.get('comment'),
                            lst(v, 'ref')) for v in e), key=repr))
        rest = lambda cp, rng: (cp, e.get('when'), e.get('not-when'), lst(e, 'tag'), e.get('comment'), lst(e, 'ref'),
                                rng, vs)
        if e.tag == NSP + 'range':
            a, b = int(e.get('first-cp'), 16), int(e.get('last-cp'), 16)
            for c in range(a, b + 1):
                chars.append(rest((c,), (a, b)))
        else:
            chars.append(rest(cps(e.get('cp')), None))
    m = root.find(NSP + 'meta')
    one = lambda k: m.find(NSP + k).text if m.find(NSP + k) is not None else None
    v, dsc = m.find(NSP + 'version'), m.find(NSP + 'description')
    meta = dict(version=None if v is None else (v.text, v.get('comment')), date=one('date'),
                languages=[e.text for e in m.findall(NSP + 'language')],
                scopes=[(e.text, e.get('type')) for e in m.findall(NSP + 'scope')],
                validity_start=one('validity-start'), validity_end=one('validity-end'),
                unicode_version=one('unicode-version'),
                description=None if dsc is None else (dsc.text, dsc.get('type')))
    refs = [(e.get('id'), e.text, e.get('comment')) for e in m.iter(NSP + 'reference')]
    rules = root.find(NSP + 'rules')
    return dict(chars=chars, meta=meta, refs=refs, rules=[canon(e) for e in (rules if rules is not None else ())])


def expected(s):
    return dict(meta=s.meta, refs=s.refs, data=spec.spec_data(s))


def schema():
    from lxml import etree
    global _SCHEMA
    if '_SCHEMA' not in globals():
        _SCHEMA = etree.RelaxNG(file=os.path.join(env.REPO, 'resources', 'lgr.rng'))
    return _SCHEMA


def serialize(lgr, rng):
    """(bytes or str, parsed again)"""
    from lgr.parser.xml_serializer import serialize_lgr_xml
    enc = rng.choice(['utf-8', 'ascii', 'utf-16', 'iso-8859-1'])
    pp = rng.random() < 0.5
    if enc == 'utf-8' and rng.random() < 0.3:
        out = serialize_lgr_xml(lgr, pretty_print=pp)
    else:
        out = serialize_lgr_xml(lgr, pretty_print=pp, encoding=enc)
    return out


def valid(xml):
    from lxml import etree
    return schema().validate(etree.fromstring(xml))


def roundtrip(ctx, lgr, s, d):
    rng = ctx.rng
    before = snap(lgr)
    out = serialize(lgr, rng)
    dd = lambda: 'output %r\n%s' % (out[:3000], d())
    ctx.eq(spec.diff_snap(before, snap(lgr)), '', 'serialization-changes-lgr', dd)
    # what the document says
    if s is not None:
        doc = read(out)
        exp = expected(s)
        ctx.eq(doc['meta'], exp['meta'], 'written-meta', dd)
        ctx.eq(doc['refs'], exp['refs'], 'written-references', dd)
        ctx.eq(len(doc['chars']), len(exp['data']), 'written-char-count', dd)
        ctx.eq({c[0]: c for c in doc['chars']}, exp['data'], 'written-data', dd)
        order = [c[0] for c in doc['chars'] if not c[6] or c[6][0] == c[0][0]]
        ctx.eq(order, sorted(order), 'written-order', dd)
        ctx.eq(doc['rules'], [canon(spec.class_xml(a, name=n)) for n, a in s.classes] +
               [canon(spec.rule_xml(n, b)) for n, b in s.rules] + [canon(spec.action_xml(a)) for a in s.actions],
               'written-rules', dd)
    if s is not None:
        # as valid as the source
        exp = valid(spec.to_xml(s))
        ctx.eq(valid(out), exp, 'schema', lambda: '%s %s' % (schema().error_log, dd()))
        ctx.event('schema-valid' if exp else 'schema-invalid')
        # the library's own answer
        from lgr.validate.xml_validity import check_xml_validity
        ok, res = check_xml_validity(lgr, {'rng_filepath': os.path.join(env.REPO, 'resources', 'lgr.rng')})
        ctx.eq((ok, res['rng_result']), (exp, exp), 'xml-validity', dd)
    # what is read back, strictly when the LGR is well formed
    back = spec.load(out, force=s is None, name=lgr.name)
    ctx.eq(spec.diff_snap(before, snap(back)), '', 'round-trip', dd)
    # same through a file and a text stream
    again = serialize(back, rng)
    ctx.eq(canon(again), canon(out), 'second-serialization', dd)
    return back


def behave(ctx, lgr, back, s, d):
    labels = [gen.gen_label(ctx.rng, s, 4, noise=0) for _ in range(3)]
    for l in labels:
        a = lgr.test_label_eligible(l)[:5]
        b = back.test_label_eligible(l)[:5]
        ctx.eq(b, a, 'behaviour-eligibility', d)
        if a[0]:
            va = list(lgr.compute_label_disposition(l, include_invalid=True, collect_log=False))
            vb = list(back.compute_label_disposition(l, include_invalid=True, collect_log=False))
            ctx.eq(sorted(v[0] for v in vb), sorted(v[0] for v in va), 'behaviour-variants', d)


def mk(rng, **kw):
    k = dict(refs=True, comments=True, meta=True, astral=True, rules=(0, 2), actions=(0, 3), untyped=0.2,
             context=rng.choice([0, 0.4]))
    k.update(kw)
    return gen.gen_lgr(rng, **k)


def from_xml(ctx):
    rng = ctx.rng
    s = mk(rng)
    xml = spec.to_xml(s)
    d = lambda: 'input %s' % xml.decode()
    lgr = spec.load(xml, force=False, name='doc.xml')
    # what was read
    before = spec.snapshot(lgr)
    ctx.eq(before['data'], spec.spec_data(s), 'read-data', d)
    ctx.eq(before['meta'], s.meta, 'read-meta', d)
    ctx.eq(before['refs'], s.refs, 'read-references', d)
    ctx.eq(before['actions'], [a.full() for a in s.actions], 'read-actions', d)
    ctx.eq(before['rules'], [n for n, _ in s.rules], 'read-rules', d)
    ctx.eq(before['classes'], [n for n, _ in s.classes], 'read-classes', d)
    ctx.eq(before['tags'], {t: frozenset(v) for t, v in s.tags().items()}, 'read-tags', d)
    back = roundtrip(ctx, lgr, s, d)
    if s.rules and s.types():
        ctx.seen(xml)
    ctx.show(dict(xml=xml.decode()))
    if rng.random() < 0.4:
        lgr._unicode_database = back._unicode_database = env.unidb()
        behave(ctx, lgr, back, s, d)
        ctx.event('behaviour')


def from_api(ctx):
    """Built in a random order, then edited."""
    from .c08 import edit
    rng = ctx.rng
    s = mk(rng)
    lgr = spec.build_api(s, rng, None)
    log = []
    for _ in range(rng.randint(0, 6)):
        before = s.clone()
        for _ in range(20):
            # edits of what the LGR keeps as text are not serialized
            c = s.clone()
            st = rng.getstate()
            op = edit(ctx, _Null(), c)
            rng.setstate(st)
            if op.split()[0] not in ('rule', 'class', 'add', 'del'):
                log.append(edit(ctx, lgr, s))
                break
            rng.random()
    if not s.chars:
        raise Skip()
    d = lambda: 'edits %s\n%s' % (log, spec.to_xml(s).decode())
    ctx.eq(spec.snap_data(lgr), spec.spec_data(s), 'built-data', d)
    roundtrip(ctx, lgr, s, d)
    ctx.event('api')
    ctx.seen(log, spec.to_xml(s))


class _Null(object):
    """An LGR that only says yes."""
    class _L(list):
        def __delitem__(self, i):
            pass
    actions = _L()

    def __getattr__(self, k):
        return lambda *a, **kw: True


def sources(ctx):
    """Same document as a path, a stream or bytes, whatever the order of its elements."""
    import tempfile
    from lgr.parser.xml_parser import XMLParser
    rng = ctx.rng
    s = mk(rng)
    order = list(s.chars)
    rng.shuffle(order)
    xml = spec.to_xml(s, order=order)
    ok = valid(xml)
    ref = snap(spec.load(spec.to_xml(s), force=False, name='a.xml'))
    d = lambda: xml.decode()
    with tempfile.TemporaryDirectory(prefix='verif-c09-') as tmp:
        path = os.path.join(tmp, 'a.xml')
        with open(path, 'wb') as f:
            f.write(xml)
        p = XMLParser(path, force=False)
        ctx.eq(p.unicode_version(), s.meta['unicode_version'], 'unicode-version', d)
        ctx.eq(spec.diff_snap(ref, snap(p.parse_document())), '', 'path', d)
        ctx.eq(p.validate_document(os.path.join(env.REPO, 'resources', 'lgr.rng')) is None, ok, 'validate-document', d)
        with open(path, 'rb') as f:
            p = XMLParser(f, 'a.xml', force=False)
            ctx.eq(p.unicode_version(), s.meta['unicode_version'], 'unicode-version', d)
            ctx.eq(p.validate_document(os.path.join(env.REPO, 'resources', 'lgr.rng')) is None, ok, 'validate-document', d)
            f.seek(0)
            ctx.eq(spec.diff_snap(ref, snap(p.parse_document())), '', 'file', d)
            # the parser leaves the stream ready for another reading
            ctx.eq(spec.diff_snap(ref, snap(p.parse_document())), '', 'file-again', d)
    # comments and indentation do not matter
    text = xml.decode()
    for tag in ('<char', '<var', '<rule', '<class', '<action', '<language', '<any', '<reference '):
        if rng.random() < 0.5:
            text = text.replace(tag, rng.choice(['<!-- c -->', '\n  ', '<?pi a="b"?>', '\n<!-- <char cp="0078"/> -->\n']) + tag)
    ctx.eq(spec.diff_snap(ref, snap(spec.load(text.encode(), force=False, name='a.xml'))), '', 'layout', lambda: text)
    ctx.event('sources')
    # the meta and rules elements are optional
    bare = s.clone()
    bare.meta = spec.Spec().meta
    bare.refs = []
    for c in bare.chars.values():
        c.ref = []
        for v in c.vars:
            v.ref = []
    text = spec.to_xml(bare).decode()
    text = text[:text.index('<meta>')] + text[text.index('</meta>') + 7:]
    p = XMLParser(io.BytesIO(text.encode()), 'b.xml', force=False)
    ctx.eq(p.unicode_version(), '6.3.0', 'unicode-version-default', lambda: text)
    lgr = p.parse_document()
    ctx.eq(spec.snap_data(lgr), spec.spec_data(bare), 'no-meta', lambda: text)
    ctx.eq(spec.snap_meta(lgr), bare.meta, 'no-meta', lambda: text)
    ctx.seen(xml)


CORPUS = []


def corpus(ctx):
    """The documents shipped with the repository."""
    if not CORPUS:
        for root in ('resources', 'tests'):
            CORPUS.extend(glob.glob(os.path.join(env.REPO, root, '**', '*.xml'), recursive=True))
        CORPUS.sort()
    path = CORPUS[ctx.index % len(CORPUS)]
    if os.path.getsize(path) > 600000:
        raise Skip()
    with open(path, 'rb') as f:
        data = f.read()
    try:
        lgr = spec.load(data, name=os.path.basename(path))
    except Exception:
        ctx.event('unreadable')     # invalid on purpose
        return
    if lgr is None:
        raise Skip()
    roundtrip(ctx, lgr, None, lambda: path)
    ctx.event('corpus')
    ctx.seen(path)


SCENARIOS = [Scenario('xml', from_xml, 1200, 12000, need=('schema-valid', 'behaviour')),
             Scenario('api', from_api, 2400, 24000, need=('schema-valid', 'api')),
             Scenario('sources', sources, 1200, 12000, need=('sources',)),
             Scenario('corpus', corpus, 240, 400, need=('corpus',))]
