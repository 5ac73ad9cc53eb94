"""C35: logging observes, it does not change anything, and every record can be written."""
import copy
import io
import logging

from lxml import etree

from ..core import Scenario
from .. import env, gen, ops, spec
from . import c10
from lgr.parser.xml_parser import XMLParser
from lgr.populate import populate_lgr
from lgr.tools.compare.union import union_lgrs
from lgr.tools.compare.intersect import intersect_lgrs
from lgr.validate import validate_lgr

RULE = ('each operation of the catalogue is run on the same random inputs with logging off, at the default level, and with '
        'every logger of the library at DEBUG and a handler that formats each record and the repr of its arguments; '
        'results are compared and every record must format; non-trivial: an operation during which records were written')
ASSUMPTIONS = ['the logger of rules is left at the same level: its records are part of some results']


class Format(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.n = 0
        self.places = set()
        self.bad = []
        self.fmt = logging.Formatter('%(asctime)s %(levelname)s %(name)s %(message)s')

    def emit(self, record):
        self.n += 1
        self.places.add((record.pathname, record.lineno))
        try:
            text = self.fmt.format(record)
            # what collectors of errors do
            repr(record.args)
            text.encode('utf-8', 'backslashreplace')
        except Exception as e:
            self.bad.append('%s:%s %r: %r' % (record.pathname.replace(env.REPO, ''), record.lineno, record.msg, e))

    def handle(self, record):
        self.emit(record)


def loggers():
    out = [logging.getLogger('lgr')]
    for name, l in list(logging.Logger.manager.loggerDict.items()):
        if isinstance(l, logging.Logger) and (name.split('.')[0].startswith('lgr') or name in ('header',) or
                                              name.startswith(('rfc7940', 'make_idna', 'xml_dump', 'tool_'))):
            if l not in out and name != 'lgr-rule-logger':
                out.append(l)
    return out


def prepare():
    ops.prepare()


def watched(f, rules):
    """Result of f with every logger at DEBUG."""
    h = Format()
    root = logging.getLogger()
    ls = loggers()
    if rules:
        ls.append(logging.getLogger('lgr-rule-logger'))
    old = [(l, l.level) for l in ls]
    for l in ls:
        l.setLevel(logging.DEBUG)
    root.addHandler(h)
    try:
        return ops.run(f), h
    finally:
        root.removeHandler(h)
        for l, lv in old:
            l.setLevel(lv)


# results that contain the log of the rules
LOGGED = {'collisions', 'labels_in_two', 'simple_collisions', 'annotated', 'annotated_set', 'tools'}


def observer(ctx):
    rng = ctx.rng
    kinds = sorted(ops.OPS)
    name = kinds[ctx.index % len(kinds)]
    f = ops.OPS[name](rng)
    d = lambda: 'operation %s' % name
    state = lambda: [(l.name, l.level, l.disabled, l.propagate, list(l.handlers), list(l.filters))
                     for l in [logging.getLogger(), logging.getLogger('lgr-rule-logger')] + loggers()]
    base = ops.run(f)
    first = state()
    logging.disable(logging.CRITICAL)
    try:
        off = ops.run(f)
    finally:
        logging.disable(logging.NOTSET)
    ctx.eq(off, base, 'off-' + name, d)
    on, h = watched(f, name not in LOGGED)
    ctx.eq(on, base, 'debug-' + name, d)
    ctx.check(not h.bad, 'record', lambda: '%s; %s' % (h.bad[:3], d()))
    if name != 'tools':
        last = state()
        ctx.eq(last[:len(first)], first, 'loggers-left', d)
    ctx.event('records', h.n)
    ctx.event('%s-%s' % (name, 'logged' if h.n else 'silent'))
    for p in h.places:
        ctx.seen(p)
    if h.n:
        ctx.seen(name, base[0], h.n)
        ctx.event('compared')


TEXTS = ['%', '%s', '%d', '%(anchor)s', '%(x)d', '%%', '{}', '{0}', '{x}', '100%', '%\u0627', '\u202e', '%z', '\U0001f600']
NUMERIC = {'cp', 'first-cp', 'last-cp', 'count'}


def rename(rng, xml):
    """The document with texts that mean something to a formatter."""
    root = etree.fromstring(xml)
    known = {}
    consistent = rng.random() < 0.6
    p = rng.choice([0.05, 0.3, 1])
    for e in list(root.iter()):
        if not isinstance(e.tag, str):
            continue
        for k, v in list(e.attrib.items()):
            if rng.random() < (p if k not in NUMERIC else 0.02):
                if consistent and v in known:
                    e.attrib[k] = known[v]
                else:
                    t = rng.choice(TEXTS)
                    e.attrib[k] = known[v] = rng.choice([t, v + t, t + v])
            elif consistent and v in known:
                e.attrib[k] = known[v]
            if rng.random() < 0.01:
                del e.attrib[k]
        if e.text and e.text.strip() and rng.random() < 0.2:
            e.text = rng.choice([rng.choice(TEXTS), e.text + rng.choice(TEXTS)])
        if rng.random() < 0.01 and e is not root:
            e.tag = e.tag + rng.choice(['s', '-x'])
        if rng.random() < 0.01 and e.getparent() is not None:
            e.getparent().remove(e)
    return etree.tostring(root, encoding='utf-8')


def hostile(ctx):
    rng = ctx.rng
    s = gen.gen_lgr(rng, refs=True, comments=True, meta=True, rules=(0, 4), actions=(0, 4))
    xml = rename(rng, spec.to_xml(s))
    other = rename(rng, spec.to_xml(gen.gen_lgr(rng)))
    label = gen.gen_label(rng, s)
    name = rng.choice(['lgr', 'a%s', '%', '{}', '%(x)s.xml'])
    force, db, calls = rng.random() < 0.8, rng.random() < 0.7, [rng.random() < 0.5 for _ in range(6)]
    text = rng.choice(TEXTS)

    def tried(f, *args, **kw):
        try:
            return f(*args, **kw)
        except Exception as e:
            return type(e).__name__

    def f():
        db_ = env.unidb()
        p = XMLParser(io.BytesIO(xml), name, force=force)
        if db:
            p.unicode_database = db_
        lgr = p.parse_document()
        if not db:
            lgr.unicode_database = db_
        out = [lgr]
        if calls[0]:
            out.append(tried(validate_lgr, lgr, {'unidb': db_, 'rng_filepath': None}))
        if calls[1]:
            out.append(tried(lambda: lgr.test_label_eligible(label)[:5]))
            out.append(tried(lambda: lgr.generate_index_label(label)))
        if calls[2]:
            o = tried(lambda: XMLParser(io.BytesIO(other), text, force=True).parse_document())
            if not isinstance(o, str):
                out += [tried(union_lgrs, lgr, o), tried(intersect_lgrs, lgr, o)]
        if calls[3]:
            c = copy.deepcopy(lgr)
            out += [tried(populate_lgr, c), c]
        if calls[4]:
            for a, kw in ((('add_cp', 0x61), dict(tag=[text], ref=[text], comment=text)),
                          (('add_range', 0x62, 0x66), dict(tag=[text, text], ref=[text])),
                          (('add_cp', 0x61), dict(when=text, not_when=text)),
                          (('add_variant', 0x61, 0x62), dict(variant_type=text, when=text, ref=[text])),
                          (('del_cp', 0x11), {}), (('del_variant', 0x61, 0x62), dict(when=text)),
                          (('del_reference', text), {}), (('add_reference', text), dict(ref_id=text)),
                          (('add_reference', text), dict(ref_id=text)), (('expand_range', 0x71, 0x72), {}),
                          (('del_range', 0x72, 0x71), {}), (('del_tag', text), {}),
                          (('expand_ranges',), {}), (('add_variant', 0x10, 0x11), {})):
                if hasattr(lgr, a[0]):
                    out.append(tried(getattr(lgr, a[0]), *a[1:], **kw))
        if calls[5]:
            m = lgr.metadata
            for a in ('add_language', 'set_date', 'set_validity_start', 'set_validity_end', 'set_unicode_version'):
                out += [tried(getattr(m, a), text, force=x) for x in (True, False) if hasattr(m, a)]
        return out

    base = ops.run(f)
    on, h = watched(f, True)
    d = lambda: repr(xml)
    ctx.eq(on, base, 'debug-hostile', d)
    ctx.check(not h.bad, 'record', lambda: '%s; %s' % (h.bad[:3], d()))
    for p in h.places:
        ctx.seen(p)
    ctx.event('records', h.n)
    ctx.event('hostile-' + base[0])


SCENARIOS = [Scenario('observer', observer, 1500, 40000, need=['compared'] + [k + '-logged' for k in (
    'union', 'intersection', 'merge', 'harmonize', 'collisions', 'annotated', 'populate', 'validation', 'stats', 'review',
    'faulty', 'dispositions', 'tools')]),
             Scenario('hostile', hostile, 1500, 60000, need=['hostile-ok', 'hostile-error'])]
