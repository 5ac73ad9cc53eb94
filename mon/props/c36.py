"""C36: what goes wrong is told with the errors of the library."""
import copy
import io
import os
import pickle
import traceback

from lxml import etree
from picu.exceptions import PICUException

from ..core import Scenario
from .. import env, gen, ops, spec
from . import c10, c13, c35
from lgr.core import LGR
from lgr.exceptions import LGRException
from lgr.parser.xml_parser import XMLParser
from lgr.parser.xml_serializer import serialize_lgr_xml

RULE = ('documents with random faults (attributes replaced, added, removed or moved to other elements, elements removed, '
        'moved or renamed; undefined and recursive names, wrong counts, properties, code points) are parsed, forced or not; '
        'every operation is then run on the LGR: it must return or raise an LGRException, within the time given; a document that '
        'the schema accepts must be parsed or refused likewise; non-trivial: an operation on an LGR from a faulty document')
ASSUMPTIONS = ['documents that the schema refuses may be refused with any exception by the parser (they are validated first)',
               'counts in look-behinds and counts in counts are left out: the regular expressions take exponential time',
               'a forced LGR with a rule or class that has no name is only evaluated, written and counted']

VALUES = ['', 'x', '0061', '0061 0062', 'ZZ', '110000', '-1', 'D800', ':', '1:', ':2', '2+', '2:1', '0', '-3', '999', 'x:y',
          'gc:Lu', 'gc:zz', 'gc:Lu:x', 'sc:Latn', 'sc:Zzzz', 'valid', 'blocked', '1', ' ', '0061-0063', '0063-0061', '-', '0061 ',
          'start', 'r', 'REF-0', '*', '(', '[', ']', ')', '\\', 'a b', '%', '%(anchor)s', '{', '}', '^', '[^', '|', '0378', 'E000',
          '1.0.0', '99.0.0', 'und-Latn', 'und-Zzzz', 'abc-', '2024-13-45', 'text/html']
ATTRIBUTES = ['name', 'by-ref', 'from-tag', 'property', 'when', 'not-when', 'cp', 'count', 'ref', 'tag', 'type', 'disp', 'match',
              'not-match', 'any-variant', 'all-variants', 'only-variants', 'first-cp', 'last-cp', 'id', 'comment']
RANGE = 300


def prepare():
    ops.prepare()
    schema()


def schema():
    if not hasattr(schema, 'kept'):
        schema.kept = etree.RelaxNG(file=os.path.join(env.REPO, c13.RNG))
    return schema.kept


def mutate(rng, xml):
    root = etree.fromstring(xml)
    values = [v for e in root.iter() if isinstance(e.tag, str) for v in e.attrib.values()]
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        els = [e for e in root.iter() if isinstance(e.tag, str)]
        e, k = rng.choice(els), rng.randrange(10)
        if k <= 2 and e.attrib:
            e.attrib[rng.choice(list(e.attrib))] = rng.choice(VALUES) if rng.random() < 0.6 else rng.choice(values)
        elif k == 3 and e.attrib:
            del e.attrib[rng.choice(list(e.attrib))]
        elif k == 4:
            e.attrib[rng.choice(ATTRIBUTES)] = rng.choice(VALUES + values)
        elif k == 5 and e.getparent() is not None:
            e.getparent().remove(e)
            if rng.random() < 0.5:
                inside = set(e.iter())
                rng.choice([x for x in els if x not in inside and x is not e]).append(e)
        elif k == 6:
            e.tag = rng.choice(els).tag
        elif k == 7:
            e.text = rng.choice(VALUES)
        elif k == 8:
            # A reference from a rule or class to one of them, maybe itself
            named = [x for x in els if x.get('name')]
            if named:
                x, y = rng.choice(named), rng.choice(named)
                if rng.random() < 0.5:
                    y = x
                inside = rng.choice(list(x.iter()))
                child = etree.SubElement(inside, '{%s}%s' % (etree.QName(x).namespace, 'rule' if x.tag.endswith('rule') else 'class'))
                child.set('by-ref', y.get('name'))
        elif e.getparent() is not None:
            e.getparent().insert(rng.randrange(len(e.getparent()) + 1), copy.deepcopy(e))
    for e in root.iter():
        # Repetitions of repetitions take time that grows exponentially in the regular expressions engine
        if isinstance(e.tag, str) and e.get('count') and any(
                x.get('count') or x.tag.endswith('look-behind') for x in e.iterancestors()):
            del e.attrib['count']
        # Long ranges only take time
        if isinstance(e.tag, str) and e.tag.endswith('range'):
            try:
                if int(e.get('last-cp'), 16) - int(e.get('first-cp'), 16) > RANGE:
                    e.attrib['last-cp'] = e.attrib['first-cp']
            except (TypeError, ValueError):
                pass
    if cyclic(root):
        # The properties are looked up again at each level of the recursion
        for e in root.iter():
            if isinstance(e.tag, str) and e.get('property'):
                e.set('property', 'gc:Zl')
    return etree.tostring(root, encoding='utf-8')


def cyclic(root):
    """Is there a rule or class that references itself?"""
    links = {}
    for e in root.iter():
        if isinstance(e.tag, str) and e.get('by-ref'):
            for x in e.iterancestors():
                if x.get('name'):
                    links.setdefault(x.get('name'), set()).add(e.get('by-ref'))

    def reach(n):
        seen, todo = set(), [n]
        while todo:
            for m in links.get(todo.pop(), ()):
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen
    return any(n in reach(n) for n in list(links))


def where(e):
    frames = [f for f in traceback.extract_tb(e.__traceback__) if env.REPO in f.filename]
    return '%r at %s' % (e, ['%s:%s' % (f.filename.replace(env.REPO, ''), f.lineno) for f in frames[-2:]])


def consume(x):
    """Generators do nothing until they are read."""
    return list(x) if hasattr(x, '__next__') else x


def operations(rng, lgr, other, labels):
    from lgr.tools.annotate import annotate
    from lgr.tools.compare import diff_lgrs, intersect_lgrs, union_lgrs
    from lgr.tools.diff_collisions import basic_collision, collision
    from lgr.tools.diff_collisions import diff as diff_labels
    from lgr.tools.harmonize import harmonize
    from lgr.tools.idn_review.review import review_lgr, review_with_core_requirements
    from lgr.tools.idna2008_compliance import check_idna2008_compliance
    from lgr.tools.merge_set import merge_lgr_set
    from lgr.tools.utils import read_labels
    from lgr.validate.lgr_stats import generate_stats
    db = env.unidb()
    label = labels[0]
    lines = [''.join(map(chr, l)) + '\n' for l in labels]
    hide, invalid = rng.random() < 0.3, rng.random() < 0.5
    pair = lambda: (lgr, other) if rng.random() < 0.5 else (other, lgr)
    out = {
        'eligible': lambda: lgr.test_label_eligible(label),
        'dispositions': lambda: lgr.compute_label_disposition(label, include_invalid=invalid, hide_mixed_script_variants=hide),
        'summary': lambda: lgr.compute_label_disposition_summary(label, include_invalid=invalid),
        'index': lambda: lgr.generate_index_label(label),
        'estimate': lambda: lgr.estimate_variant_number(label, hide_mixed_script_variants=hide),
        'serialize': lambda: serialize_lgr_xml(lgr),
        'union': lambda: union_lgrs(*pair()),
        'intersection': lambda: intersect_lgrs(*pair()),
        'diff': lambda: diff_lgrs(*pair(), show_same=invalid),
        'harmonize': lambda: harmonize(*pair(), None),
        'merge': lambda: merge_lgr_set(list(pair()), 'merged'),
        'populate': lambda: copy.deepcopy(lgr).populate_variants(),
        'validate': lambda: lgr.validate({'unidb': db, 'rng_filepath': os.path.join(env.REPO, c13.RNG), 'rfc7940': invalid}),
        'verdict': lambda: lgr.get_rfc7940_validation(verbose=True),
        'stats': lambda: generate_stats(lgr),
        'annotate': lambda: annotate(lgr, list(lines)),
        'collisions': lambda: collision(lgr, list(lines), lines[:1] if hide else None, show_dump=invalid, quiet=hide),
        'simple': lambda: basic_collision(lgr, list(lines), None, with_annotations=invalid),
        'labels': lambda: diff_labels(*pair(), list(lines[:2]), show_collision=True, show_dump=invalid, quiet=hide),
        'review': lambda: review_lgr(*pair()),
        'core': lambda: review_with_core_requirements(lgr),
        'idna': lambda: check_idna2008_compliance(lgr),
        'expand': lambda: copy.deepcopy(lgr).expand_ranges(),
        'copy': lambda: pickle.loads(pickle.dumps(lgr)),
        'text': lambda: [(str(x), repr(x)) for x in list(lgr.rules_lookup.values()) + list(lgr.classes_lookup.values()) +
                         list(lgr.actions) + list(lgr.repertoire)],
        'patterns': lambda: [r.get_pattern(lgr.rules_lookup, lgr.classes_lookup, db) for r in lgr.rules_lookup.values()],
        'sets': lambda: lgr.repertoire.get_variant_sets(),
        'tags': lambda: (lgr.all_tags(), [lgr.get_tag_classes() if hasattr(lgr, 'get_tag_classes') else None]),
        'scripts': lambda: lgr.metadata.get_scripts(),
        'read': lambda: read_labels(io.StringIO(''.join(lines)), unidb=db),
    }
    return out


def attempt(ctx, name, f, d, need=()):
    try:
        r = consume(f())
    except LGRException as e:
        ctx.event('refused')
        ctx.event('%s-refused' % name)
        str(e)
        return None
    except Exception as e:
        if isinstance(e, need):
            return None
        ctx.check(False, name, lambda: '%s; %s' % (where(e), d()))
        return None
    ctx.check(True, name, d)
    ctx.event('%s-done' % name)
    return r if r is not None else True


def faults(ctx):
    rng = ctx.rng
    if rng.random() < 0.3:
        s = c10.mk(rng)
        doc = c10.Doc(s)
        for _ in range(rng.choice([1, 2, 3])):
            c10.inject(rng, doc, s)
        xml = doc.xml()
        if isinstance(xml, str):
            xml = xml.encode()
        if rng.random() < 0.5:
            xml = mutate(rng, xml)
    else:
        s = gen.gen_lgr(rng, refs=True, comments=True, meta=True, rules=(0, 4), actions=(0, 4), context=0.4)
        xml = mutate(rng, spec.to_xml(s))
        if rng.random() < 0.1:
            xml = c35.rename(rng, xml)
    labels = [gen.gen_label(rng, s, 4) for _ in range(4)]
    force, db = rng.random() < 0.8, rng.random() < 0.5
    d = lambda: 'force %s, database %s, labels %s, document %r' % (force, db, labels, xml)
    try:
        valid = schema().validate(etree.fromstring(xml))
    except etree.Error:
        valid = False
    ctx.event('schema-%s' % ('valid' if valid else 'invalid'))

    def parse():
        p = XMLParser(io.BytesIO(xml), 'lgr', force=force)
        if db:
            p.unicode_database = env.unidb()
        return p.parse_document()

    lgr = attempt(ctx, 'parse', parse, d, () if valid else (Exception,))
    attempt(ctx, 'version', lambda: XMLParser(io.BytesIO(xml), 'lgr').unicode_version(), d,
            () if valid else (Exception,))
    if not isinstance(lgr, LGR):
        ctx.event('not-parsed')
        return
    ctx.event('parsed')
    lgr.unicode_database = env.unidb()
    ctx.seen(len(lgr.repertoire), len(lgr.rules), len(lgr.actions), valid, force)
    other = spec.load(s if rng.random() < 0.7 else gen.gen_lgr(rng), env.unidb(), name='other')
    todo = operations(rng, lgr, other, labels)
    if None in lgr.rules_lookup or None in lgr.classes_lookup:
        # Nothing can be done with these, except what they do not take part in
        todo = {k: v for k, v in todo.items() if k in EVALUATION}
        ctx.event('unnamed')
    for name in gen.subset(rng, sorted(todo), 5, 10):
        before = spec.snapshot(lgr)
        attempt(ctx, name, todo[name], lambda: 'operation %s, %s' % (name, d()),
                (PICUException,) if name == 'patterns' else ())
        if name in ('union', 'intersection', 'diff', 'merge'):
            # They expand the ranges
            continue
        # Refused or not
        after = spec.snapshot(lgr)
        ctx.check(after == before, 'left-' + name, lambda: '%s; %s' % (spec.diff_snap(before, after), d()))


EVALUATION = ['eligible', 'dispositions', 'summary', 'index', 'estimate', 'annotate', 'collisions', 'serialize', 'stats', 'text']
NAMES = ['eligible', 'dispositions', 'summary', 'index', 'estimate', 'serialize', 'union', 'intersection', 'diff', 'harmonize',
         'merge', 'populate', 'validate', 'verdict', 'stats', 'annotate', 'collisions', 'simple', 'labels', 'review', 'core',
         'idna', 'expand', 'copy', 'text', 'patterns', 'sets', 'tags', 'scripts', 'read']
SCENARIOS = [Scenario('faults', faults, 6000, 200000, need=['parsed', 'schema-valid', 'schema-invalid', 'refused',
                                                            'eligible-refused'] + [n + '-done' for n in NAMES])]
