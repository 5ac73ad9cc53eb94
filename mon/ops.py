"""A catalogue of what the library does, each operation on random inputs drawn from a generator of random numbers.

OPS maps a name to a function of a random generator that returns a thunk: calling it runs the operation on fresh inputs
and gives a result made of plain values. The thunk can be called several times."""
import copy
import io
import os
import pickle
import re
import tempfile

from .core import Skip
from . import env, gen, pairs, spec
from .props import c10, c12, c13, c18, c20, c28, c29, c32

ADDRESS = re.compile('0x[0-9a-f]{8,}')


def plain(x):
    """Plain values; the order of sets and of keys does not count, the one of lists does."""
    from lgr.char import CharBase
    from lgr.core import LGR
    if isinstance(x, LGR):
        from lgr.parser.xml_serializer import serialize_lgr_xml
        try:
            xml = serialize_lgr_xml(x).decode()
        except Exception as e:
            xml = type(e).__name__
        return ['lgr', plain(spec.snapshot(x)), xml]
    if isinstance(x, CharBase):
        return ['char', list(x.cp)]
    if type(x).__name__ == 'Variant':
        return ['variant', list(x.cp), x.type, x.when, x.not_when]
    if isinstance(x, (str, bytes)):
        return ADDRESS.sub('0x', x if isinstance(x, str) else x.decode('utf-8', 'replace'))
    if isinstance(x, (int, float)) or x is None:
        return x
    if isinstance(x, dict):
        return ['dict', sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted(map(plain, x), key=repr)]
    if isinstance(x, BaseException):
        return ['exception', type(x).__name__]
    if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
        return [plain(y) for y in x]
    if type(x).__name__ == 'USet' or hasattr(x, '__iter__'):
        return ['members', sorted(map(plain, x), key=repr)]
    return ADDRESS.sub('0x', repr(x))


def two(rng):
    a, b = pairs.pair(rng)
    db = rng.random() < 0.5
    return lambda: [spec.load(s, env.unidb() if db else None, name=n) for s, n in ((a, 'first'), (b, 'second'))]


def union(rng):
    from lgr.tools.compare import union_lgrs
    load = two(rng)
    return lambda: union_lgrs(*load())


def intersection(rng):
    from lgr.tools.compare import intersect_lgrs
    load = two(rng)
    return lambda: intersect_lgrs(*load())


def diff(rng):
    from lgr.tools.compare import diff_lgrs
    load, same = two(rng), rng.random() < 0.5
    return lambda: diff_lgrs(*load(), show_same=same)


def draw_set(rng):
    docs = [c18.document(rng, s) for s in c18.make_set(rng, False)]
    return lambda: [spec.load(x, env.unidb(), name='lgr-%d' % i) for i, x in enumerate(docs)]


def merge(rng):
    from lgr.tools.merge_set import merge_lgr_set
    load = draw_set(rng)
    return lambda: merge_lgr_set(load(), 'merged')


def diff_sets(rng):
    from lgr.tools.compare import diff_lgr_sets
    from lgr.tools.merge_set import merge_lgr_set
    one, other = draw_set(rng), draw_set(rng)

    def f():
        a, b = one(), other()
        return diff_lgr_sets(merge_lgr_set(list(a), 'A'), merge_lgr_set(list(b), 'B'), a, b)
    return f


def harmonize(rng):
    from lgr.tools.harmonize import harmonize as run
    load, rz, z = two(rng), rng.random() < 0.5, two(rng)
    return lambda: run(*load(), z()[0] if rz else None)


def labels_of(rng):
    s, sets = c20.draw(rng)
    lines, labels, _ = c20.write(rng, c20.draw_labels(rng, s, sets))
    tlds = c20.write(rng, c20.draw_labels(rng, s, sets, (0, 3)) + labels[:rng.choice([0, 1, 4])])[0] if rng.random() < 0.6 else None
    return s, sets, lines, tlds


def collisions(rng):
    from lgr.tools.diff_collisions import collision
    s, sets, lines, tlds = labels_of(rng)
    dump, quiet = rng.random() < 0.5, rng.random() < 0.5
    return lambda: ''.join(collision(spec.load(s, env.unidb()), list(lines), tlds and list(tlds), show_dump=dump,
                                     quiet=quiet))


def simple_collisions(rng):
    from lgr.tools.diff_collisions import basic_collision
    s, sets, lines, tlds = labels_of(rng)
    notes = rng.random() < 0.5
    return lambda: ''.join(basic_collision(spec.load(s, env.unidb()), list(lines), tlds and list(tlds),
                                           with_annotations=notes))


def labels_in_two(rng):
    from lgr.tools.diff_collisions import diff as run
    s, sets, lines, _ = labels_of(rng)
    lines = [l for l in lines if len(l.split('#')[0].strip()) < 4][:3]
    t = c20.edit(rng, s, sets)[0]
    show, dump, quiet = (rng.random() < 0.5 for _ in range(3))
    return lambda: ''.join(run(spec.load(s, env.unidb()), spec.load(t, env.unidb()), list(lines), show_collision=show,
                               show_dump=dump, quiet=quiet))


def annotated(rng):
    from lgr.tools.annotate import annotate
    s = gen.gen_lgr(rng, rules=(0, 2), actions=(0, 4), context=0.4, reflexive=0.4)
    lines = [''.join(map(chr, gen.gen_label(rng, s, 5))) + '\n' for _ in range(8)] + c20.BAD[:2]
    return lambda: ''.join(annotate(spec.load(s, env.unidb()), list(lines)))


def annotated_set(rng):
    from lgr.tools.annotate import lgr_set_annotate
    from lgr.tools.merge_set import merge_lgr_set
    specs = []
    for lang in ('und-Grek', 'und-Latn'):
        s, sets = c20.draw(rng)
        s.meta['languages'] = [lang]
        specs.append(s)
    lines = [''.join(map(chr, gen.gen_label(rng, specs[0], 4))) + '\n' for _ in range(6)]
    known = [''.join(map(chr, gen.gen_label(rng, rng.choice(specs), 4))) + '\n' for _ in range(4)] + lines[:2]

    def f():
        l = [spec.load(s, env.unidb(), name='lgr-%d' % i) for i, s in enumerate(specs)]
        m = merge_lgr_set(list(l), 'merged')
        m.unicode_database = env.unidb()
        return ''.join(lgr_set_annotate(m, l[0], io.StringIO(''.join(known)), list(lines)))
    return f


def populate(rng):
    s = c12.mk(rng)

    def f():
        lgr = spec.load(s, env.unidb())
        lgr.populate_variants()
        return lgr
    return f


def validation(rng):
    while True:
        try:
            s = c13.mk(rng)
            break
        except Skip:
            pass
    options = {}
    if rng.random() < 0.5:
        options['rfc7940'] = True
    if rng.random() < 0.5:
        options['rng_filepath'] = os.path.join(env.REPO, c13.RNG)
    if rng.random() < 0.5:
        options['unidb'] = env.unidb()

    def f():
        lgr = spec.load(s, env.unidb())
        return lgr.validate(dict(options)), lgr.get_rfc7940_validation(verbose=True), lgr
    return f


def stats(rng):
    from lgr.validate.lgr_stats import generate_stats
    s = gen.gen_lgr(rng, variants=0.7, tags=0.5)
    return lambda: generate_stats(spec.load(s))


def review(rng):
    from lgr.tools.idn_review.review import review_lgr
    a, b = c28.draw_pair(rng)
    return lambda: review_lgr(c28.load(a, 'table'), c28.load(b, 'reference'))


def review_core(rng):
    from lgr.tools.idn_review.review import review_with_core_requirements
    a, _ = c28.draw_pair(rng)
    return lambda: review_with_core_requirements(c28.load(a, 'table'))


def review_variants(rng):
    from lgr.tools.idn_review.variant_sets import generate_variant_sets_report
    cps = [(0x61 + i,) for i in range(rng.randint(2, 5))]
    specs = []
    for _ in range(2):
        s = spec.Spec()
        s.rules = [(n, [('behind', [('char', (0x61,), None)]), ('anchor',)]) for n in ('ctx-0', 'ctx-1', 'ctx-2')]
        for cp in cps:
            c = s.add(spec.Ch(cp))
            for v in cps:
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    w = spec.Var(v, rng.choice(['blocked', 'allocatable', 'activated', 'x', None]))
                    if rng.random() < 0.8:
                        setattr(w, rng.choice(['when', 'not_when']), rng.choice(['ctx-0', 'ctx-1', 'ctx-2']))
                    if (v != cp or rng.random() < 0.2) and w.ident() not in [x.ident() for x in c.vars]:
                        c.vars.append(w)
        specs.append(s)
    return lambda: generate_variant_sets_report(*[c28.load(s, n) for s, n in zip(specs, ('table', 'reference'))])


def idna_report(rng):
    from lgr.tools.idna2008_compliance import check_idna2008_compliance
    s = spec.Spec()
    for cp in gen.subset(rng, c29.GOOD, 0, 6) + gen.subset(rng, c29.BAD, 0, 5):
        s.add(spec.Ch((cp,)))

    def f():
        lgr = spec.load(s)
        lgr.unicode_database = env.unidb()
        return check_idna2008_compliance(lgr)
    return f


def faulty(rng):
    s = c10.mk(rng)
    doc = c10.Doc(s)
    for _ in range(rng.choice([0, 1, 2, 3])):
        c10.inject(rng, doc, s)
    xml, force, db, allow = doc.xml(), rng.random() < 0.7, rng.random() < 0.5, rng.random() < 0.2

    def f():
        p, lgr = c10.parse(xml, force, db, allow)
        return p.rfc7940_checks.test_result, lgr
    return f


def dispositions(rng):
    s = gen.gen_lgr(rng, variants=0.7, rules=(0, 3), actions=(0, 4), reflexive=0.3)
    todo = [gen.gen_label(rng, s, 4) for _ in range(3)]
    invalid, hide = rng.random() < 0.5, rng.random() < 0.3

    def f():
        lgr = spec.load(s, env.unidb())
        out = []
        for l in todo:
            out.append(lgr.test_label_eligible(l)[:5])
            if out[-1][0]:
                out.append([x[:5] for x in lgr.compute_label_disposition(l, include_invalid=invalid,
                                                                        hide_mixed_script_variants=hide)])
                out.append(lgr.generate_index_label(l))
                out.append(lgr.estimate_variant_number(l))
        return out
    return f


def copies(rng):
    s = gen.gen_lgr(rng, refs=True, comments=True, meta=True, rules=(0, 3), actions=(0, 3))
    way = rng.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])
    return lambda: way(spec.load(s, env.unidb()))


def texts(rng):
    s = gen.gen_lgr(rng, rules=(1, 3), actions=(1, 3))

    def f():
        lgr = spec.load(s, env.unidb())
        out = [str(a) for a in lgr.actions] + [repr(c) for c in lgr.repertoire]
        for r in lgr.rules_lookup.values():
            out.append(r.get_pattern(lgr.rules_lookup, lgr.classes_lookup, env.unidb()))
        for n, c in sorted(lgr.classes_lookup.items()):
            out += [n, str(c), c.get_pattern(lgr.rules_lookup, lgr.classes_lookup, env.unidb(), as_set=True)]
        return out
    return f


TOOLS = {
    'rfc7940_validate': lambda rng, x: ['-q', '-l', None, x],
    'xml_dump': lambda rng, x: ['-q', x],
    'lgr_populate_variants': lambda rng, x: ['-q', '-l', None, '-x', x],
}


def tools(rng):
    from .props import c25
    s = gen.gen_lgr(rng, refs=True, comments=True, meta=True, variants=0.7)
    name = rng.choice(sorted(TOOLS))
    args = TOOLS[name](rng, 'DOC')

    def f():
        with tempfile.TemporaryDirectory(prefix='verif-ops-') as tmp:
            path = c32.put(tmp, 'doc.xml', spec.to_xml(s))
            return c32.run(name, [c25.libs() if a is None else path if a == 'DOC' else a for a in args]).replace(tmp, '')
    return f


OPS = dict(union=union, intersection=intersection, diff=diff, merge=merge, diff_sets=diff_sets, harmonize=harmonize,
           collisions=collisions, simple_collisions=simple_collisions, labels_in_two=labels_in_two, annotated=annotated,
           annotated_set=annotated_set, populate=populate, validation=validation, stats=stats, review=review, review_variants=review_variants,
           review_core=review_core, idna_report=idna_report, faulty=faulty, dispositions=dispositions, copies=copies,
           texts=texts, tools=tools)


def prepare():
    c28.prepare()
    gen.COMP = 0
    env.unidb()


def run(f):
    """['ok', plain result] or ['error', type of the exception]"""
    try:
        return ['ok', plain(f())]
    except Exception as e:
        return ['error', type(e).__name__]
