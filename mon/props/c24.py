"""C24: references stay consistent whatever their history."""
import copy
import pickle
import re

from ..core import Scenario, Skip
from .. import env, gen, spec

RULE = ('random histories of references (ids given as strings, integers, or generated) and of the code points, ranges and '
        'variants that use them, on an LGR and a model; after every operation the references, those of every element and '
        'the document read back are compared; non-trivial: a reference in use is removed, and its id given again')
ASSUMPTIONS = []


def prepare():
    env.unidb()


GOOD = ['0', '1', '2', '7', 'A', 'R-1', 'X_Y.Z:9', '-', '-1', '00', '01', 0, 1, 2, 5, 12, '1_0']
WRONG = ['a', 'A B', 'A\n', '\n', 'é', '1 ', ' 1', 'A,B', 'A/B', '\u0661', 'Ab']
PATTERN = re.compile(r'[-_.:0-9A-Z]*\Z')


class Model(object):
    def __init__(self):
        self.refs = {}      # id -> [value, comment], in order
        self.used = {}      # (cp, variant or None) -> ids

    def give(self, ids, force):
        """What an element given these ids keeps, or None."""
        ids = [str(i) for i in ids]
        if not force and (any(i not in self.refs for i in ids) or len(set(ids)) != len(ids)):
            return None
        return [i for i in ids if i in self.refs]


def check(ctx, lgr, m, d):
    rm = lgr.reference_manager
    ctx.eq([(k, rm[k].get('value'), rm[k].get('comment')) for k in rm], [(k, v[0], v[1]) for k, v in m.refs.items()],
           'references', d)
    ctx.check(all(isinstance(k, str) for k in rm), 'ids-are-strings', d)
    got = {}
    for c in lgr.repertoire.all_repertoire():
        got[(tuple(c.cp), None)] = list(c.references)
        for v in c.get_variants():
            got[(tuple(c.cp), tuple(v.cp))] = list(v.references)
    ctx.eq(got, m.used, 'references-of-elements', d)
    for i in list(m.refs)[:2]:
        ctx.check(i in rm and (not i.isdigit() or str(int(i)) != i or int(i) in rm), 'membership', d)


def history(ctx):
    from lgr.core import LGR
    from lgr import exceptions as X
    from lgr.parser.xml_parser import XMLParser
    from lgr.parser.xml_serializer import serialize_lgr_xml
    import io
    rng = ctx.rng
    lgr, m, log = LGR('references'), Model(), []
    strict = rng.random() < 0.6
    d = lambda: '\n'.join(log)
    removed = set()
    for _ in range(rng.randint(8, 30)):
        op = rng.choice(['add', 'add', 'auto', 'auto', 'del', 'del', 'update', 'cp', 'cp', 'var', 'range', 'delcp', 'copy',
                         'expand'])
        force = not strict and rng.random() < 0.5

        def ids():
            l = [rng.choice(list(m.refs)) if m.refs and rng.random() < 0.9 else rng.choice(['nope', 99])
                 for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            if rng.random() < 0.5:
                l = [int(i) if isinstance(i, str) and i.isdigit() and str(int(i)) == i else i for i in l]
            return l

        def attempt(call, exp, text):
            """exp: None when the operation has to be refused."""
            log.append(text)
            try:
                r = call()
            except Exception as e:
                ctx.check(exp is None, 'refused', lambda: '%r; %s' % (e, d()))
                ctx.check(isinstance(e, (X.LGRException,)), 'unexpected-exception', lambda: '%r; %s' % (e, d()))
                ctx.event('refused')
                return None
            if exp is None:
                ctx.check(False, 'not-refused', d)
                raise Skip()
            return r

        if op == 'add':
            i = rng.choice(GOOD if rng.random() < 0.8 else WRONG)
            value, comment = 'value %d' % len(log), rng.choice([None, 'c'])
            ok = None if str(i) in m.refs or not PATTERN.match(str(i)) else True
            r = attempt(lambda: lgr.add_reference(value, comment=comment, ref_id=i), ok, 'add %r' % (i,))
            if ok:
                ctx.eq(r, str(i), 'id', d)
                m.refs[str(i)] = [value, comment]
                ctx.event('again' if str(i) in removed else 'added')
        elif op == 'auto':
            r = lgr.add_reference('auto %d' % len(log))
            log.append('auto %r' % (r,))
            ctx.check(isinstance(r, str) and re.match(r'(0|[1-9][0-9]*)\Z', r), 'generated-id', lambda: '%r; %s' % (r, d()))
            ctx.check(r not in m.refs, 'generated-id-in-use', lambda: '%r; %s' % (r, d()))
            m.refs[r] = ['auto %d' % (len(log) - 1), None]
            ctx.event('auto')
        elif op == 'del':
            i = rng.choice(list(m.refs)) if m.refs and rng.random() < 0.85 else rng.choice(GOOD)
            j = int(i) if isinstance(i, str) and i.isdigit() and str(int(i)) == i and rng.random() < 0.5 else i
            ok = True if str(i) in m.refs else None
            attempt(lambda: lgr.del_reference(j), ok, 'del %r' % (j,))
            if ok:
                if any(str(i) in x for x in m.used.values()):
                    ctx.event('used-removed')
                    ctx.seen(log)
                del m.refs[str(i)]
                removed.add(str(i))
                for k in m.used:
                    m.used[k] = [x for x in m.used[k] if x != str(i)]
        elif op == 'update':
            i = rng.choice(list(m.refs)) if m.refs and rng.random() < 0.8 else rng.choice(GOOD)
            value, comment = rng.choice([None, 'new %d' % len(log)]), rng.choice([None, 'nc'])
            ok = True if str(i) in m.refs else None
            attempt(lambda: lgr.reference_manager.update_reference(i, value=value, comment=comment), ok, 'update %r' % (i,))
            if ok:
                if value is not None:
                    m.refs[str(i)][0] = value
                if comment is not None:
                    m.refs[str(i)][1] = comment
        elif op in ('cp', 'var', 'range'):
            l = ids()
            keep = m.give(l, force)
            if op == 'cp':
                cp = tuple(rng.choice(range(0x61, 0x66)) for _ in range(rng.choice([1, 1, 2])))
                if (cp, None) in m.used:
                    continue
                attempt(lambda: lgr.add_cp(cp, ref=list(l), force=force), keep is not None or None,
                        'cp %s %r force=%s' % (cp, l, force))
                new = [(cp, None)]
            elif op == 'var':
                cps = [k[0] for k in m.used if k[1] is None and (len(k[0]) > 1 or not 0x370 <= k[0][0] < 0x400)]
                if not cps:
                    continue
                cp, v = rng.choice(cps), (rng.choice(range(0x61, 0x66)),)
                if (cp, v) in m.used:
                    continue
                attempt(lambda: lgr.add_variant(cp, v, ref=list(l), force=force), keep is not None or None,
                        'var %s %s %r force=%s' % (cp, v, l, force))
                new = [(cp, v)]
            else:
                a = rng.choice([0x3B1, 0x3C1])
                if ((a,), None) in m.used:
                    continue
                attempt(lambda: lgr.add_range(a, a + 2, ref=list(l), force=force), keep is not None or None,
                        'range %x %r force=%s' % (a, l, force))
                new = [((x,), None) for x in range(a, a + 3)]
            if keep is not None:
                for k in new:
                    m.used[k] = keep
                if keep:
                    ctx.event('used')
        elif op == 'delcp':
            cps = [k[0] for k in m.used if k[1] is None and (len(k[0]) > 1 or not 0x370 <= k[0][0] < 0x400)]
            if not cps:
                continue
            cp = rng.choice(cps)
            log.append('delcp %s' % (cp,))
            lgr.del_cp(cp)
            m.used = {k: v for k, v in m.used.items() if k[0] != cp}
        elif op == 'copy':
            log.append('copy')
            lgr = rng.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])(lgr)
        elif op == 'expand':
            log.append('expand')
            lgr.expand_ranges()
            # no range any more
        check(ctx, lgr, m, d)
        if rng.random() < 0.15:
            # the document has them all
            for _ in range(1):
                try:
                    back = XMLParser(io.BytesIO(serialize_lgr_xml(lgr)), 'references', force=not strict).parse_document()
                except Exception as e:
                    ctx.check(False, 'document', lambda: '%r; %s' % (e, d()))
                    break
                check(ctx, back, sorted_refs(m, back), d)
                ctx.event('document')
    ctx.show(dict(log=log))
    if removed:
        ctx.seen(log)


def sorted_refs(m, back):
    """The document keeps references in its own order."""
    r = Model()
    order = [k for k in back.reference_manager if k in m.refs]
    r.refs = {k: m.refs[k] for k in order + [k for k in m.refs if k not in order]}
    r.used = m.used
    return r


SCENARIOS = [Scenario('history', history, 1500, 12000,
                      need=('added', 'again', 'auto', 'used', 'used-removed', 'refused', 'document'))]
