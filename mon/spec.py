"""Independent description of an LGR: plain data, an RFC 7940 XML writer, and a snapshot reader.

Nothing here uses the code under test, except `snapshot`, which reads an LGR through its public
interface.

WLE syntax trees
  matchers  ('start',) ('end',) ('anchor',) ('any', count) ('char', cps, count)
            ('choice', [m], count) ('rule', [m], count) ('ruleref', name, count)
            ('class', class, count) ('ahead', [m]) ('behind', [m])
  classes   ('tag', t) ('prop', 'gc:Ll') ('cps', [cp]) ('ref', name) ('comp', c) ('union', [c])
            ('inter', a, b) ('diff', a, b) ('symdiff', a, b)
  count     None, 'n', 'n+' or 'n:m'
"""
import copy
from xml.sax.saxutils import escape, quoteattr

NS = 'urn:ietf:params:xml:ns:lgr-1.0'


class Var(object):
    def __init__(self, cp, type=None, when=None, not_when=None, comment=None, ref=()):
        self.cp = tuple(cp)
        self.type = type
        self.when = when
        self.not_when = not_when
        self.comment = comment
        self.ref = list(ref)

    def ident(self):
        return self.cp, self.when, self.not_when

    def full(self):
        return (self.cp, self.type, self.when, self.not_when, self.comment, tuple(self.ref))


class Ch(object):
    def __init__(self, cp, when=None, not_when=None, tag=(), comment=None, ref=(), vars=()):
        self.cp = tuple(cp)
        self.when = when
        self.not_when = not_when
        self.tag = list(tag)
        self.comment = comment
        self.ref = list(ref)
        self.vars = list(vars)
        self.rng = None     # (first, last) for a range member

    def full(self):
        return (self.cp, self.when, self.not_when, tuple(self.tag), self.comment, tuple(self.ref), self.rng,
                tuple(sorted((v.full() for v in self.vars), key=repr)))


class Act(object):
    def __init__(self, disp, match=None, not_match=None, any_variant=(), all_variants=(), only_variants=(),
                 comment=None, ref=()):
        self.disp = disp
        self.match = match
        self.not_match = not_match
        self.any_variant = list(any_variant)
        self.all_variants = list(all_variants)
        self.only_variants = list(only_variants)
        self.comment = comment
        self.ref = list(ref)

    def full(self):
        return (self.disp, self.match, self.not_match, frozenset(self.any_variant), frozenset(self.all_variants),
                frozenset(self.only_variants), self.comment, tuple(self.ref))


DEFAULT_ACTS = [Act('invalid', any_variant=['invalid']), Act('blocked', any_variant=['blocked']),
                Act('allocatable', any_variant=['allocatable']), Act('activated', all_variants=['activated']),
                Act('valid')]


class Spec(object):
    def __init__(self):
        self.chars = {}         # cp tuple -> Ch
        self.ranges = []        # (first, last)
        self.classes = []       # (name, ast)
        self.rules = []         # (name, [matchers])
        self.actions = []
        self.refs = []          # (id, value, comment)
        self.meta = dict(version=None, date=None, languages=[], scopes=[], validity_start=None, validity_end=None,
                         unicode_version='6.3.0', description=None)

    def clone(self):
        return copy.deepcopy(self)

    def add(self, ch):
        self.chars[ch.cp] = ch
        return ch

    def add_range(self, first, last, **kw):
        self.ranges.append((first, last))
        for cp in range(first, last + 1):
            c = Ch((cp,), **kw)
            c.rng = (first, last)
            self.chars[(cp,)] = c

    def tags(self):
        res = {}
        for ch in self.chars.values():
            for t in ch.tag:
                res.setdefault(t, set()).update(ch.cp)
        return res

    def types(self):
        return {v.type for c in self.chars.values() for v in c.vars}


# --------------------------------------------------------------------------- XML writer

def hexcp(cp):
    return ' '.join('%04X' % c for c in cp)


def attrs(*pairs):
    return ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in pairs if v is not None)


def _lst(l):
    return ' '.join(str(x) for x in l) if l else None


def class_xml(ast, name=None, count=None, comment=None):
    a = attrs(('name', name), ('count', count), ('comment', comment))
    kind = ast[0]
    if kind == 'tag':
        return '<class%s from-tag=%s/>' % (a, quoteattr(ast[1]))
    if kind == 'prop':
        return '<class%s property=%s/>' % (a, quoteattr(ast[1]))
    if kind == 'ref':
        return '<class%s by-ref=%s/>' % (a, quoteattr(ast[1]))
    if kind == 'cps':
        out = []
        cps = sorted(set(ast[1]))
        i = 0
        while i < len(cps):
            j = i
            while j + 1 < len(cps) and cps[j + 1] == cps[j] + 1:
                j += 1
            out.append('%04X' % cps[i] if i == j else '%04X-%04X' % (cps[i], cps[j]))
            i = j + 1
        return '<class%s>%s</class>' % (a, ' '.join(out))
    if kind == 'comp':
        return '<complement%s>%s</complement>' % (a, class_xml(ast[1]))
    if kind == 'union':
        return '<union%s>%s</union>' % (a, ''.join(class_xml(c) for c in ast[1]))
    tag = {'inter': 'intersection', 'diff': 'difference', 'symdiff': 'symmetric-difference'}[kind]
    return '<%s%s>%s%s</%s>' % (tag, a, class_xml(ast[1]), class_xml(ast[2]), tag)


def matcher_xml(m):
    k = m[0]
    if k in ('start', 'end', 'anchor'):
        return '<%s/>' % k
    if k == 'any':
        return '<any%s/>' % attrs(('count', m[1]))
    if k == 'char':
        return '<char cp="%s"%s/>' % (hexcp(m[1]), attrs(('count', m[2])))
    if k == 'choice':
        return '<choice%s>%s</choice>' % (attrs(('count', m[2])), ''.join(matcher_xml(c) for c in m[1]))
    if k == 'rule':
        return '<rule%s>%s</rule>' % (attrs(('count', m[2])), ''.join(matcher_xml(c) for c in m[1]))
    if k == 'ruleref':
        return '<rule by-ref=%s%s/>' % (quoteattr(m[1]), attrs(('count', m[2])))
    if k == 'class':
        return class_xml(m[1], count=m[2])
    tag = {'ahead': 'look-ahead', 'behind': 'look-behind'}[k]
    return '<%s>%s</%s>' % (tag, ''.join(matcher_xml(c) for c in m[1]), tag)


def rule_xml(name, body, comment=None):
    return '<rule%s>%s</rule>' % (attrs(('name', name), ('comment', comment)), ''.join(matcher_xml(m) for m in body))


def action_xml(a):
    return '<action%s/>' % attrs(('disp', a.disp), ('comment', a.comment), ('match', a.match),
                                 ('not-match', a.not_match), ('any-variant', _lst(a.any_variant)),
                                 ('all-variants', _lst(a.all_variants)), ('only-variants', _lst(a.only_variants)),
                                 ('ref', _lst(a.ref)))


def var_xml(v):
    return '<var%s/>' % attrs(('cp', hexcp(v.cp)), ('type', v.type), ('when', v.when), ('not-when', v.not_when),
                              ('comment', v.comment), ('ref', _lst(v.ref)))


def char_xml(c):
    a = attrs(('when', c.when), ('not-when', c.not_when), ('comment', c.comment), ('tag', _lst(c.tag)),
              ('ref', _lst(c.ref)))
    if c.rng:
        return '<range first-cp="%04X" last-cp="%04X"%s/>' % (c.rng[0], c.rng[1], a)
    body = ''.join(var_xml(v) for v in c.vars)
    if body:
        return '<char cp="%s"%s>%s</char>' % (hexcp(c.cp), a, body)
    return '<char cp="%s"%s/>' % (hexcp(c.cp), a)


def meta_xml(s):
    m = s.meta
    out = []
    if m['version'] is not None:
        out.append('<version%s>%s</version>' % (attrs(('comment', m['version'][1])), escape(m['version'][0])))
    for key in ('date',):
        if m[key] is not None:
            out.append('<%s>%s</%s>' % (key, m[key], key))
    for l in m['languages']:
        out.append('<language>%s</language>' % escape(l))
    for v, t in m['scopes']:
        out.append('<scope%s>%s</scope>' % (attrs(('type', t)), escape(v)))
    for key in ('validity_start', 'validity_end', 'unicode_version'):
        if m[key] is not None:
            k = key.replace('_', '-')
            out.append('<%s>%s</%s>' % (k, m[key], k))
    if m['description'] is not None:
        v, t = m['description']
        out.append('<description%s>%s</description>' % (attrs(('type', t)), escape(v)))
    if s.refs:
        out.append('<references>%s</references>' % ''.join(
            '<reference%s>%s</reference>' % (attrs(('id', i), ('comment', c)), escape(v)) for i, v, c in s.refs))
    return ''.join(out)


def to_xml(s, order=None, data=None):
    """order: list of cp tuples, to write the chars in another order than the recommended one."""
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<lgr xmlns="%s">' % NS, '<meta>', meta_xml(s), '</meta>', '<data>']
    done = set()
    for cp in (order if order is not None else sorted(s.chars)):
        c = s.chars[cp]
        if c.rng:
            if c.rng in done:
                continue
            done.add(c.rng)
        out.append(char_xml(c))
    out.append('</data>')
    if s.classes or s.rules or s.actions:
        out.append('<rules>')
        out += [class_xml(a, name=n) for n, a in s.classes]
        out += [rule_xml(n, b) for n, b in s.rules]
        out += [action_xml(a) for a in s.actions]
        out.append('</rules>')
    out.append('</lgr>')
    return ''.join(out).encode('utf-8')


# --------------------------------------------------------------------------- loading

def load(spec_or_bytes, unidb=None, force=True, name='lgr', **kw):
    import io
    from lgr.parser.xml_parser import XMLParser
    data = spec_or_bytes if isinstance(spec_or_bytes, bytes) else to_xml(spec_or_bytes)
    p = XMLParser(io.BytesIO(data), name, force=force, **kw)
    if unidb is not None:
        p.unicode_database = unidb
    return p.parse_document()


# --------------------------------------------------------------------------- snapshot

def snap_var(v):
    return (tuple(v.cp), v.type, v.when, v.not_when, v.comment, tuple(v.references))


def snap_char(c):
    rng = (c.first_cp, c.last_cp) if hasattr(c, 'first_cp') else None
    return (tuple(c.cp), c.when, c.not_when, tuple(c.tags), c.comment, tuple(c.references), rng,
            tuple(sorted((snap_var(v) for v in c.get_variants()), key=repr)))


def snap_data(lgr):
    res = {}
    dup = []
    for c in lgr.repertoire.all_repertoire():
        k = tuple(c.cp)
        if k in res:
            dup.append(k)
        res[k] = snap_char(c)
    if dup:
        res['duplicates'] = dup
    return res


def snap_action(a):
    return (a.disp, a.match, a.not_match, frozenset(a.any_variant or ()), frozenset(a.all_variants or ()),
            frozenset(a.only_variants or ()), a.comment, tuple(a.references))


def snap_meta(lgr):
    m = lgr.metadata
    return dict(version=None if m.version is None else (m.version.value, m.version.comment), date=m.date,
                languages=list(m.languages), scopes=[(s.value, s.scope_type) for s in m.scopes],
                validity_start=m.validity_start, validity_end=m.validity_end, unicode_version=m.unicode_version,
                description=None if m.description is None else (m.description.value, m.description.description_type))


def snap_refs(lgr):
    return [(k, r['value'], r.get('comment')) for k, r in lgr.reference_manager.items()]


def snapshot(lgr):
    """Full observable content of an LGR."""
    from lgr.classes import TAG_CLASSNAME_PREFIX
    return dict(name=lgr.name, data=snap_data(lgr), ranges=sorted(lgr.repertoire.ranges), meta=snap_meta(lgr),
                refs=snap_refs(lgr), rules=list(lgr.rules), classes=list(lgr.classes),
                rule_names=sorted(map(repr, lgr.rules_lookup)),
                class_names=sorted(repr(k) for k in lgr.classes_lookup
                               if not (k or '').startswith(TAG_CLASSNAME_PREFIX)),
                tags={t: frozenset(c.codepoints) for t, c in lgr.get_tag_classes().items()},
                actions=[snap_action(a) for a in lgr.actions], rules_xml=list(lgr.rules_xml),
                classes_xml=list(lgr.classes_xml), actions_xml=list(lgr.actions_xml))


def diff_snap(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                keys = [x for x in set(a[k]) | set(b[k]) if a[k].get(x, '<absent>') != b[k].get(x, '<absent>')]
                keys.sort(key=repr)
                out.append('%s: %s' % (k, ['%r: %r -> %r' % (x, a[k].get(x, '<absent>'), b[k].get(x, '<absent>'))
                                           for x in keys[:4]]))
            else:
                out.append('%s: %r -> %r' % (k, a[k], b[k]))
    return '; '.join(out)


def spec_data(s):
    return {cp: c.full() for cp, c in s.chars.items()}


def rules_only(s):
    """The spec without its code points, to be completed through the API."""
    r = s.clone()
    r.chars, r.ranges = {}, []
    return r


def build_api(s, rng, unidb=None):
    """Build the LGR of a spec with the editing API, in a random insertion order."""
    lgr = load(rules_only(s), unidb)
    items = [('r', r) for r in s.ranges] + [('c', c) for c in s.chars.values() if not c.rng]
    rng.shuffle(items)
    for k, x in items:
        if k == 'r':
            c = s.chars[(x[0],)]
            lgr.add_range(x[0], x[1], comment=c.comment, ref=list(c.ref) or None, tag=list(c.tag) or None, when=c.when,
                          not_when=c.not_when)
        else:
            lgr.add_cp(rng.choice([list(x.cp), tuple(x.cp)]), comment=x.comment, ref=list(x.ref) or None,
                       tag=list(x.tag) or None, when=x.when, not_when=x.not_when)
    todo = [(c, v) for c in s.chars.values() for v in c.vars]
    rng.shuffle(todo)
    for c, v in todo:
        lgr.add_variant(c.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment,
                        ref=list(v.ref) or None)
    return lgr
