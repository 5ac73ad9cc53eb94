"""C07: repertoire editing histories against a reference model."""
from collections import Counter

from ..core import Scenario, Skip
from .. import env, gen, spec

RULE = ('random histories of edits (valid and refused, forced or not, with and without validating repertoire and IDNA '
        'database) replayed on a reference model; the whole content is compared after every edit; non-trivial: a history '
        'with both accepted and refused edits')
ASSUMPTIONS = ['ranges have at least two code points', 'a range or part of it is deleted with the bounds it was added with']

ZONE = list(range(0x61, 0x6D)) + [0x3B1, 0x3B2, 0x4E00]
BADIDNA = [0x41, 0x24, 0x5B, 0x60]      # not valid in IDNA2008
INVALID = set(range(0x61)) - {0x2D} - set(range(0x30, 0x3A))
CTX = ['ctx-0', 'ctx-1']


def prepare():
    env.idnadb('6.3.0')
    env.unidb()


class Refused(Exception):
    def __init__(self, name):
        self.name = name


class Model(object):
    """What the documentation of the editing API promises."""

    def __init__(self, idna=None, allow_invalid=False, validating=None):
        self.chars = {}
        self.ranges = []
        self.refs = []
        self.idna = idna            # set of invalid code points, or None without database
        self.allow_invalid = allow_invalid
        self.validating = validating

    def convert(self, cp):
        if isinstance(cp, int):
            cp = [cp]
        elif not isinstance(cp, (list, tuple)) or not len(cp):
            raise Refused('LGRApiInvalidParameter')
        if self.idna is not None and not self.allow_invalid and any(c in self.idna for c in cp):
            raise Refused('CharInvalidIdnaProperty')
        return tuple(cp)

    def repertoire(self, cp, use, override, force):
        if use and not override and not force and any(c not in self.validating for c in cp):
            raise Refused('NotInRepertoire')

    def references(self, ref, force):
        out = []
        for r in ref or []:
            if r in self.refs:
                out.append(r)
            elif not force:
                raise Refused('ReferenceNotDefined')
        if len(set(out)) != len(out) and not force:
            raise Refused('DuplicateReference')
        return out

    def tags(self, tag, force, seq):
        tag = tag or []
        if seq and tag and not force:
            raise Refused('LGRFormatException')
        if len(set(tag)) != len(tag) and not force:
            raise Refused('LGRFormatException')
        return tag

    def add_cp(self, cp, comment, ref, tag, when, not_when, use, override, force):
        cp = self.convert(cp)
        if when and not_when and not force:
            raise Refused('CharInvalidContextRule')
        self.repertoire(cp, use, override, force)
        refs = self.references(ref, force)
        tags = self.tags(tag, force, len(cp) > 1)
        if cp in self.chars:
            raise Refused('CharAlreadyExists')
        self.chars[cp] = spec.Ch(cp, when, not_when, tags, comment, refs)

    def status(self, cp, use):
        if self.idna is not None and cp in self.idna:
            return 'CharInvalidIdnaProperty'
        if use and cp not in self.validating:
            return 'NotInRepertoire'
        if (cp,) in self.chars:
            return 'CharAlreadyExists'

    def add_range(self, first, last, comment, ref, tag, when, not_when, use, override, force):
        if first > last:
            raise Refused('LGRApiInvalidParameter')
        if when and not_when and not force:
            raise Refused('RangeInvalidContextRule')
        ok = []
        for cp in range(first, last + 1):
            st = self.status(cp, use)
            if st is None:
                ok.append(cp)
            elif st == 'NotInRepertoire':
                if not override and not force:
                    raise Refused(st)
                ok.append(cp)
            elif st == 'CharInvalidIdnaProperty' and self.allow_invalid:
                ok.append(cp)
            elif not force:
                raise Refused(st)
        if any((cp,) in self.chars for cp in ok) and not force:
            raise Refused('CharAlreadyExists')
        ok = [cp for cp in ok if (cp,) not in self.chars]
        refs = self.references(ref, force)
        tags = self.tags(tag, force, False)
        # maximal runs
        i = 0
        while i < len(ok):
            j = i
            while j + 1 < len(ok) and ok[j + 1] == ok[j] + 1:
                j += 1
            if j > i:
                self.ranges.append((ok[i], ok[j]))
            for cp in ok[i:j + 1]:
                c = self.chars[(cp,)] = spec.Ch((cp,), when, not_when, tags, comment, refs)
                if j > i:
                    c.rng = (ok[i], ok[j])
            i = j + 1

    def get(self, cp):
        cp = self.convert(cp)
        if cp not in self.chars:
            raise Refused('NotInLGR')
        return self.chars[cp]

    def expand(self, rng):
        self.ranges.remove(rng)
        for cp in range(rng[0], rng[1] + 1):
            self.chars[(cp,)].rng = None

    def del_cp(self, cp):
        c = self.get(cp)
        if c.rng:
            self.expand(c.rng)
        del self.chars[c.cp]

    def del_range(self, first, last):
        if first > last:
            raise Refused('LGRApiInvalidParameter')
        if (first, last) not in self.ranges:
            raise Refused('NotInLGR')
        self.ranges.remove((first, last))
        for cp in range(first, last + 1):
            del self.chars[(cp,)]

    def expand_range(self, first, last):
        if first > last:
            raise Refused('LGRApiInvalidParameter')
        if self.idna is not None and not self.allow_invalid and first in self.idna:
            raise Refused('CharInvalidIdnaProperty')
        if (first, last) not in self.ranges:
            raise Refused('NotInLGR')
        self.expand((first, last))

    def add_variant(self, cp, var, type, when, not_when, comment, ref, use, override, force):
        cp = self.convert(cp)
        var = self.convert(var)
        if when and not_when and not force:
            raise Refused('VariantInvalidContextRule')
        self.repertoire(var, use, override, force)
        refs = self.references(ref, force)
        c = self.get(cp)
        if c.rng:
            raise Refused('LGRFormatException')
        v = spec.Var(var, type, when, not_when, comment, refs)
        if v.ident() in [x.ident() for x in c.vars]:
            raise Refused('VariantAlreadyExists')
        c.vars.append(v)

    def del_variant(self, cp, var, when, not_when):
        c = self.get(cp)
        if c.rng:
            raise Refused('LGRFormatException')
        for v in c.vars:
            if v.ident() == (tuple(var), when, not_when):
                c.vars.remove(v)
                return True
        return False

    def del_reference(self, ref):
        if ref not in self.refs:
            raise Refused('ReferenceNotDefined')
        self.refs.remove(ref)
        for c in self.chars.values():
            c.ref = [r for r in c.ref if r != ref]
            for v in c.vars:
                v.ref = [r for r in v.ref if r != ref]

    def del_tag(self, tag):
        for c in self.chars.values():
            c.tag = [t for t in c.tag if t != tag]

    def tag_classes(self):
        res = {}
        for c in self.chars.values():
            for t in c.tag:
                res.setdefault(t, set()).update(c.cp)
        return res


def compare(ctx, lgr, m, types, d):
    data = spec.snap_data(lgr)
    exp = {cp: c.full() for cp, c in m.chars.items()}
    ok = True
    if data != exp:
        keys = sorted(k for k in set(data) | set(exp) if data.get(k) != exp.get(k))
        return ctx.check(False, 'content', lambda: 'differs at %s: got %s expected %s; %s' % (
            keys[:3], [data.get(k) for k in keys[:3]], [exp.get(k) for k in keys[:3]], d()))
    ctx.evaluated()
    rep = lgr.repertoire
    ok &= ctx.eq(sorted(rep.ranges), sorted(m.ranges), 'ranges', d)
    ok &= ctx.eq(len(rep), len(m.chars), 'length', d)
    # ordered iteration: code point order, only the first of each range
    it = [tuple(c.cp) for c in rep]
    ok &= ctx.check(it == sorted(it), 'iteration-order', lambda: '%s %s' % (it, d()))
    ok &= ctx.eq(Counter(it), Counter(cp for cp, c in m.chars.items() if not c.rng or c.rng[0] == cp[0]),
                 'iteration', d)
    for seqs in (True, False):
        for rngs in (True, False):
            got = sorted(tuple(c.cp) for c in rep.all_repertoire(include_sequences=seqs, include_ranges=rngs))
            ok &= ctx.eq(got, sorted(cp for cp, c in m.chars.items() if (seqs or len(cp) == 1) and (rngs or not c.rng)),
                         'all-repertoire', d)
    # the virtual classes of the tags; a tag without code points may keep an empty class
    got = {t: set(c.codepoints) for t, c in lgr.get_tag_classes().items() if c.codepoints}
    ok &= ctx.eq(got, m.tag_classes(), 'tag-classes', d)
    ok &= ctx.check({v.type for c in m.chars.values() for v in c.vars} <= set(lgr.types), 'types', d)
    ok &= ctx.eq([r for r in lgr.reference_manager], m.refs, 'references', d)
    return ok


def history(ctx):
    from lgr import exceptions as X
    from lgr.core import LGR
    from lgr.exceptions import NotInLGR
    rng = ctx.rng
    db = rng.choice([None, env.idnadb('6.3.0'), env.unidb()])
    idna = None if db is None else INVALID
    allow = db is not None and rng.random() < 0.3
    lgr = LGR('history', allow_invalid_property=allow)
    if db is not None:
        lgr._unicode_database = db
    pool = ZONE + (BADIDNA if rng.random() < 0.5 else [])
    if rng.random() < 0.35:
        pool = gen.subset(rng, pool, 2, 3)      # many sequences with the same first code point
    validating = set(gen.subset(rng, pool, 3, len(pool) - 1))
    vlgr = LGR('validating')
    for cp in validating:
        vlgr.add_cp(cp)
    m = Model(idna, allow, validating)
    for r in ('0', 'R-1', '7'):
        lgr.add_reference('value ' + r, ref_id=r)
        m.refs.append(r)
    forms = [list, tuple, lambda t: t[0] if len(t) == 1 else list(t)]
    accepted = refused = 0
    log = []

    def form(cp):
        return rng.choice(forms)(cp)

    def rcp():
        r = rng.random()
        if r < 0.5 and m.chars:
            return rng.choice(sorted(m.chars))
        return tuple(rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 2, 3])))

    def rref():
        if rng.random() < 0.5:
            return None
        return [rng.choice(['0', 'R-1', '7'] if rng.random() < 0.9 else ['nope']) for _ in range(rng.choice([1, 1, 1, 2]))]

    def rtag():
        if rng.random() < 0.5:
            return None
        return [rng.choice(gen.TAGS) for _ in range(rng.choice([0, 1, 1, 2]))]

    def rctx():
        r = rng.random()
        if r < 0.6:
            return None, None
        if r < 0.75:
            return rng.choice(CTX), None
        if r < 0.9:
            return None, rng.choice(CTX)
        return rng.choice(CTX), rng.choice(CTX)

    def rrange(fresh=True):
        if not fresh and m.ranges and rng.random() < 0.6:
            return rng.choice(sorted(m.ranges))
        a = rng.choice(pool)
        b = a + rng.randint(1, 4)
        return (b, a) if rng.random() < 0.06 else (a, b)

    for _ in range(rng.randint(15, 40)):
        force = rng.random() < 0.25
        override = rng.random() < 0.2
        use = rng.random() < 0.25
        when, not_when = rctx()
        comment = rng.choice([None, 'c1', 'c2 <é>'])
        kw = dict(comment=comment, ref=rref(), when=when, not_when=not_when,
                  override_repertoire=override, force=force)
        if use:
            kw['validating_repertoire'] = vlgr
        op = rng.choice(['add_cp'] * 6 + ['add_range'] * 4 + ['add_variant'] * 7 +
                        ['del_cp', 'del_cp', 'del_range', 'del_range', 'expand_range', 'del_variant', 'del_variant',
                         'del_variant', 'del_reference', 'del_tag', 'expand_ranges', 'add_codepoints', 'bad'])
        margs = None
        ret = None
        if op == 'add_cp':
            cp, tag = form(rcp()), rtag()
            if force and not isinstance(cp, int) and len(cp) > 1:
                tag = None      # see tagged_sequence
            call = lambda: lgr.add_cp(cp, tag=tag and list(tag), **kw)
            margs = lambda: m.add_cp(cp, comment, kw['ref'], tag, when, not_when, use, override, force)
            text = 'add_cp(%r, tag=%r, %r)' % (cp, tag, kw)
        elif op == 'add_range':
            (a, b), tag = rrange(), rtag()
            call = lambda: lgr.add_range(a, b, tag=tag and list(tag), **kw)
            margs = lambda: m.add_range(a, b, comment, kw['ref'], tag, when, not_when, use, override, force)
            text = 'add_range(%#x, %#x, tag=%r, %r)' % (a, b, tag, kw)
        elif op == 'add_variant':
            cp, var, typ = form(rcp()), form(rcp()), rng.choice([None, 'blocked', 't1'])
            c = m.chars.get((cp,) if isinstance(cp, int) else tuple(cp))
            if c and c.vars and rng.random() < 0.4:
                v = rng.choice(c.vars)
                var = form(v.cp)
                kw['when'], kw['not_when'] = when, not_when = v.when, v.not_when
            call = lambda: lgr.add_variant(cp, var, variant_type=typ, **kw)
            margs = lambda: m.add_variant(cp, var, typ, when, not_when, comment, kw['ref'], use, override, force)
            text = 'add_variant(%r, %r, %r, %r)' % (cp, var, typ, kw)
        elif op == 'del_cp':
            cp = form(rcp())
            call = lambda: lgr.del_cp(cp)
            margs = lambda: m.del_cp(cp)
            text = 'del_cp(%r)' % (cp,)
        elif op in ('del_range', 'expand_range'):
            a, b = rrange(False)
            if a < b and op == 'expand_range' and (a,) not in m.chars and (a, b) not in m.ranges and idna is None:
                pass
            call = lambda: getattr(lgr, op)(a, b)
            margs = lambda: getattr(m, op)(a, b)
            text = '%s(%#x, %#x)' % (op, a, b)
        elif op == 'expand_ranges':
            if any(r[0] in (idna or ()) and not allow for r in m.ranges):
                continue
            call = lgr.expand_ranges
            margs = lambda: [m.expand(r) for r in m.ranges[:]] and None
            text = op
        elif op == 'del_variant':
            cp = rcp()
            c = m.chars.get(cp)
            var, w, nw = rcp(), when, not_when
            if c and c.vars and rng.random() < 0.8:
                v = rng.choice(c.vars)
                var, w, nw = v.cp, v.when, v.not_when
                if rng.random() < 0.2:
                    w, nw = nw, w
            call = lambda: lgr.del_variant(form(cp), rng.choice([list, tuple])(var), w, nw)
            margs = lambda: m.del_variant(cp, var, w, nw)
            text = 'del_variant(%r, %r, %r, %r)' % (cp, var, w, nw)
        elif op == 'del_reference':
            r = rng.choice(m.refs + ['nope'])
            call = lambda: lgr.del_reference(r)
            margs = lambda: m.del_reference(r)
            text = 'del_reference(%r)' % r
        elif op == 'del_tag':
            t = rng.choice(gen.TAGS)
            call = lambda: lgr.del_tag(t)
            margs = lambda: m.del_tag(t)
            text = 'del_tag(%r)' % t
        elif op == 'add_codepoints':
            # fresh and valid code points: the list is inserted as a whole
            cps = [c for c in gen.subset(rng, ZONE, 1, 6) if (c,) not in m.chars]
            tag = rtag()
            tag = sorted(set(tag)) if tag else tag
            call = lambda: lgr.add_codepoints(cps, comment=comment, tag=tag)

            def margs():
                i, l = 0, sorted(cps)
                while i < len(l):
                    j = i
                    while j + 1 < len(l) and l[j + 1] == l[j] + 1:
                        j += 1
                    if i == j:
                        m.add_cp(l[i], comment, None, tag, None, None, False, False, False)
                    else:
                        m.add_range(l[i], l[j], comment, None, tag, None, None, False, False, False)
                    i = j + 1
            text = 'add_codepoints(%r, %r, %r)' % (cps, comment, tag)
        else:
            bad = rng.choice([[], (), None, 3.14])
            f = rng.choice([lambda: lgr.add_cp(bad), lambda: lgr.add_variant(bad, [0x61]),
                            lambda: lgr.add_variant([0x61], bad), lambda: lgr.del_cp(bad), lambda: lgr.get_char(bad),
                            lambda: lgr.check_cp(bad)])
            call = f

            def margs():
                raise Refused('LGRApiInvalidParameter')
            text = 'bad input %r' % (bad,)
        log.append(text)
        d = lambda: 'idna=%s allow=%s validating=%s history:\n%s' % (
            None if db is None else type(db).__name__, allow, sorted(validating), '\n'.join(log))
        try:
            exp, exc = margs(), None
        except Refused as e:
            exp, exc = None, e.name
        try:
            got, gexc = call(), None
        except AssertionError:
            raise
        except X.LGRException as e:
            got, gexc = None, type(e).__name__
        if not ctx.eq(gexc, exc, 'outcome:' + op, d):
            return
        if exc is None:
            accepted += 1
            ctx.event('accepted:' + op)
            if op == 'del_variant':
                ctx.eq(got, exp, 'del-variant-result', d)
        else:
            refused += 1
            ctx.event('refused:' + exc)
        if not compare(ctx, lgr, m, None, d):
            return

        # queries
        if rng.random() < 0.5:
            cp = rcp()
            if m.idna is None or allow or not any(c in m.idna for c in cp):
                ctx.eq(lgr.check_cp(form(cp)), cp in m.chars, 'check-cp', d)
                ctx.eq(rng.choice([list, tuple])(cp) in lgr.repertoire, cp in m.chars, 'contains', d)
                if cp in m.chars:
                    ctx.eq(spec.snap_char(lgr.get_char(form(cp))), m.chars[cp].full(), 'get-char', d)
                    ctx.eq(Counter(spec.snap_var(v) for v in lgr.get_variants(form(cp))),
                           Counter(v.full() for v in m.chars[cp].vars), 'get-variants', d)
                    for v in m.chars[cp].vars[:2]:
                        ctx.eq(Counter(spec.snap_var(x) for x in lgr.get_variant(form(cp), v.cp)),
                               Counter(x.full() for x in m.chars[cp].vars if x.cp == v.cp), 'get-variant', d)
                    ctx.eq(Counter(spec.snap_var(x) for x in lgr.get_char(form(cp)).get_reflexive_variants()),
                           Counter(x.full() for x in m.chars[cp].vars if x.cp == cp), 'reflexive', d)
                    ctx.eq(lgr.get_char(form(cp)).has_variant(), bool(m.chars[cp].vars), 'has-variant', d)
                else:
                    ctx.raises(NotInLGR, 'get-char-missing', lgr.get_char, form(cp))
                    ctx.raises(NotInLGR, 'get-variants-missing', lgr.get_variants, form(cp))
            a = rng.choice(pool)
            pre = [c for c in m.chars if c[0] == a]
            if pre:
                got = [tuple(c.cp) for c in lgr.repertoire.get_chars_from_prefix(a)]
                ctx.check(sorted(got) == sorted(pre) and [len(c) for c in got] == sorted(map(len, pre), reverse=True),
                          'prefix', lambda: '%s %s %s' % (a, got, d()))
                got = [tuple(c.cp) for c in lgr.repertoire.get_chars_from_prefix(a, only_variants=True)]
                ctx.eq(sorted(got), sorted(c for c in pre if m.chars[c].vars), 'prefix-variants', d)
            else:
                ctx.raises(NotInLGR, 'prefix-missing', lgr.repertoire.get_chars_from_prefix, a)
            b = a + rng.randint(0, 4)
            got = [(c, s and type(s).__name__) for c, s in lgr.check_range(a, b, vlgr if use else None)]
            ctx.eq(got, [(c, m.status(c, use)) for c in range(a, b + 1)], 'check-range', d)
            ctx.eq(lgr.raise_on_invalid_property, not allow, 'check-range-side-effect', d)
    if accepted and refused:
        ctx.seen(tuple(log))
    ctx.show(dict(history=log))


def tagged_sequence(ctx):
    """Tags on a sequence, which only force accepts: the class of the tag after a deletion."""
    from lgr.core import LGR
    lgr = LGR('t')
    lgr.add_cp([0x61, 0x62], tag=['tag1'], force=True)
    lgr.add_cp([0x61], tag=['tag1'])
    lgr.del_cp([0x61, 0x62])
    got = {t: set(c.codepoints) for t, c in lgr.get_tag_classes().items()}
    ctx.eq(got, {'tag1': {0x61}}, 'tag-class-of-deleted-sequence', 'U+0061 still carries tag1')
    ctx.event('probed')


def variant_sets(ctx):
    """The variant sets of a repertoire are the connected components of its mappings."""
    rng = ctx.rng
    s = gen.gen_lgr(rng, wle=False, actions=(0, 0), context=0, variants=0.5, seqs=(0, 3), refs=False)
    # make the mappings symmetric, in some cases
    if rng.random() < 0.7:
        for c in list(s.chars.values()):
            for v in list(c.vars):
                r = s.chars.get(v.cp)
                if r is None or r.rng:
                    c.vars.remove(v)
                elif v.cp != c.cp and not any(x.cp == c.cp for x in r.vars):
                    r.vars.append(spec.Var(c.cp, 'blocked'))
    lgr = spec.build_api(s, rng)

    def reach(cp, force):
        seen, todo = {cp}, [cp]
        while todo:
            c = s.chars.get(todo.pop())
            for v in (c.vars if c else ()):
                if v.cp not in seen and (force or v.cp in s.chars):
                    seen.add(v.cp)
                    todo.append(v.cp)
        return tuple(sorted(seen))
    for force in (False, True):
        exp = {reach(cp, force) for cp in s.chars}
        exp = [e for e in sorted(exp) if len(e) > 1]
        got = lgr.repertoire.get_variant_sets(force=force)
        ctx.eq([tuple(x) for x in got], exp, 'variant-sets', lambda: 'force=%s %s' % (force, spec.to_xml(s).decode()))
        if exp:
            ctx.event('sets')
            ctx.seen(exp)


SCENARIOS = [Scenario('tagged-sequence', tagged_sequence, 1, 1, need=('probed',)),
             Scenario('history', history, 5000, 60000,
                      need=('accepted:add_cp', 'accepted:add_range', 'accepted:add_variant', 'accepted:del_cp',
                            'accepted:del_range', 'accepted:expand_range', 'accepted:del_variant',
                            'accepted:add_codepoints', 'refused:CharAlreadyExists', 'refused:NotInRepertoire',
                            'refused:ReferenceNotDefined', 'refused:DuplicateReference', 'refused:LGRFormatException',
                            'refused:VariantAlreadyExists', 'refused:NotInLGR', 'refused:CharInvalidIdnaProperty',
                            'refused:LGRApiInvalidParameter', 'refused:VariantInvalidContextRule',
                            'refused:RangeInvalidContextRule', 'refused:CharInvalidContextRule')),
             Scenario('variant-sets', variant_sets, 2000, 20000, need=('sets',))]
