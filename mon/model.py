"""Executable reference model of RFC 7940 label evaluation, written from the RFC over spec.Spec."""
import unicodedata

from .spec import DEFAULT_ACTS

# Categories used in property classes; the alphabet of the generators only has characters whose
# category never changed.


def parse_count(count):
    if not count:
        return 1, 1
    if ':' in count:
        a, b = count.split(':')
        return int(a), int(b)
    if count.endswith('+'):
        return int(count[:-1]), None
    return int(count), int(count)


class Wle(object):
    """Whole label evaluation: set-of-end-positions matcher."""

    def __init__(self, spec, script=None):
        self.spec = spec
        self.rules = dict(spec.rules)
        self.classes = dict(spec.classes)
        self.tags = spec.tags()
        self.script = script

    # -- classes, as predicates
    def in_class(self, ast, cp):
        k = ast[0]
        if k == 'tag':
            return cp in self.tags.get(ast[1], ())
        if k == 'prop':
            name, value = ast[1].split(':')
            if name == 'gc':
                cat = unicodedata.category(chr(cp))
                return cat == value or (len(value) == 1 and cat.startswith(value))
            if name == 'sc':
                return self.script(cp) == value
            raise ValueError(name)
        if k == 'cps':
            return cp in ast[1]
        if k == 'ref':
            return self.in_class(self.classes[ast[1]], cp)
        if k == 'comp':
            return not self.in_class(ast[1], cp)
        if k == 'union':
            return any(self.in_class(c, cp) for c in ast[1])
        a, b = self.in_class(ast[1], cp), self.in_class(ast[2], cp)
        return {'inter': a and b, 'diff': a and not b, 'symdiff': a != b}[k]

    # -- matchers
    def seq(self, body, label, starts, anchor):
        cur = set(starts)
        for m in body:
            nxt = set()
            for i in cur:
                nxt |= self.ends(m, label, i, anchor)
            cur = nxt
            if not cur:
                break
        return cur

    def one(self, m, label, i, anchor):
        k = m[0]
        n = len(label)
        if k == 'start':
            return {i} if i == 0 else set()
        if k == 'end':
            return {i} if i == n else set()
        if k == 'anchor':
            if anchor is None:
                return set()
            cp, at = anchor
            # the anchor is the code point (sequence) under evaluation
            return {i + len(cp)} if tuple(label[i:i + len(cp)]) == tuple(cp) else set()
        if k == 'any':
            return {i + 1} if i < n else set()
        if k == 'char':
            return {i + len(m[1])} if tuple(label[i:i + len(m[1])]) == tuple(m[1]) else set()
        if k == 'choice':
            res = set()
            for c in m[1]:
                res |= self.ends(c, label, i, anchor)
            return res
        if k == 'rule':
            return self.seq(m[1], label, {i}, anchor)
        if k == 'ruleref':
            return self.seq(self.rules[m[1]], label, {i}, anchor)
        if k == 'class':
            return {i + 1} if i < n and self.in_class(m[1], label[i]) else set()
        if k == 'ahead':
            return {i} if self.seq(m[1], label, {i}, anchor) else set()
        if k == 'behind':
            for s in range(i + 1):
                if i in self.seq(m[1], label, {s}, anchor):
                    return {i}
            return set()
        raise ValueError(k)

    def count_of(self, m):
        return {'any': 1, 'char': 2, 'choice': 2, 'rule': 2, 'ruleref': 2, 'class': 2}.get(m[0])

    def ends(self, m, label, i, anchor):
        idx = self.count_of(m)
        lo, hi = parse_count(m[idx]) if idx is not None else (1, 1)
        if (lo, hi) == (1, 1):
            return self.one(m, label, i, anchor)
        cur = {i}
        for _ in range(lo):
            nxt = set()
            for p in cur:
                nxt |= self.one(m, label, p, anchor)
            cur = nxt
            if not cur:
                return cur
        res = set(cur)
        rounds = 0
        while cur and (hi is None or rounds < hi - lo):
            nxt = set()
            for p in cur:
                nxt |= self.one(m, label, p, anchor)
            cur = nxt - res
            res |= nxt
            rounds += 1
        return res

    def has_anchor(self, body, seen=()):
        for m in body:
            k = m[0]
            if k == 'anchor':
                return True
            if k in ('choice', 'rule', 'ahead', 'behind') and self.has_anchor(m[1], seen):
                return True
            if k == 'ruleref' and self.has_anchor(self.rules[m[1]], seen):
                return True
        return False

    def matches(self, name, label, anchor=None, index=0):
        """Whole-label (anchor None or rule without anchor) or context evaluation of a named rule."""
        body = self.rules[name]
        if anchor is not None and self.has_anchor(body):
            # RFC 7940 6.4: evaluated with the anchor at the given location
            return bool(self.seq(body, label, {index}, (tuple(anchor), index)))
        for i in range(len(label) + 1):
            if self.seq(body, label, {i}, None):
                return True
        return False


class Model(object):
    def __init__(self, spec, script=None):
        self.spec = spec
        self.wle = Wle(spec, script)
        self.by_first = {}
        for cp, c in spec.chars.items():
            self.by_first.setdefault(cp[0], []).append(c)
        for l in self.by_first.values():
            l.sort(key=lambda c: -len(c.cp))
        self.actions = list(spec.actions) + DEFAULT_ACTS
        self._cache = {}

    def context_ok(self, obj, label, index):
        """obj: a Ch or Var standing at index in label."""
        if obj.when is None and obj.not_when is None:
            return True
        key = (obj.cp, obj.when, obj.not_when, label, index)
        r = self._cache.get(key)
        if r is None:
            if obj.when is not None:
                r = self.wle.matches(obj.when, label, obj.cp, index)
            else:
                r = not self.wle.matches(obj.not_when, label, obj.cp, index)
            self._cache[key] = r
        return r

    # -- eligibility
    def preliminary(self, label):
        """Greedy longest-first match. Returns (ok, parts, invalid parts, chars)."""
        label = tuple(label)
        i = 0
        parts, invalid, chars = [], [], []
        while i < len(label):
            cands = self.by_first.get(label[i])
            if not cands:
                invalid.append((label[i], None))
                i += 1
                continue
            rules = []
            for c in cands:
                if label[i:i + len(c.cp)] != c.cp:
                    continue
                if not self.context_ok(c, label, i):
                    rules.append(c.when or c.not_when)
                    continue
                parts += c.cp
                chars.append(c)
                i += len(c.cp)
                break
            else:
                invalid.append((label[i], rules or None))
                i += 1
        return not invalid, parts, invalid, chars

    def reflexive(self, label, apply=True):
        """(types, only variants) of the reflexive mappings of the label."""
        label = tuple(label)
        types = set()
        only = True
        for i in range(len(label)):
            for c in self.by_first.get(label[i], ()):
                if label[i:i + len(c.cp)] != c.cp or not self.context_ok(c, label, i):
                    continue
                found = False
                if apply:
                    for v in c.vars:
                        if v.cp == c.cp and self.context_ok(v, label, i):
                            types.add(v.type)
                            found = True
                only &= found
        return types, bool(only and types)

    def action_triggers(self, a, label, types, only):
        if a.match is not None:
            if not self.wle.matches(a.match, label):
                return False
        elif a.not_match is not None:
            if self.wle.matches(a.not_match, label):
                return False
        types = set(types)
        if a.any_variant:
            return bool(types & set(a.any_variant))
        if a.all_variants:
            return bool(types) and types <= set(a.all_variants)
        if a.only_variants:
            return bool(only) and bool(types) and types <= set(a.only_variants)
        return True

    def disposition(self, label, types, only):
        for i, a in enumerate(self.actions):
            if self.action_triggers(a, tuple(label), types, only):
                return a.disp, i
        raise AssertionError('the last default action applies to every label')

    def eligible(self, label, is_variant=False):
        """(result, invalid parts, disposition, action index)"""
        ok, _, invalid, _ = self.preliminary(label)
        if not ok:
            return False, invalid, 'invalid', -1
        types, only = self.reflexive(label, apply=not is_variant)
        disp, idx = self.disposition(label, types, only)
        return disp != 'invalid', [], disp, idx


class TooMany(Exception):
    pass


def derivations(model, label, strict=False, limit=3000):
    """All the ways to permute a label: list of (variant label, types, only variants).

    A label is cut in repertoire elements; each element is kept or replaced by one of its variants
    whose context holds in (permuted prefix + variant + rest of the label).  An element with a
    valid reflexive mapping is only kept through that mapping.
    strict: the context of the element itself must also hold at its place.
    """
    label = tuple(label)
    out = []

    def rec(i, prefix, types, only):
        if i == len(label):
            out.append((prefix, frozenset(types), only))
            if len(out) > limit:
                raise TooMany()
            return
        rest = label[i:]
        for c in model.by_first.get(label[i], ()):
            if rest[:len(c.cp)] != c.cp:
                continue
            if strict and not model.context_ok(c, prefix + rest, len(prefix)):
                continue
            tail = rest[len(c.cp):]
            reflexive = False
            for v in c.vars:
                if not model.context_ok(v, prefix + v.cp + tail, len(prefix)):
                    continue
                reflexive |= v.cp == c.cp
                rec(i + len(c.cp), prefix + v.cp, types | ({v.type} if v.type else set()), only)
            if not reflexive:
                rec(i + len(c.cp), prefix + c.cp, types, False)

    rec(0, (), frozenset(), True)
    return out


def variant_dispositions(model, label, derivs):
    """{variant label: set of (disposition, action index, types)}"""
    res = {}
    elig = {}
    for v, types, only in set(derivs):
        if v not in elig:
            elig[v] = model.eligible(v, is_variant=v != tuple(label))
        ok, _, disp, idx = elig[v]
        if ok:
            disp, idx = model.disposition(v, types, only)
        else:
            disp = 'invalid'
        res.setdefault(v, set()).add((disp, idx, types))
    return res
