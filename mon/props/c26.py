"""C26: metadata."""
import re
import datetime
from ..core import Scenario
from .. import env, gen

RULE = ('random histories of the metadata setters, forced or not, with valid and malformed values, on the real object and '
        'on a model; every attribute and the scripts are compared after each operation; a case is non-trivial when '
        'values were refused and others replaced')
ASSUMPTIONS = ['languages are taken from a table of tags of known validity and scripts']

# tag -> scripts (None: invalid tag)
LANGS = {
    'fr': ['Latn'], 'de': ['Latn'], 'ru': ['Cyrl'], 'ja': ['Hani', 'Hira', 'Kana'], 'ko': ['Hani', 'Hang'], 'zh': [],
    'zh-Hant': ['Hani'], 'zh-Hans': ['Hani'], 'und-Latn': ['Latn'], 'und-Cyrl': ['Cyrl'], 'und-Grek': ['Grek'],
    'und-Jpan': ['Hani', 'Hira', 'Kana'], 'und-Kore': ['Hani', 'Hang'], 'und-Hrkt': ['Hira', 'Kana'],
    'de-Latf': ['Latn'], 'und-Latg': ['Latn'], 'und-Aran': ['Arab'], 'und-Geok': ['Geor'], 'und-Syre': ['Syrc'],
    'und-Syrj': ['Syrc'], 'und-Syrn': ['Syrc'], 'und-Arab': ['Arab'], 'sr-Latn': ['Latn'], 'ar': ['Arab'],
    'und': [], 'fr-CA': ['Latn'], 'el': ['Grek'], 'he': ['Hebr'],
    'zz': None, 'en-foo': None, 'und-Latin': None, '': None, 'fr_FR': None, 'é': None, 'Latin': None,
    'xx-Latn': None, 'fr-Latn': None, 'ru-Cyrl': None, 'xx-Kore': None, 'xx-Aran': None,
}
# the scripts that can be told of invalid tags
INVALID = {'xx-Latn': ['Latn'], 'fr-Latn': ['Latn'], 'ru-Cyrl': ['Cyrl'], 'xx-Kore': ['Hani', 'Hang'], 'en-foo': ['Latn'],
           'xx-Aran': ['Arab'], 'und-Latin': [], 'zz': []}
DATES = ['2015-06-25', '2000-02-29', '1999-12-31', '2026-01-01', '0001-01-01']
BAD_DATES = ['2015-13-26', '2015', '2015-02-29', '2015-6-25', '15-06-25', '2015-06-25 ', '2015/06/25', '', '2015-06-25T00:00',
             '٢٠١٥-٠٦-٢٥', '+2015-06-25', '2015-06-2 5', '2015-06-25-01', '2015-0-1', 'abcd-ef-gh', '20150625', '2015-06-31']
UVS = ['6.3.0', '15.1.0', '0.0.0', '10.20.30']
BAD_UVS = ['6.3', '6', '6.3.0.1', 'v6.3.0', '6.3.0 ', ' 6.3.0', '', '6.3.x', '6.3.0\n', '6..0', '٦.٣.٠', None, '-6.3.0']


def prepare():
    pass


def history(ctx):
    from lgr.metadata import Metadata
    from lgr.exceptions import LGRFormatException
    rng = ctx.rng
    meta = Metadata()
    model = dict(date=None, validity_start=None, validity_end=None, unicode_version='6.3.0', languages=[])
    log = []
    d = lambda: repr(log)
    refused = replaced = 0
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(['date', 'validity_start', 'validity_end', 'unicode_version', 'language', 'language', 'languages',
                         'delete'])
        force = rng.random() < 0.4
        bad = rng.random() < 0.4
        if op == 'delete':
            if model['languages']:
                x = rng.choice(model['languages'])
                model['languages'].remove(x)
                meta.languages.remove(x)
                log.append((op, x))
        elif op == 'languages':
            names = gen.subset(rng, sorted(LANGS), 0, 4) if bad else gen.subset(
                rng, sorted(x for x in LANGS if LANGS[x] is not None), 0, 4)
            log.append((op, names, force))
            arg = names if rng.random() < 0.5 else iter(names) if rng.random() < 0.5 else tuple(names)
            ok = all(LANGS[x] is not None for x in names)
            if ok or force:
                meta.set_languages(arg, force=force)
                model['languages'] = list(names)
                replaced += 1
            else:
                ctx.raises(LGRFormatException, 'invalid-language-accepted', meta.set_languages, arg, force=force)
                refused += 1
        elif op == 'language':
            x = rng.choice(sorted(LANGS))
            log.append((op, x, force))
            if LANGS[x] is not None or force:
                meta.add_language(x, force=force)
                if x not in model['languages']:
                    model['languages'].append(x)
                else:
                    ctx.event('same-language')
            else:
                ctx.raises(LGRFormatException, 'invalid-language-accepted', meta.add_language, x, force=force)
                refused += 1
        else:
            good_pool, bad_pool = (UVS, BAD_UVS) if op == 'unicode_version' else (DATES, BAD_DATES + [None])
            x = rng.choice(bad_pool if bad else good_pool)
            log.append((op, x, force))
            f = getattr(meta, 'set_' + op)
            if not bad or force:
                f(x, force=force)
                model[op] = x
                replaced += 1
            else:
                ctx.raises(LGRFormatException, 'invalid-value-accepted', f, x, force=force)
                refused += 1
        for k, v in model.items():
            ctx.eq(getattr(meta, k), v, 'metadata', d)
        if rng.random() < 0.7:
            exp = [s for x in model['languages'] for s in (LANGS[x] or [])]
            known = all(LANGS[x] is not None or x in INVALID for x in model['languages'])
            every = [s for x in model['languages'] for s in (LANGS[x] or INVALID.get(x) or [])]
            for invalid in rng.choice([[False], [True, False], [False, True, False], [True]]):
                if not invalid:
                    ctx.eq(list(meta.get_scripts()), exp, 'scripts', d)
                    continue
                got = list(meta.get_scripts(True) if rng.random() < 0.3 else meta.get_scripts(allow_invalid=True))
                ctx.check([s for s in exp if s not in got] == [], 'scripts-of-invalid', d)
                if known:
                    ctx.eq(got, every, 'scripts-of-invalid', d)
                    if every != exp:
                        ctx.event('scripts-of-invalid')
            ctx.event('scripts')
    if refused:
        ctx.event('refused')
    if refused and replaced:
        ctx.seen(tuple(map(repr, log)))
    ctx.show(log)


def values(ctx):
    """Versions, scopes and descriptions are compared by their content, with anything."""
    from lgr.metadata import Version, Scope, Description
    rng = ctx.rng
    cls = rng.choice([Version, Scope, Description])
    pool = dict(Version=[None, 'c', 'd'], Scope=[None, 'domain', 'zone'],
                Description=[None, 'text/plain', 'text/html'])[cls.__name__]
    a = (rng.choice(['1', '2', '.', '']), rng.choice(pool))
    b = (rng.choice(['1', '2', '.', '']), rng.choice(pool))
    x, y = cls(*a), cls(*b)
    ctx.eq(x == y, a == b, 'equality', (a, b))
    ctx.eq(x != y, a != b, 'inequality', (a, b))
    ctx.eq(x == cls(*a), True, 'equality', (a, b))
    for other in (None, 1, 'x', a):
        ctx.eq(x == other, False, 'equality-with-other', (a, other))
        ctx.eq(other != x, True, 'equality-with-other', (a, other))
    if cls is Scope:
        ctx.eq(len({x, y, cls(*a)}), 1 if a == b else 2, 'hash', (a, b))
        ctx.event('hash')
    ctx.eq(x in [None, 3, y], a == b, 'in', (a, b))
    ctx.event('equal' if a == b else 'different')
    ctx.seen(cls.__name__, a, b)


SCENARIOS = [
    Scenario('history', history, 3000, 40000, ['refused', 'scripts', 'same-language', 'scripts-of-invalid']),
    Scenario('values', values, 1000, 3000, ['hash', 'equal', 'different']),
]
