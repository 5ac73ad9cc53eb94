"""C29: IDNA 2008 compliance report."""
import unicodedata
from ..core import Scenario
from .. import env, gen, spec
from ..spec import Ch, Var

RULE = ('random LGRs over code points of known IDNA status (PVALID, CONTEXTJ, CONTEXTO, DISALLOWED, UNASSIGNED), with '
        'sequences, ranges and code points out of the repertoire; the report is compared with the one the status table '
        'gives; a case is non-trivial when the report has entries of several kinds')
ASSUMPTIONS = ['IDNA properties and names are those of a table in the monitor and of Python unicodedata']

# code point: (IDNA2008 property, disallowed in IDNA2003)
STATUS = {}
for _cp in gen.LATIN + [0x31, 0x2D, 0xDF, 0x3B1, 0x3C2, 0x430, 0x5D0, 0x4E00, 0x30A2, 0x301, 0x30FC, 0x10428, 0x20000]:
    STATUS[_cp] = ('PVALID', False)
for _cp in [0x200C, 0x200D]:
    STATUS[_cp] = ('CONTEXTJ', None)
for _cp in [0xB7, 0x375, 0x5F3, 0x30FB, 0x661, 0x6F2]:
    STATUS[_cp] = ('CONTEXTO', False)
for _cp in [0x41, 0x5A, 0xC9, 0x391, 0x2163, 0xFF21, 0xFB01, 0xAA, 0x2F8]:
    STATUS[_cp] = ('DISALLOWED', False)
STATUS[0x2F8] = ('DISALLOWED', None)
STATUS[0x518] = ('DISALLOWED', True)
STATUS[0x524] = ('DISALLOWED', True)
STATUS[0x20] = ('DISALLOWED', None)
STATUS[0x378] = ('UNASSIGNED', True)
STATUS[0x10FFFF] = ('DISALLOWED', True)
STATUS[0xE000] = ('DISALLOWED', True)
BAD = [cp for cp in STATUS if STATUS[cp][0] in ('DISALLOWED', 'UNASSIGNED')]
GOOD = [cp for cp in STATUS if cp not in BAD]
LONG = dict(Uppercase_Letter='Lu', Lowercase_Letter='Ll', Other_Letter='Lo', Modifier_Letter='Lm', Decimal_Number='Nd',
            Letter_Number='Nl', Nonspacing_Mark='Mn', Dash_Punctuation='Pd', Other_Punctuation='Po', Modifier_Symbol='Sk',
            Space_Separator='Zs', Format='Cf', Private_Use='Co', Unassigned='Cn')
OUT = ['out-of-repertoire-var', 'out-of-repertoire', 'Out-Of-Repertoire-Var']


def prepare():
    env.unidb()


def report(ctx):
    from lgr.tools.idna2008_compliance import check_idna2008_compliance
    rng = ctx.rng
    s = spec.Spec()
    out = set()
    for cp in gen.subset(rng, GOOD, 0, 6) + gen.subset(rng, BAD, 0, 5):
        s.add(Ch((cp,)))
    alpha = GOOD + BAD
    for _ in range(rng.randint(0, 4)):
        cp = tuple(rng.choice(GOOD if rng.random() < 0.7 else alpha) for _ in range(rng.choice([2, 2, 3])))
        if cp not in s.chars:
            s.add(Ch(cp))
    for cp in list(s.chars):
        c = s.chars[cp]
        r = rng.random()
        if r < 0.2:
            c.vars.append(Var(cp, rng.choice(OUT)))
            out.add(cp)
            if rng.random() < 0.3:
                c.vars.append(Var((0x61,) if cp != (0x61,) else (0x62,), 'blocked'))
        elif r < 0.3:
            c.vars.append(Var(cp, rng.choice(['blocked', 'not-out-of-repertoire', None]) or 't'))
        elif r < 0.4:
            v = rng.choice([x for x in alpha if (x,) != cp])
            c.vars.append(Var((v,), 'out-of-repertoire-var'))
        elif r < 0.45:
            c.vars.append(Var(cp, 'blocked', when='anything'))
            c.vars.append(Var(cp, rng.choice(OUT), not_when='anything'))
            out.add(cp)
    if any(v.when or v.not_when for c in s.chars.values() for v in c.vars):
        s.rules.append(('anything', [('anchor',)]))
    for first, n in ((0x43, 4), (0x62, 4), (0x4E10, 3)):
        if rng.random() < 0.2 and not any((cp,) in s.chars for cp in range(first, first + n)):
            s.add_range(first, first + n - 1)
    lgr = spec.load(s)
    lgr.unicode_database = env.unidb()
    d = lambda: spec.to_xml(s).decode()
    ctx.eq({tuple(c.cp) for c in lgr.repertoire.all_repertoire()}, set(s.chars), 'not-loaded', d)
    before = spec.snapshot(lgr)
    res = check_idna2008_compliance(lgr)
    ctx.eq(spec.snapshot(lgr), before, 'lgr-changed', d)
    status = lambda c: STATUS.get(c, ('PVALID', False) if c > 0x5A else ('DISALLOWED', False))
    bad = [cp for cp in s.chars if cp not in out and any(status(c)[0] in ('DISALLOWED', 'UNASSIGNED') for c in cp)]
    d2 = lambda: 'report %s; %s' % (res, d())
    ctx.eq(sorted(x['cp'] for x in res['non_compliant']), sorted(bad), 'non-compliant', d2)
    ctx.eq(res['contains_non_compliant'], bool(bad), 'contains-non-compliant', d2)
    ctx.eq(res['compliant_nbr'], len(s.chars) - len(bad), 'compliant-number', d2)
    for x in res['non_compliant']:
        cp = x['cp']
        ctx.eq(x['glyph'], ''.join(map(chr, cp)), 'glyph', d2)
        ctx.eq(x['idna_property'].split(), [status(c)[0] for c in cp], 'idna-property', d2)
        if all(status(c)[0] != 'UNASSIGNED' for c in cp):
            ctx.eq([LONG.get(g, g) for g in x['category'].split()], [unicodedata.category(chr(c)) for c in cp], 'category', d2)
            if all(unicodedata.name(chr(c), '') for c in cp):
                ctx.eq(x['name'], ' '.join(unicodedata.name(chr(c)) for c in cp), 'name', d2)
        if any(status(c)[1] for c in cp):
            ctx.eq(x['idna2003_compliant'], False, 'idna2003', d2)
            ctx.event('not-idna2003')
        elif all(status(c)[1] is False for c in cp):
            ctx.eq(x['idna2003_compliant'], True, 'idna2003', d2)
            ctx.event('idna2003')
        if len(cp) > 1:
            ctx.event('sequence')
    if out:
        ctx.event('out-of-repertoire')
    if len(bad) > 1:
        ctx.seen(sorted(bad), len(s.chars))
    ctx.show(dict(xml=d(), report=repr(res)))


def status(ctx):
    """The status of single code points and sequences."""
    from lgr.utils import is_idna_valid_cp_or_sequence
    rng = ctx.rng
    db = env.unidb()
    cps = [rng.choice(GOOD if rng.random() < 0.6 else GOOD + BAD) for _ in range(rng.randint(1, 5))]
    bad = [c for c in cps if c in BAD]
    ok, invalid = is_idna_valid_cp_or_sequence(cps, db, check_all=True)
    ctx.eq(ok, not bad, 'valid', cps)
    ctx.eq(invalid, {c: STATUS[c][0] for c in bad}, 'all-invalid', cps)
    ok, invalid = is_idna_valid_cp_or_sequence(cps, db)
    ctx.eq(ok, not bad, 'valid', cps)
    ctx.eq(invalid, {bad[0]: STATUS[bad[0]][0]} if bad else {}, 'first-invalid', cps)
    ctx.event('bad' if bad else 'good')
    if len(bad) > 1:
        ctx.seen(tuple(cps))


SCENARIOS = [
    Scenario('report', report, 1500, 20000, ['not-idna2003', 'idna2003', 'sequence', 'out-of-repertoire']),
    Scenario('status', status, 1500, 20000, ['bad', 'good']),
]
