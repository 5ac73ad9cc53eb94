"""C27: labels and code points given as text."""
import io

from ..core import Scenario, Skip
from .. import env, gen

RULE = ('labels written as U-labels, A-labels (any case), code points in hexadecimal with or without U+, in files with '
        'comments, blanks and a byte order mark, and malformed ones; non-trivial: every label given in another form than '
        'its own')
ASSUMPTIONS = ['labels are scalar values; labels of A-labels are encoded by ICU itself']


def prepare():
    env.unidb()


ZONES = [(0x61, 0x7A), (0x30, 0x39), (0xE0, 0xF6), (0x3B1, 0x3C9), (0x430, 0x44F), (0x5D0, 0x5EA), (0x628, 0x63A),
         (0x4E00, 0x4E20), (0x3042, 0x3080), (0x30A2, 0x30E0), (0xAC00, 0xAC20), (0x10400, 0x10410), (0x1F600, 0x1F610),
         (0x300, 0x304), (0x200C, 0x200D), (0x2D, 0x2D), (0x905, 0x910), (0xA0, 0xBF), (0x41, 0x5A)]
TOKENS = ['U+', 'u+', 'zz', '1_0', '+61', '-61', '\u0661', 'U+\u0661', 'U+110000', '110000', 'FFFFFFFFFF', 'U+-1', 'U+6 1',
          '0061g', 'U+ 61', 'U+0061U+0062', 'é\u0301', '_', 'U+_61']


def is_hex(t):
    return t != '' and all(c in '0123456789abcdefABCDEF' for c in t)


def code_point(t):
    """The code point of a token, or None."""
    t = t.strip()
    if len(t) == 1:
        return ord(t)
    d = t[2:] if t[:2] in ('U+', 'u+') else t
    if not is_hex(d) or int(d, 16) > 0x10FFFF:
        return None
    return int(d, 16)


def draw(rng):
    z = rng.choice(ZONES)
    return tuple(rng.randint(*rng.choice([z, z, z, rng.choice(ZONES)])) for _ in range(rng.randint(1, 6)))


def spell(rng, cp):
    return rng.choice(['U+%04X', 'u+%04x', 'U+%X', '%04X', '%04x', '%06X', 'U+%06X']) % cp


def model(text, decode):
    """(label as code points, valid) of a text that has no outer blanks."""
    if text.lower().startswith('xn--'):
        try:
            return tuple(map(ord, decode(text.lower()))), True
        except Exception:
            return tuple(map(ord, text)), False
    if ' ' in text or 'U+' in text.upper():
        cps = [code_point(t) for t in text.split()]
        if None in cps:
            return tuple(map(ord, text)), False
        return tuple(cps), True
    return tuple(map(ord, text)), True


def text_of(rng, label, encode):
    """A text, and the form."""
    r = rng.random()
    if r < 0.35:
        try:
            a = encode(''.join(map(chr, label)))
        except Exception:
            a = ''
        if a.startswith('xn--'):
            return rng.choice([a, a.upper(), a.title()]), 'a-label'
    if r < 0.6:
        l = [spell(rng, c) for c in label]
        if len(l) == 1 and not l[0].upper().startswith('U+'):
            l[0] = 'U+' + l[0]
        return rng.choice([' ', '  ', ' \t']).join(l), 'code-points'
    if r < 0.7 and len(label) > 1:
        # characters one by one, mixed with code points
        return ' '.join(chr(c) if rng.random() < 0.6 and not chr(c).isspace() else spell(rng, c) for c in label), 'mixed'
    if r < 0.85:
        l = [rng.choice(TOKENS) if rng.random() < 0.5 else spell(rng, c) for c in label]
        return rng.choice(['xn--', '', '', '', '']) + ' '.join(l), 'tokens'
    return ''.join(map(chr, label)), 'u-label'


def clean(s):
    return s.strip()


def single(ctx):
    from lgr.tools.utils import parse_label_input, parse_codepoint_input, parse_single_cp_input
    rng, db = ctx.rng, env.unidb()
    for _ in range(12):
        label = draw(rng)
        text, form = text_of(rng, label, db.idna_encode_label)
        d = lambda: '%r %s' % (text, form)
        exp, valid = model(text, db.idna_decode_label)
        if form in ('a-label', 'code-points', 'mixed'):
            ctx.check(valid, 'model', d)
            if form != 'a-label':
                ctx.eq(exp, label, 'model', d)
        ctx.event(form)
        ctx.event('valid' if valid else 'malformed')
        if exp != tuple(map(ord, text)):
            ctx.seen(text)
        got, ok, ex = parse_label_input(text, idna_decoder=db.idna_decode_label)
        ctx.eq((list(got), ok), (list(exp), valid), 'label', d)
        ctx.check((ex is None) == valid, 'exception', d)
        got, ok, ex = parse_label_input(text, idna_decoder=db.idna_decode_label, as_cp=False)
        ctx.eq((got, ok), (''.join(map(chr, exp)), valid), 'label-as-string', d)
        if valid:
            got, ok, ex = parse_label_input(text, idna_decoder=db.idna_decode_label, do_raise=True)
            ctx.eq((list(got), ok, ex), (list(exp), True, None), 'label-raise', d)
        else:
            ctx.raises(Exception, 'malformed-not-raised', parse_label_input, text, idna_decoder=db.idna_decode_label,
                       do_raise=True)
        # spaces kept
        got, ok, ex = parse_label_input(text, idna_decoder=db.idna_decode_label, keep_spaces=True)
        if not valid and ' ' in text and not text.lower().startswith('xn--'):
            ctx.eq((list(got), ok), (list(map(ord, text)), True), 'spaces-kept', d)
            ctx.event('spaces-kept')
        else:
            ctx.eq((list(got), ok), (list(exp), valid), 'spaces-kept', d)
        # code points
        cps = [code_point(t) for t in text.split()]
        if None in cps:
            ctx.raises(ValueError, 'malformed-code-points', parse_codepoint_input, text)
        else:
            ctx.eq(parse_codepoint_input(text), cps, 'code-points', d)
        for t in text.split()[:3]:
            t2 = rng.choice(['', ' ', '\t']) + t + rng.choice(['', ' '])
            c = code_point(t)
            if c is None:
                ctx.raises(ValueError, 'malformed-code-point', parse_single_cp_input, t2)
                ctx.event('malformed-code-point')
            else:
                ctx.eq(parse_single_cp_input(t2), c, 'code-point', lambda: repr(t2))


def files(ctx):
    from lgr.tools.utils import read_labels
    rng, db = ctx.rng, env.unidb()
    lines, exp, exp_comments = [], [], []
    for i in range(rng.randint(0, 10)):
        r = rng.random()
        if r < 0.15:
            line = rng.choice(['', ' ', '\t', '\u00A0'])
        elif r < 0.3:
            line = rng.choice(['', '  ']) + '#' + rng.choice(['', ' comment', '# x', 'abc', ' a # b'])
            exp_comments.append((line.strip(), tuple(map(ord, line.strip())), True))
        else:
            text, form = text_of(rng, draw(rng), db.idna_encode_label)
            if '#' in text or not text.strip():
                continue
            # blanks around
            t = text.strip()
            cps, valid = model(t, db.idna_decode_label)
            exp.append((t, cps, valid))
            exp_comments.append(exp[-1])
            line = rng.choice(['', ' ', '\t']) + text + rng.choice(['', ' ', '\t', '#c', ' # comment', '  #', '#', ' # a # b', '##', '# U+0061'])
            ctx.event(form)
            ctx.event('valid' if valid else 'malformed')
        if i == 0 and rng.random() < 0.5:
            line = '\ufeff' + line
            ctx.event('byte-order-mark')
        lines.append(line + rng.choice(['\n', '\n', '\r\n']))
    if lines and rng.random() < 0.3:
        lines[-1] = lines[-1].rstrip('\r\n')
    d = lambda: '%r' % lines
    ctx.show(dict(lines=lines))
    keep, as_cp, exc = rng.random() < 0.3, rng.random() < 0.5, rng.random() < 0.5
    src = iter(lines) if rng.random() < 0.5 else io.StringIO(''.join(lines), newline='')
    got = list(read_labels(src, db, keep_commented=keep, as_cp=as_cp, return_exceptions=exc))
    want = exp_comments if keep else exp
    ctx.eq([g[0] for g in got], [w[0] for w in want], 'lines', d)
    for g, w in zip(got, want):
        comment = w[0].startswith('#')
        if comment:
            ctx.eq(tuple(g[1:]), (w[0], True, ''), 'comment', d)
            ctx.event('comment')
            continue
        ctx.eq(list(map(ord, g[1])) if isinstance(g[1], str) else list(g[1]), list(w[1]), 'label-of-line', d)
        ctx.check(isinstance(g[1], str) != as_cp, 'type-of-label', d)
        ctx.eq(g[2], w[2], 'valid-of-line', d)
        if not w[2]:
            ctx.check(isinstance(g[3], Exception) if exc else isinstance(g[3], str) and g[3] != '', 'error-of-line', d)
        ctx.seen(w[0])
    # the first malformed one raises
    good = []
    try:
        for g in read_labels(list(lines), db, do_raise=True):
            good.append(g[0])
        ctx.check(all(w[2] for w in exp), 'not-raised', d)
    except Exception as e:
        n = len(good)
        ctx.check(n < len(exp) and not exp[n][2], 'raised', lambda: '%r %s %s' % (e, good, d()))
        ctx.event('raised')
    n = next((i for i, w in enumerate(exp) if not w[2]), len(exp))
    ctx.eq(good, [w[0] for w in exp[:n]], 'labels-before-raise', d)


JA = [0x3006, 0x30FC]


def script(ctx):
    """The script a label is to be validated with in the root zone."""
    from lgr.tools.utils import get_rz_label_script
    rng, db = ctx.rng, env.unidb()
    zones = [(0x61, 0x7A), (0x3B1, 0x3C9), (0x430, 0x44F), (0x5D0, 0x5EA), (0x4E00, 0x4E20), (0x3042, 0x3080),
             (0x30A2, 0x30E0), (0xAC00, 0xAC20)]
    common = JA + [0x2D, 0x30, 0x300, 0x301, 0xB7]
    for _ in range(10):
        z = rng.sample(zones, 1) if rng.random() < 0.6 else rng.choice([[zones[4], zones[5]], [zones[4], zones[6]], [zones[5], zones[6]]])
        label = [rng.randint(*rng.choice(z)) if rng.random() < 0.7 else rng.choice(common) for _ in range(rng.randint(1, 5))]
        scripts = [db.get_script(chr(c), alpha4=True) for c in label]
        real = [s for s in scripts if s not in ('Zyyy', 'Zinh')]
        kinds = set(real)
        if kinds & {'Hira', 'Kana'}:
            exp = {'Jpan'} if kinds <= {'Hira', 'Kana', 'Hani'} else None
        elif kinds == {'Hang'}:
            exp = {'Kore'}
        elif len(kinds) == 1:
            exp = kinds
        else:
            exp = {'Jpan'} if set(label) & set(JA) else {'Zyyy', 'Zinh'}
        text = ''.join(map(chr, label))
        got = get_rz_label_script(text, db)
        ctx.check(got in {'und-' + e for e in exp}, 'script', lambda: '%s %s got %s expected %s' % (label, scripts, got, exp))
        ctx.event(sorted(exp)[0])
        if len(set(scripts)) > 1:
            ctx.seen(text)
            ctx.event('mixed')
    ctx.eq(get_rz_label_script('', db), None, 'empty')


SCENARIOS = [Scenario('single', single, 1500, 12000,
                      need=('a-label', 'code-points', 'mixed', 'tokens', 'u-label', 'valid', 'malformed', 'spaces-kept',
                            'malformed-code-point')),
             Scenario('files', files, 1200, 10000, need=('a-label', 'malformed', 'byte-order-mark', 'comment', 'raised')),
             Scenario('script', script, 600, 5000, need=('Jpan', 'Hani', 'Kore', 'Latn', 'mixed', 'Zinh'))]
