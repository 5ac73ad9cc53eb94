"""C22: queries are pure: they depend on the LGR and the label only, and leave nothing behind."""
import gc
import json
import logging
import os
import re
import subprocess
import sys
import threading

from ..core import Scenario, Skip
from .. import env, gen, spec

RULE = ('random LGRs and series of queries in random order, interleaved, abandoned, failing, run by several threads, and '
        'repeated in processes with other hash seeds; non-trivial: a label with variants or a failed query')
ASSUMPTIONS = ['logs of queries run by other threads at the same time may be mixed; results may not']

RULE_LOGGER = 'lgr.rule-logger'


def prepare():
    gen.COMP = 0
    env.unidb()


def rule_loggers():
    import lgr.core
    return [l for l in vars(lgr.core).values() if isinstance(l, logging.Logger)] + [logging.getLogger()]


def handlers():
    return [list(l.handlers) for l in rule_loggers()]


def mk(rng, bad=0.3):
    s = gen.gen_lgr(rng, variants=0.7, rules=(1, 3), actions=(1, 4))
    if bad and rng.random() < bad:
        # a rule that cannot be evaluated
        c = rng.choice([c for c in s.chars.values() if not c.rng])
        if not c.when and not c.not_when:
            c.when = 'no-such-rule'
    return s


def freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted((freeze(y) for y in x), key=repr))
    if isinstance(x, dict):
        return tuple(sorted(((k, freeze(v)) for k, v in x.items()), key=repr))
    if hasattr(x, 'cp'):
        return ('char', tuple(x.cp))
    if isinstance(x, str):
        # match objects and sets as they are printed in logs
        x = re.sub('0x[0-9a-f]{8,}', '0x', x)
        return re.sub(r"\{('[^{}]*')\}", lambda m: '{%s}' % ', '.join(sorted(m.group(1).split(', '))), x)
    return x


def queries(rng, s):
    label = gen.gen_label(rng, s, maxlen=4)
    k = rng.choice(['eligible', 'eligible', 'eligible-chars', 'dispositions', 'dispositions', 'dispositions-invalid',
                    'dispositions-hide', 'summary', 'estimate', 'index', 'with-labels', 'quiet'])
    return k, label, rng.random() < 0.5


def generator(lgr, q):
    k, label, collect = q
    if k == 'dispositions':
        return lgr.compute_label_disposition(label, collect_log=collect)
    if k == 'dispositions-invalid':
        return lgr.compute_label_disposition(label, include_invalid=True, collect_log=collect)
    if k == 'dispositions-hide':
        return lgr.compute_label_disposition(label, hide_mixed_script_variants=True, collect_log=collect)
    if k == 'with-labels':
        return lgr.compute_label_disposition(label, with_labels=[label, label[::-1]], collect_log=collect)
    return None


def run(lgr, q):
    """('ok', result) or ('error', type)"""
    k, label, collect = q
    try:
        g = generator(lgr, q)
        if g is not None:
            return 'ok', freeze(list(g))
        if k == 'eligible':
            return 'ok', freeze(lgr.test_label_eligible(label, collect_log=collect))
        if k == 'quiet':
            return 'ok', freeze(lgr.test_label_eligible(label, is_variant=True, collect_log=False))
        if k == 'eligible-chars':
            return 'ok', freeze(lgr.test_label_eligible(label, collect_log=collect, generate_chars=True))
        if k == 'summary':
            return 'ok', freeze(lgr.compute_label_disposition_summary(label, include_invalid=collect))
        if k == 'estimate':
            return 'ok', freeze(lgr.estimate_variant_number(label, hide_mixed_script_variants=collect))
        if k == 'index':
            return 'ok', freeze(lgr.generate_index_label(label))
    except Exception as e:
        return 'error', type(e).__name__


def alone(s, q):
    return run(spec.load(s, env.unidb()), q)


def series(ctx):
    rng = ctx.rng
    s = mk(rng)
    qs = [queries(rng, s) for _ in range(rng.randint(3, 6))]
    level = rng.choice([None, None, logging.DEBUG, logging.INFO])
    import lgr.core
    log = lgr.core.rule_logger
    old = log.level
    if level:
        log.setLevel(level)
    try:
        lgr_ = spec.load(s, env.unidb())
        before = spec.snapshot(lgr_)
        h = handlers()
        exp = [alone(s, q) for q in qs]
        ctx.eq(handlers(), h, 'handlers-alone')
        order = [i for i in range(len(qs)) for _ in range(rng.choice([1, 2]))]
        rng.shuffle(order)
        done = []
        d = lambda: 'after %s; %s' % (done, spec.to_xml(s))
        for i in order:
            done.append(qs[i])
            got = run(lgr_, qs[i])
            ctx.eq(got, exp[i], 'result', d)
            ctx.eq(handlers(), h, 'handlers', d)
            ctx.event(got[0])
            ctx.event(qs[i][0])
            if got[0] == 'error' or qs[i][0].startswith('disp'):
                ctx.seen(repr(qs[i]), spec.to_xml(s))
        ctx.eq(log.level, level or old, 'level', d)
        ctx.eq(spec.diff_snap(before, spec.snapshot(lgr_)), '', 'unchanged', d)
    finally:
        log.setLevel(old)


def interleaved(ctx):
    """Generators consumed by turns, some of them given up."""
    rng = ctx.rng
    s = mk(rng)
    lgr_ = spec.load(s, env.unidb())
    h = handlers()
    qs = []
    while len(qs) < rng.randint(2, 5):
        q = queries(rng, s)
        if generator(lgr_, q) is not None or rng.random() < 0.3:
            qs.append(q)
    exp = [alone(s, q) for q in qs]
    live, got, given_up = {}, {}, set()
    log = []
    d = lambda: '%s %s' % (log, spec.to_xml(s))
    for i, q in enumerate(qs):
        got[i] = []
        live[i] = generator(lgr_, q)
    while live:
        i = rng.choice(sorted(live))
        g = live[i]
        log.append((i, qs[i]))
        if g is None:
            ctx.eq(run(lgr_, qs[i]), exp[i], 'result', d)
            del live[i]
            continue
        if rng.random() < 0.06:
            given_up.add(i)
            if rng.random() < 0.5:
                g.close()
            del live[i]
            del g
            gc.collect()
            ctx.event('given-up')
            continue
        try:
            got[i].append(freeze(next(g)))
            if len(got[i]) > 1:
                ctx.event('step')
        except StopIteration:
            ctx.eq(('ok', tuple(got[i])), exp[i], 'result', d)
            ctx.event('complete')
            del live[i]
        except Exception as e:
            ctx.eq(('error', type(e).__name__), exp[i], 'result', d)
            ctx.event('failed')
            del live[i]
    for i in given_up:
        if exp[i][0] == 'ok':
            ctx.eq(tuple(got[i]), exp[i][1][:len(got[i])], 'prefix', d)
    ctx.eq(handlers(), h, 'handlers', d)
    ctx.seen(repr(log), spec.to_xml(s))


def no_log(q, r):
    """The result of a query, without the logs"""
    if r[0] != 'ok':
        return r
    k, v = q[0], r[1]
    if k.startswith('disp') or k == 'with-labels':
        return r[0], tuple(x[:5] for x in v)
    if k == 'summary':
        return r[0], (v[0], tuple(x[:5] for x in v[1]))
    if k.startswith('eligible') or k == 'quiet':
        return r[0], v[:5] + v[6:]
    return r


def threads(ctx):
    rng = ctx.rng
    specs = [mk(rng, 0.15) for _ in range(rng.choice([1, 1, 2]))]
    for s in specs:
        if ctx.rng.random() < 0.3:
            s.chars[rng.choice([k for k, c in s.chars.items() if not c.rng])].tag = ['tag1']
    work = []
    for _ in range(rng.randint(8, 16)):
        n = rng.randrange(len(specs))
        q = queries(rng, specs[n])
        if q[0].startswith('disp') or q[0] == 'summary':
            q = (q[0], q[1][:3], q[2])
        work.append((n, q))
    exp = [no_log(q, alone(specs[n], q)) for n, q in work]
    # patterns are calculated by the threads
    lgrs = [spec.load(s, env.unidb()) for s in specs]
    before = [spec.snapshot(l) for l in lgrs]
    h = handlers()
    nt = rng.choice([2, 3, 4])
    start = threading.Barrier(nt)
    results = [[] for _ in range(nt)]
    orders = []
    for t in range(nt):
        order = list(range(len(work)))
        rng.shuffle(order)
        orders.append(order)

    def body(t):
        start.wait()
        for i in orders[t]:
            n, q = work[i]
            results[t].append((i, run(lgrs[n], q)))

    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(50)
    finally:
        sys.setswitchinterval(old)
    d = lambda: '%s' % [spec.to_xml(s) for s in specs]
    ctx.check(not any(t.is_alive() for t in ts), 'thread-ended', d)
    for t in range(nt):
        ctx.eq(len(results[t]), len(work), 'thread-completed', d)
        for i, r in results[t]:
            ctx.eq(no_log(work[i][1], r), exp[i], 'thread-result', lambda: '%s %s' % (work[i], d()))
            ctx.event('concurrent')
    ctx.eq(handlers(), h, 'handlers', d)
    for l, b in zip(lgrs, before):
        ctx.eq(spec.diff_snap(b, spec.snapshot(l)), '', 'unchanged', d)
    ctx.seen(repr(work), repr([spec.to_xml(s) for s in specs]))


CHILD = '''
import sys, json
sys.path.insert(0, %(verif)r)
import random
from mon import env, gen, spec
from mon.props import c22
c22.prepare()
rng = random.Random(%(seed)r)
out = []
for _ in range(%(n)d):
    s = c22.mk(rng)
    lgr = spec.load(s, env.unidb())
    for _ in range(6):
        q = c22.queries(rng, s)
        out.append((q, c22.run(lgr, q)))
    from lgr.parser.xml_serializer import serialize_lgr_xml
    out.append(('xml', serialize_lgr_xml(lgr).decode('utf-8')))
print(json.dumps(out))
'''


def hash_seeds(ctx):
    """The same queries in processes that order sets differently."""
    rng = ctx.rng
    seed = rng.randrange(10 ** 9)
    n = 12
    outs = []
    procs = []
    for hs in ['0'] + [str(rng.randrange(1, 4000000)) for _ in range(2)]:
        e = dict(os.environ, PYTHONHASHSEED=hs)
        procs.append(subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c',
                                       CHILD % {'verif': env.VERIF, 'seed': seed, 'n': n}],
                                      env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    for p in procs:
        o, err = p.communicate()
        if p.returncode != 0:
            raise RuntimeError(err.decode()[-2000:])
        outs.append(json.loads(o.decode()))
    for i, o in enumerate(outs[0]):
        for other in outs[1:]:
            ctx.eq(other[i], o, 'hash-seed', lambda: 'seed %s' % seed)
        ctx.event('compared')
    ctx.seen(seed)


SCENARIOS = [Scenario('series', series, 500, 10000, need=('ok', 'error', 'dispositions', 'index', 'estimate')),
             Scenario('interleaved', interleaved, 400, 8000, need=('given-up', 'step', 'complete')),
             Scenario('threads', threads, 100, 2500, need=('concurrent',)),
             Scenario('hash_seeds', hash_seeds, 8, 200, need=('compared',))]
