"""C33: the same inputs give the same results, whatever the order of sets and what was run before."""
import json
import os
import subprocess
import sys

from ..core import Scenario
from .. import env, ops

RULE = ('a series of operations of a catalogue (union, intersection, comparison, merge, harmonization, collisions, '
        'annotation, population, validation, statistics, reviews, parsing, evaluation, copies, command line tools) on '
        'random inputs is run in several processes with other hash seeds, each in another order with repetitions; the '
        'results (texts and documents as they are, sets and dictionaries whatever their order) are compared; non-trivial: '
        'an operation whose result was compared between processes and with its repetition')
ASSUMPTIONS = ['dictionaries and sets in results are compared whatever their order, lists and texts in their order',
               'the date does not change during a check (the date is part of some results)']
prepare = ops.prepare

CHILD = """
import sys, json, random
sys.path.insert(0, %(verif)r)
sys.setrecursionlimit(3000)
from mon import ops
ops.prepare()
names, seed, order = %(names)r, %(seed)r, random.Random(%(order)r)
todo = list(range(len(names)))
order.shuffle(todo)
todo += order.sample(todo, len(todo) // 4)
out = {}
for i in todo:
    f = ops.OPS[names[i]](random.Random('%%s/%%s' %% (seed, i)))
    out.setdefault(i, []).append(ops.run(f))
print(json.dumps(out))
"""


def series(ctx):
    rng = ctx.rng
    seed = rng.randrange(10 ** 9)
    # one series in two repeats few operations on many inputs
    kinds = sorted(ops.OPS)
    if rng.random() < 0.5:
        kinds = rng.sample(kinds, 4)
    names = [rng.choice(kinds) for _ in range(60)]
    procs = []
    for hs in ['0'] + [str(rng.randrange(1, 4000000)) for _ in range(2)]:
        code = CHILD % {'verif': env.VERIF, 'seed': seed, 'names': names, 'order': rng.randrange(10 ** 9)}
        procs.append(subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c', code],
                                      env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE,
                                      stderr=subprocess.PIPE))
    outs = []
    for p in procs:
        o, err = p.communicate()
        if p.returncode != 0:
            raise RuntimeError(err.decode()[-2000:])
        outs.append(json.loads(o.decode().splitlines()[-1]))
    for i, name in enumerate(names):
        d = lambda: 'operation %s seed %s/%s' % (name, seed, i)
        base = outs[0][str(i)][0]
        for o in outs:
            for r in o[str(i)][1:]:
                ctx.eq(r, o[str(i)][0], 'repetition-' + name, d)
                ctx.event('repeated')
            ctx.eq(o[str(i)][0], base, 'process-' + name, d)
        ctx.event('%s-%s' % (name, base[0]))
        if base[0] == 'ok':
            ctx.seen(repr(base))


SCENARIOS = [Scenario('series', series, 14, 400, need=['repeated'] + [n + '-ok' for n in sorted(ops.OPS)])]
