"""C23: copies of LGRs are the LGR, and are independent from it."""
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile

from ..core import Scenario, Skip
from .. import env, gen, spec
from . import c22

RULE = ('random LGRs, new or already used, copied by deepcopy, pickle (all protocols) or both, in the process or through a '
        'file read by a process with another hash seed; content, document and queries are compared, then one is edited '
        'and the other one must not change; non-trivial: a used LGR with rules')
ASSUMPTIONS = ['copies have no Unicode database: it is set again, as documented']
prepare = c22.prepare


def mk(rng):
    s = gen.gen_lgr(rng, refs=rng.random() < 0.6, comments=True, meta=True, rules=(0, 3), actions=(0, 4), tags=0.6)
    return s


def duplicate(rng, lgr):
    how = rng.choice(['deepcopy', 'pickle', 'pickle', 'twice'])
    if how == 'deepcopy':
        return how, copy.deepcopy(lgr)
    if how == 'pickle':
        p = rng.randint(0, pickle.HIGHEST_PROTOCOL)
        return 'pickle-%d' % p, pickle.loads(pickle.dumps(lgr, p))
    return how, copy.deepcopy(pickle.loads(pickle.dumps(copy.deepcopy(lgr))))


def document(lgr):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    return serialize_lgr_xml(lgr)


def edit(rng, lgr, s):
    """Some edits of an LGR."""
    from lgr.action import Action
    done = []
    for _ in range(rng.randint(2, 6)):
        cps = sorted(tuple(c.cp) for c in lgr.repertoire.all_repertoire())
        cp = rng.choice(cps)
        op = rng.choice(['add', 'del', 'var', 'delvar', 'tag', 'ref', 'refdel', 'meta', 'action', 'class', 'expand',
                         'refupdate', 'list', 'deltag', 'rule', 'version', 'objects', 'objects'])
        try:
            if op == 'add':
                lgr.add_cp(rng.choice([0x7A, 0x79, (0x7A, 0x79)]), tag=None)
            elif op == 'del':
                lgr.del_cp(cp)
            elif op == 'var':
                lgr.add_variant(cp, [0x7A], variant_type='new-type')
            elif op == 'delvar':
                for v in list(lgr.get_variants(cp))[:1]:
                    lgr.del_variant(cp, v.cp, when=v.when, not_when=v.not_when)
            elif op == 'tag':
                lgr.get_char(cp).tags.append('new-tag')
            elif op == 'ref':
                lgr.add_reference('new')
            elif op == 'refdel':
                for r in list(lgr.reference_manager)[:1]:
                    lgr.del_reference(r)
            elif op == 'refupdate':
                for r in list(lgr.reference_manager)[:1]:
                    lgr.reference_manager.update_reference(r, value='updated')
            elif op == 'meta':
                lgr.metadata.add_language('de-Latn')
                lgr.metadata.scopes.append(object())
                lgr.metadata.scopes.pop()
                lgr.metadata.set_date('2001-01-01')
            elif op == 'version':
                if lgr.metadata.version is not None:
                    lgr.metadata.version.value = 'changed'
            elif op == 'objects':
                # whatever the LGR is made of, changed in place
                m = lgr.metadata
                objs = [(x, n) for x in [m.version, m.description] + list(m.scopes) if x is not None
                        for n in ('value', 'comment', 'scope_type', 'description_type')]
                objs += [(a, n) for a in lgr.actions for n in ('comment', 'disp', 'match', 'not_match')]
                objs += [(r, 'comment') for r in lgr.rules_lookup.values()]
                objs += [(c, 'comment') for c in lgr.classes_lookup.values()]
                c = lgr.get_char(cp)
                objs += [(x, n) for x in [c] + list(c.get_variants()) for n in ('comment', 'type', 'when', 'not_when')]
                for x, n in rng.sample(objs, min(len(objs), 6)):
                    if hasattr(x, n):
                        setattr(x, n, 'changed-%s' % n)
                lists = [x.references for x in [c] + list(c.get_variants()) + lgr.actions]
                for l in rng.sample(lists, min(len(lists), 2)):
                    l.append('changed')
                rng.choice([lgr.actions_xml, lgr.classes_xml]).append('<x/>')
            elif op == 'action':
                lgr.add_action(Action('invalid'))
                lgr.actions.insert(0, lgr.actions.pop())
            elif op == 'class':
                for c in list(lgr.classes_lookup.values())[:1]:
                    c.add_codepoint(0x7A) if hasattr(c, 'add_codepoint') else None
            elif op == 'expand':
                lgr.expand_ranges()
            elif op == 'deltag':
                for t in list(lgr.get_tag_classes())[:1]:
                    lgr.del_tag(t)
            elif op == 'list':
                lgr.rules_xml.append('<x/>')
                lgr.types.add('zzz')
            elif op == 'rule':
                for n in lgr.rules[:1]:
                    lgr.rules_lookup[n].children[:] = []
                    lgr._clear_pattern_cache() if hasattr(lgr, '_clear_pattern_cache') else None
        except Exception as e:
            # whatever an edit says: only the other LGR is looked at
            op += ' ' + type(e).__name__
        done.append(op)
    return done


def fidelity(ctx):
    rng = ctx.rng
    s = mk(rng)
    built = rng.random() < 0.4
    lgr = spec.build_api(s, rng, env.unidb()) if built else spec.load(s, env.unidb())
    qs = [c22.queries(rng, s) for _ in range(5)]
    used = rng.random() < 0.6
    if used:
        for q in qs:
            c22.run(lgr, q)
    before, doc = spec.snapshot(lgr), document(lgr)
    how, other = duplicate(rng, lgr)
    d = lambda: '%s used %s %s\n%s' % (how, used, qs, spec.to_xml(s).decode())
    ctx.show(dict(xml=spec.to_xml(s).decode(), how=how))
    ctx.event(how.split('-')[0])
    ctx.check(type(other) is type(lgr), 'type', d)
    ctx.check(other.unicode_database is None, 'unicode-database-copied', d)
    ctx.check(lgr.unicode_database is env.unidb(), 'unicode-database-of-original', d)
    other.unicode_database = env.unidb()
    ctx.eq(spec.diff_snap(before, spec.snapshot(other)), '', 'content-of-copy', d)
    ctx.eq(set(other.types), set(lgr.types), 'types-of-copy', d)
    ctx.eq(document(other), doc, 'document-of-copy', d)
    ctx.eq(other.metadata.get_scripts(), lgr.metadata.get_scripts(), 'scripts-of-copy', d)
    # alternately, so that what one remembers would be seen by the other
    exp = {}
    for q in qs:
        l = [lgr, other]
        rng.shuffle(l)
        a, b = c22.run(l[0], q), c22.run(l[1], q)
        ctx.eq(a, b, 'query-of-copy', d)
        if not built:
            ctx.eq(a, c22.run(spec.load(s, env.unidb()), q), 'query', d)
        exp[repr(q)] = a
        ctx.event('query')
    if used and s.rules:
        ctx.seen(spec.to_xml(s), how)
    # independence
    kept, changed = (lgr, other) if rng.random() < 0.5 else (other, lgr)
    done = edit(rng, changed, s)
    e = lambda: 'edits %s of the %s; %s' % (done, 'copy' if changed is other else 'original', d())
    ctx.eq(spec.diff_snap(before, spec.snapshot(kept)), '', 'changed-with-the-other', e)
    ctx.eq(document(kept), doc, 'document-changed-with-the-other', e)
    for q in qs:
        ctx.eq(c22.run(kept, q), exp[repr(q)], 'query-changed-with-the-other', e)
    if document(changed) != doc:
        ctx.event('edited')


def copies_of_edited(ctx):
    """A copy of a copy that was edited in between has what the editing says."""
    rng = ctx.rng
    s = mk(rng)
    lgr = spec.load(s, env.unidb())
    for i in range(rng.randint(1, 3)):
        if rng.random() < 0.5:
            c22.run(lgr, c22.queries(rng, s))
        edit(rng, lgr, s)
        how, other = duplicate(rng, lgr)
        other.unicode_database = env.unidb()
        d = lambda: '%s\n%s' % (how, spec.to_xml(s).decode())
        ctx.eq(spec.diff_snap(spec.snapshot(lgr), spec.snapshot(other)), '', 'content-of-edited-copy', d)
        for _ in range(4):
            q = c22.queries(rng, s)
            ctx.eq(c22.run(other, q), c22.run(lgr, q), 'query-of-edited-copy', lambda: '%s %s' % (q, d()))
        lgr = other
        ctx.event('copied')
        ctx.seen(spec.to_xml(s), i)


CHILD = '''
import sys, json, pickle
sys.path.insert(0, %(verif)r)
from mon import env, spec
from mon.props import c22, c23
c22.prepare()
out = []
with open(%(path)r, 'rb') as f:
    work = pickle.load(f)
for lgr, qs in work:
    lgr.unicode_database = env.unidb()
    res = [c22.run(lgr, q) for q in qs]
    out.append((repr(c22.freeze(spec.snapshot(lgr))), c23.document(lgr).decode(), res))
print(json.dumps(out))
'''


def process(ctx):
    rng = ctx.rng
    work = []
    for _ in range(12):
        s = mk(rng)
        lgr = spec.load(s, env.unidb())
        qs = [c22.queries(rng, s) for _ in range(4)]
        if rng.random() < 0.5:
            for q in qs:
                c22.run(lgr, q)
        work.append((lgr, qs))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'lgr')
        with open(path, 'wb') as f:
            pickle.dump(work, f, rng.randint(0, pickle.HIGHEST_PROTOCOL))
        e = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 4000000)))
        p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', CHILD % {'verif': env.VERIF, 'path': path}],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise RuntimeError(p.stderr.decode()[-2000:])
    out = json.loads(p.stdout.decode())
    for (lgr, qs), (snap, doc, res) in zip(work, out):
        d = lambda: document(lgr).decode()
        ctx.eq(snap, repr(c22.freeze(spec.snapshot(lgr))), 'content-in-process', d)
        ctx.eq(doc, document(lgr).decode(), 'document-in-process', d)
        ctx.eq(res, json.loads(json.dumps([c22.run(lgr, q) for q in qs])), 'queries-in-process', d)
        ctx.event('loaded')
        ctx.seen(doc)


SCENARIOS = [Scenario('fidelity', fidelity, 700, 6000, need=('deepcopy', 'pickle', 'twice', 'query', 'edited')),
             Scenario('edited', copies_of_edited, 400, 3000, need=('copied',)),
             Scenario('process', process, 8, 100, need=('loaded',))]
