"""Monitor runner: runs scenarios over generated workloads, watches the oracles, gives a
three-valued verdict and writes the evidence.

A scenario is a function f(ctx): it draws a workload from ctx.rng, drives the real code and
reports every observation to ctx.  A refuting observation is ctx.fail(mechanism, detail).
"""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import env

WORKERS = 8
CASE_TIMEOUT = 60       # watchdog (seconds); firing is not a verdict by itself, see run_case
STEP_LIMIT = 150000000   # logical steps in the code under test, used to judge non-termination
MAX_VIOLATIONS = 12


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Skip(Exception):
    """The drawn workload is outside the property's precondition."""


class Scenario(object):
    def __init__(self, name, fn, quick, thorough, need=(), probe=False):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        # names of events that must have been observed for a verdict
        self.need = tuple(need)
        self.probe = probe


class Ctx(object):
    def __init__(self, pid, scenario, seed, index, tier):
        self.pid = pid
        self.scenario = scenario
        self.seed = seed
        self.index = index
        self.tier = tier
        self.rng = random.Random('%s/%s/%s/%s' % (pid, scenario, seed, index))
        self.events = collections.Counter()
        self.sigs = set()
        self.fails = []
        self.sample = None
        self.evaluations = 0

    # ---- observations
    def event(self, name, n=1):
        self.events[name] += n

    def seen(self, *sig):
        """Register a distinct, non trivial observed case."""
        h = hashlib.blake2b(repr(sig).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
        self.sigs.add(h)

    def evaluated(self, n=1):
        self.evaluations += n

    def show(self, sample):
        if self.sample is None:
            self.sample = sample

    def fail(self, mechanism, detail):
        self.fails.append((mechanism, str(detail)[:4000]))

    def check(self, cond, mechanism, detail=''):
        self.evaluations += 1
        if not cond:
            self.fail(mechanism, detail() if callable(detail) else detail)
        return cond

    def eq(self, got, expected, mechanism, detail=''):
        self.evaluations += 1
        if got != expected:
            d = detail() if callable(detail) else detail
            self.fail(mechanism, 'got %r, expected %r; %s' % (got, expected, d))
            return False
        return True

    def raises(self, exc, mechanism, fn, *args, **kwargs):
        """fn must raise exc (a class or tuple of classes)."""
        self.evaluations += 1
        try:
            r = fn(*args, **kwargs)
        except exc:
            return True
        except Exception as e:
            self.fail(mechanism, 'raised %r instead of %r' % (e, exc))
            return False
        self.fail(mechanism, 'returned %r instead of raising %r' % (r, exc))
        return False


def _alarm(signum, frame):
    raise CaseTimeout()


def _where(exc):
    """(innermost function of the code under test, is it in the code under test)."""
    name = None
    for fr in traceback.extract_tb(exc.__traceback__):
        f = os.path.realpath(fr.filename)
        if f.startswith(os.path.realpath(env.REPO) + os.sep):
            name = '%s:%s' % (os.path.relpath(f, os.path.realpath(env.REPO)), fr.name)
    return name


def _run_fn(ctx, fn):
    try:
        fn(ctx)
    except Skip:
        ctx.event('skipped')
    except (CaseTimeout, StepLimit):
        raise
    except RecursionError as e:
        ctx.fail('exception:RecursionError@%s' % (_where(e) or 'monitor'), traceback.format_exc(limit=-5))
    except MemoryError:
        ctx.event('memory-error')
    except Exception as e:
        where = _where(e)
        ctx.fail('exception:%s@%s' % (type(e).__name__, where or 'monitor'), traceback.format_exc(limit=-12))


def _with_step_limit(ctx, fn):
    """Run again under a deterministic step counter. Returns True if the limit was reached."""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    root = os.path.realpath(env.REPO) + os.sep
    count = [0]

    def tick(code, *a):
        if not code.co_filename.startswith(root):
            return mon.DISABLE
        count[0] += 1
        if count[0] > STEP_LIMIT:
            raise StepLimit()

    mon.use_tool_id(tool, 'steps')
    E = mon.events
    try:
        mon.register_callback(tool, E.PY_START, tick)
        mon.register_callback(tool, E.JUMP, tick)
        mon.register_callback(tool, E.PY_RESUME, tick)
        mon.set_events(tool, E.PY_START | E.JUMP | E.PY_RESUME)
        signal.alarm(240)
        _run_fn(ctx, fn)
        return False
    except StepLimit:
        return True
    finally:
        signal.alarm(0)
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


def run_case(pid, sc, seed, index, tier):
    ctx = Ctx(pid, sc.name, seed, index, tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        _run_fn(ctx, sc.fn)
    except CaseTimeout:
        signal.alarm(0)
        ctx2 = Ctx(pid, sc.name, seed, index, tier)
        try:
            if _with_step_limit(ctx2, sc.fn):
                ctx2.fail('no-termination', 'more than %d steps of the code under test' % STEP_LIMIT)
            ctx = ctx2
        except CaseTimeout:
            ctx = ctx2
            ctx.event('watchdog')
    finally:
        signal.alarm(0)
    return ctx


STOP = None  # set on the first violation, for those who only want to know whether there is one (devtools)


def _worker(args):
    pid, scenarios, seed, tier, w, deadline, q = args
    known = load_findings(pid)
    unlisted = 0
    out = dict(events=collections.Counter(), sigs=set(), fails=[], samples={}, cases=collections.Counter(),
               evaluations=0, capped=False)
    try:
        for sc in scenarios:
            n = sc.quick if tier == 'quick' else sc.thorough
            start = time.time()
            for i in range(w, n, WORKERS):
                if time.time() > deadline:
                    out['capped'] = True
                    break
                begin = time.time()
                ctx = run_case(pid, sc, seed, i, tier)
                out.setdefault('slow', []).append((time.time() - begin, sc.name, i))
                out['slow'] = sorted(out['slow'], reverse=True)[:3]
                out['cases'][sc.name] += 1
                for k, v in ctx.events.items():
                    out['events']['%s/%s' % (sc.name, k)] += v
                out['sigs'] |= ctx.sigs
                out['evaluations'] += ctx.evaluations
                if ctx.sample is not None and sc.name not in out['samples']:
                    out['samples'][sc.name] = ctx.sample
                for mech, detail in ctx.fails:
                    out['fails'].append((sc.name, i, mech, detail))
                new = sum(mech not in known for mech, _ in ctx.fails)
                unlisted += new
                if new and STOP is not None:
                    STOP.set()
                if unlisted > 400 or STOP is not None and STOP.is_set():
                    break
            out['events']['time:%s' % sc.name] += 0
            out.setdefault('times', {})[sc.name] = time.time() - start
    except BaseException:
        out['crash'] = traceback.format_exc()
    q.put((w, out))


def load_findings(pid):
    """Returns {mechanism: text} of the listed (unrepaired) findings of a property."""
    res = {}
    path = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            parts = line[len('finding:'):].strip().split(None, 2)
            d = dict(p.split('=', 1) for p in parts[:2])
            if d['property'] == pid:
                res[d['mechanism']] = parts[2]
    return res


def main(pid, module, tier, seed, replay=None, only=None, budget=None):
    scenarios = module.SCENARIOS
    if only:
        scenarios = [s for s in scenarios if s.name in only]
    findings = load_findings(pid)
    if replay:
        case = json.load(open(replay, encoding='utf-8'))
        sc = [s for s in module.SCENARIOS if s.name == case['scenario']][0]
        ctx = run_case(pid, sc, case['seed'], case['index'], case['tier'])
        for mech, detail in ctx.fails:
            print('%s: %s' % (mech, detail))
        return 1 if ctx.fails else 0

    t0 = time.time()
    if budget is None:
        budget = 500 if tier == 'quick' else 780
    deadline = t0 + budget
    mp = multiprocessing.get_context('fork')
    q = mp.Queue()
    global STOP
    STOP = mp.Event() if os.environ.get('VERIF_FIRST') else None
    procs = []
    # anything expensive to load is loaded once, before the fork
    if hasattr(module, 'prepare'):
        module.prepare()
    for w in range(WORKERS):
        p = mp.Process(target=_worker, args=((pid, scenarios, seed, tier, w, deadline, q),))
        p.start()
        procs.append(p)
    outs = {}
    while len(outs) < WORKERS:
        try:
            w, out = q.get(timeout=5)
            outs[w] = out
        except Exception:
            dead = [i for i, p in enumerate(procs) if not p.is_alive() and i not in outs]
            if dead:
                time.sleep(1)
                try:
                    while True:
                        w, out = q.get(timeout=1)
                        outs[w] = out
                except Exception:
                    pass
                for i in dead:
                    outs.setdefault(i, dict(events=collections.Counter(), sigs=set(), fails=[], samples={},
                                            cases=collections.Counter(), evaluations=0, capped=False,
                                            crash='worker %d died with exit code %r' % (i, procs[i].exitcode)))
            if time.time() > deadline + 200:
                break
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()

    events = collections.Counter()
    cases = collections.Counter()
    sigs = set()
    fails = []
    samples = {}
    times = collections.Counter()
    evaluations = 0
    capped = False
    crashes = []
    for w in sorted(outs):
        o = outs[w]
        events.update(o['events'])
        cases.update(o['cases'])
        sigs |= o['sigs']
        fails += o['fails']
        evaluations += o['evaluations']
        capped |= o['capped']
        for k, v in o['samples'].items():
            samples.setdefault(k, v)
        for k, v in o.get('times', {}).items():
            times[k] = max(times[k], v)
        if o.get('crash'):
            crashes.append(o['crash'])
    if len(outs) < WORKERS:
        crashes.append('a worker gave no answer')
    fails.sort(key=lambda f: (f[0], f[1], f[2]))

    seen_findings = collections.Counter()
    violations = []
    for f in fails:
        if f[2] in findings:
            seen_findings[f[2]] += 1
        else:
            violations.append(f)

    missing = []
    for sc in scenarios:
        for ev in sc.need:
            if events['%s/%s' % (sc.name, ev)] == 0:
                missing.append('%s/%s' % (sc.name, ev))
    missing += [m for m in findings if m not in seen_findings and not only]

    # ---- evidence
    wall = time.time() - t0
    evdir = os.path.join(env.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(sigs),
            'rule': module.RULE,
            'samples': [{'scenario': k, 'case': samples[k]} for k in sorted(samples)][:12] or ['none'],
            'workloads': dict(cases),
            'monitor_events': {k: v for k, v in sorted(events.items()) if not k.startswith('time:')},
            'known_findings_observed': dict(seen_findings),
            'time_capped': capped,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(evdir, '%s.json' % pid), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, default=repr, sort_keys=True)
        f.write('\n')

    for m in sorted(seen_findings):
        print('KNOWN-FINDING: property=%s %s (mechanism %s, observed %d times)' %
              (pid, findings[m], m, seen_findings[m]))
    if violations:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        by_mech = {}
        for f in violations:
            by_mech.setdefault(f[2], f)
        for n, mech in enumerate(sorted(by_mech, key=lambda m: by_mech[m][:2])[:MAX_VIOLATIONS]):
            sc, i, mech, detail = by_mech[mech]
            path = os.path.join(rdir, '%s-%d.json' % (pid, n))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(dict(property=pid, scenario=sc, index=i, seed=seed, tier=tier, mechanism=mech,
                               detail=detail), f, indent=1, ensure_ascii=True)
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, env.VERIF)))
            print('  scenario %s case %d seed %d: %s\n    %s' %
                  (sc, i, seed, mech, ascii(detail)[:1500]))
        print('%s: %d violating observations, %d mechanisms, %.1f s' % (pid, len(violations), len(by_mech), wall))
        return 1
    if os.environ.get('VERIF_VERBOSE'):
        for k, v in sorted(events.items()):
            print('   %-50s %d' % (k, v))
        for k, v in times.items():
            print('   time %-40s %.1f s' % (k, v))
        print('   slowest %s' % sorted((x for o in outs.values() for x in o.get('slow', [])), reverse=True)[:5])
    if crashes or missing or not sigs or events.get('watchdog') or any(k.endswith('/watchdog') for k in events):
        print('%s: INCONCLUSIVE: %s' % (pid, '; '.join(crashes + ['never observed: %s' % m for m in missing]
                                                      + ([] if sigs else ['nothing observed'])) or 'watchdog'))
        return 3
    print('%s: held on %d workloads, %d evaluations, %d distinct non-trivial cases, %.1f s%s' %
          (pid, sum(cases.values()), evaluations, len(sigs), wall, ' (time capped)' if capped else ''))
    return 0
