"""mutate.py OUT N FILE... : N random mutants of each file (0: all); runs the tests, then the checks of the file, and
lists in OUT (JSON lines) those that survive. Environment: VERIF_REPO (tree), SEED, PAR (mutants at the same time)."""
import warnings; warnings.simplefilter("ignore")
import ast, json, os, random, re, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VERIF_REPO', '/repo'); VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
MAP = [('lgr/core.py', 'C01 C02 C03 C07 C08 C22 C23 C14 C25 C09 C06 C15 C20 C13 C10 C26 C24 C30'), ('lgr/action.py', 'C03 C09 C13'),
       ('lgr/char.py', 'C07 C22 C02 C23 C13 C14 C15 C20 C09'), ('lgr/classes.py', 'C05 C04 C23 C31'), ('lgr/matcher.py', 'C04 C05 C31 C01'),
       ('lgr/rule.py', 'C04 C31 C09'), ('lgr/metadata.py', 'C26 C24 C10 C09 C23 C30'), ('lgr/mixed_scripts', 'C30 C02'),
       ('lgr/utils.py', 'C31 C27 C30 C26 C13 C28 C06 C15 C02 C20 C32'), ('lgr/parser/xml_parser.py', 'C10 C09 C04 C25 C26'),
       ('lgr/parser/xml_serializer.py', 'C09 C10'), ('lgr/parser', 'C11 C10'), ('lgr/populate', 'C12'),
       ('lgr/tools/annotate.py', 'C21'), ('lgr/tools/diff_coll', 'C20 C21'), ('lgr/tools/harmonize.py', 'C19'),
       ('lgr/tools/idna2008', 'C29'), ('lgr/tools/merge_set.py', 'C18'), ('lgr/tools/utils.py', 'C27 C32 C20'),
       ('lgr/tools/compare/union', 'C15'), ('lgr/tools/compare/inter', 'C16'), ('lgr/tools/compare/diff', 'C17'),
       ('lgr/tools/compare/utils', 'C15 C16 C17'), ('lgr/tools/idn_review', 'C28'), ('lgr/validate', 'C13 C14 C25'),
       ('lgr/memoize.py', 'C26 C24 C08'), ('tools/', 'C32'), ('lgr/', 'C32')]


def muts(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    b = src.encode()
    for l in b.split(b'\n'):
        offs.append(offs[-1] + len(l) + 1)
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(n, new, kind):
        s, e = pos(n)
        out.append((kind, n.lineno, s, e, new))
    CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in',
           ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}

    def skip(n):
        t = txt(n)
        return re.match(r'(rule_)?(logger|log|cli_logger)\.', t) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)

    def walk(n, depth=0):
        for f, v in ast.iter_fields(n):
            for c in v if isinstance(v, list) else [v]:
                if not isinstance(c, ast.AST):
                    continue
                if isinstance(c, ast.stmt) and skip(c):
                    continue
                if isinstance(c, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
                    continue
                if isinstance(c, ast.If) and '__main__' in txt(c.test):
                    continue
                visit(c, n)
                walk(c)

    def visit(n, parent):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            add(n, '%s %s %s' % (txt(n.left), op, txt(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join('(%s)' % txt(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o2.join('(%s)' % txt(v) for j, v in enumerate(n.values) if j != i) + ')', 'boolrm')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % txt(n.operand), 'not')
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(n.test, 'True', 'true')
            add(n.test, 'False', 'false')
        if isinstance(n, ast.IfExp):
            add(n, '(%s)' % txt(n.body), 'ifexp')
            add(n, '(%s)' % txt(n.orelse), 'ifexp')
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            add(n, 'pass', 'del')
        if isinstance(n, (ast.AugAssign, ast.Continue, ast.Break)):
            add(n, 'pass', 'del')
        if isinstance(n, ast.AugAssign):
            add(n, '%s = %s' % (txt(n.target), txt(n.value)), 'aug')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, 'pass', 'del')
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, '%d' % (n.value + 1), 'const')
            if n.value > 0:
                add(n, '%d' % (n.value - 1), 'const')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            add(n, '%s %s %s' % (txt(n.left), '-' if isinstance(n.op, ast.Add) else '+', txt(n.right)), 'arith')
            add(n, txt(n.left), 'arithrm')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd)):
            add(n, '%s %s %s' % (txt(n.left), '&' if isinstance(n.op, ast.BitOr) else '|', txt(n.right)), 'arith')
        if isinstance(n, ast.Call):
            fn = txt(n.func)
            if re.match(r'.*(format|add_argument|ArgumentParser|debug|info|error|warning)$', fn):
                return
            for k in n.keywords:
                if k.arg:
                    rest = [txt(a) for a in n.args] + ['%s=%s' % (x.arg, txt(x.value)) if x.arg else '**' + txt(x.value)
                                                       for x in n.keywords if x is not k]
                    add(n, '%s(%s)' % (fn, ', '.join(rest)), 'kwrm')
            if fn in ('sorted', 'copy.deepcopy', 'deepcopy', 'copy.copy', 'list', 'tuple', 'set', 'reversed') and len(n.args) == 1:
                add(n, 'list(%s)' % txt(n.args[0]) if fn in ('sorted', 'reversed') else txt(n.args[0]), 'unwrap')
            if fn in ('min', 'max', 'any', 'all'):
                add(n.func, dict(min='max', max='min', any='all', all='any')[fn], 'minmax')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'copy', 'lower', 'upper', 'keys', 'rstrip', 'lstrip', 'expandtabs'):
                add(n, txt(n.func.value), 'unwrap')
            if fn.endswith(('union', 'intersection', 'difference')) and isinstance(n.func, ast.Attribute):
                for x in ('union', 'intersection', 'difference'):
                    if x != n.func.attr:
                        add(n.func, fn.rsplit('.', 1)[0] + '.' + x, 'setop')
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Constant) is False:
            add(n, 'return None', 'ret')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for x in (n.slice.lower, n.slice.upper):
                if x is not None:
                    add(x, '(%s) + 1' % txt(x), 'slice')
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, 'True', 'compif')
        if isinstance(n, ast.ExceptHandler) and n.body and isinstance(n.body[0], (ast.Continue, ast.Pass, ast.Return)):
            pass
    walk(tree)
    res = []
    for kind, line, s, e, new in out:
        t = (b[:s] + new.encode() + b[e:])
        if t == b:
            continue
        try:
            compile(t, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((kind, line, b[s:e].decode(), new, t))
    return res


def sh(cmd, cwd, env=None, t=120):
    e = dict(os.environ); e.update(env or {}); e['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, 'timeout'


TESTS = [PY, '-m', 'pytest', '-q', '-q', '-x', '-p', 'no:cacheprovider', '--doctest-modules', '--timeout=60', '--no-header',
         '--continue-on-collection-errors', 'lgr', 'tests', '-k', 'not zzz']


def one(job):
    f, kind, line, old, new, t, base = job
    d = '/tmp/mut/%s' % hashlib.md5((f + kind + str(line) + old + new).encode()).hexdigest()[:10]
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'doc'))
    try:
        open(os.path.join(d, f), 'wb').write(t)
        rc, o = sh([x for x in TESTS if x != '-x'], d, t=200)
        fails = set(re.findall(r'^(?:FAILED|ERROR) (\S+)', o, re.M))
        r = dict(file=f, line=line, kind=kind, old=old[:300], new=new[:300])
        if fails - base or rc == 124 or 'INTERNALERROR' in o or not o.strip():
            r['res'] = 'tests'
            return r
        for k, v in MAP:
            if f.startswith(k):
                checks = v.split()
                break
        r['res'] = 'SURVIVED'
        for c in checks:
            rc, o = sh(['./check.sh', c], VERIF, {'VERIF_REPO': d, 'VERIF_FIRST': '1'}, t=600)
            if rc == 1:
                r['res'] = c
                return r
            if rc:
                r['res'] = 'BROKEN %s rc=%d' % (c, rc)
                return r
        return r
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    out, n = sys.argv[1], int(sys.argv[2])
    rng = random.Random(int(os.environ.get('SEED', '1')))
    os.makedirs('/tmp/mut', exist_ok=True)
    rc, o = sh([x for x in TESTS if x != '-x'], REPO, t=300)
    base = set(re.findall(r'^(?:FAILED|ERROR) (\S+)', o, re.M))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l); done.add((x['file'], x['line'], x['kind'], x['old'], x['new']))
    jobs = []
    for f in sys.argv[3:]:
        src = open(os.path.join(REPO, f), newline='').read()
        ms = muts(src)
        if n and len(ms) > n:
            ms = rng.sample(ms, n)
        jobs += [(f,) + m + (base,) for m in ms if (f, m[1], m[0], m[2][:300], m[3][:300]) not in done]
    print(len(jobs), 'mutants', 'base', base, flush=True)
    with ThreadPoolExecutor(int(os.environ.get('PAR', '3'))) as ex, open(out, 'a') as fo:
        for r in ex.map(one, jobs):
            fo.write(json.dumps(r) + '\n'); fo.flush()
            if r['res'] != 'tests' and not re.match(r'C\d+$', r['res']):
                print('%(file)s:%(line)d %(kind)s %(res)s\n   - %(old)s\n   + %(new)s' % r, flush=True)
