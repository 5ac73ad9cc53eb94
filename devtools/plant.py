"""plant.py FILE.py [id...]: FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]"""
import sys, os, subprocess, shutil, json, runpy, re
REPO=os.environ.get('VERIF_REPO','/repo'); VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); PY='/opt/venv/bin/python'
def sh(cmd, cwd=None, env=None, t=300):
    e=dict(os.environ); e.update(env or {})
    try:
        r=subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as x:
        return 124, 'timeout'
    return r.returncode, r.stdout+r.stderr
MINE={x[:n] for x in sh(['git','log','--format=%H'],cwd=REPO)[1].split()[:-1] for n in (7,8,9,10)}
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def one(s, check=True):
    d='/tmp/plant/w-%s'%s['id']
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree(REPO,d,symlinks=True)
    for f,old,new in s['edits']:
        p=os.path.join(d,f); t=open(p,encoding='utf-8',newline='').read()
        if t.count(old)!=1: return '%s: EDIT matches %d times in %s: %r'%(s['id'],t.count(old),f,old[:60])
        open(p,'w',encoding='utf-8',newline='').write(t.replace(old,new))
    rc,diff=sh(['git','diff'],cwd=d)
    new=[]
    for f,old,n in s['edits']:
        rc,o=sh(['git','blame','-s',f],cwd=REPO)
        mine={x.split(') ',1)[1] for x in o.splitlines() if ') ' in x and x.split()[0] in MINE}
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] in mine: new.append(l)
    out=VERIF+'/seeded/'+s['id']; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.py','w').write(s['demo'])
    open(out+'/demo.sh','w').write('#!/bin/bash\n# run with cwd = the tree to test\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out+'/demo.sh',0o755)
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(out+'/meta.json','w'),indent=1)
    if new: ok0='MY LINES %s'%new[:2]
    else: ok0=''
    r0=sh(['bash',out+'/demo.sh'],cwd=REPO); r1=sh(['bash',out+'/demo.sh'],cwd=d)
    msg=[s['id'],'demo base=%d patched=%d'%(r0[0],r1[0])]
    ok=r0[0]==0 and r1[0] not in (0,124)
    if ok0: ok=False; msg.append(ok0)
    if r0[0]: msg.append(r0[1][-800:])
    rc,o=sh([PY,'-m','pytest','-q','-p','no:cacheprovider','--doctest-modules','--timeout=300','-x' if 0 else '-q','--continue-on-collection-errors','--no-header'],cwd=d,env={'PYTHONDONTWRITEBYTECODE':'1'})
    fails=re.findall(r'^(?:FAILED|ERROR) (\S+)',o,re.M)
    base=one.base
    bad=[f for f in fails if f not in base]
    if bad: ok=False; msg.append('TESTS FAIL %s'%bad[:4])
    if check:
        props=[s['prop']]+s.get('also',[])
        for p in props:
            rc,o=sh(['./check.sh',p],cwd=VERIF,env={'VERIF_REPO':d},t=900)
            m=re.findall(r': (\S+)\n    ',o)
            msg.append('check %s rc=%d %s'%(p,rc,sorted(set(re.findall(r'scenario (\S+) case \d+ seed \d+: (\S+)',o)))[:4]))
    shutil.rmtree(d)
    return ('OK ' if ok else 'BAD ')+' | '.join(msg)
rc,o=sh([PY,'-m','pytest','-q','-q','-p','no:cacheprovider','--doctest-modules','--timeout=300','--continue-on-collection-errors','--no-header'],cwd=REPO,env={'PYTHONDONTWRITEBYTECODE':'1'})
one.base=set(re.findall(r'^(?:FAILED|ERROR) (\S+)',o,re.M))
S=runpy.run_path(sys.argv[1])['SEEDS']; want=sys.argv[2:]
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [s for s in S if not want or s['id'] in want]):
        print(r,flush=True)
